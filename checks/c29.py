"""C29: serialised values read back exactly as written."""
import itertools
import os
import re
from vlib.spec import *
from vlib.interp import Ty, Unsupported
from vlib.values import Agg, Enum, Str, UNIT, MRef, MSel, RESULT, OPTION, opt
from vlib.dump import REPO

TECHNIQUE = "abstract interpretation of the compiled (derived or written) serde implementations against a model of the serde data formats: the recorded encoding of a symbolic value is fed to the decoder"
RULE = ("for every serialisable type: Serialize and Deserialize are both implemented, under equivalent features; encoding a symbolic value and decoding what was written, both by field name (map "
        "formats) and by position (sequence formats), succeeds and gives back the same value in every component; each component is read in the type it was written in")
FLOOR = 30
SER, DE = "serde_core::ser::", "serde_core::de::"
EXPECTED = [("cv_core", "cv_core::keypoint::KeyPoint"), ("cv_core", "cv_core::point::CameraPoint"), ("cv_core", "cv_core::point::WorldPoint"),
            ("cv_core", "cv_core::pose::WorldToCamera"), ("cv_core", "cv_core::pose::CameraToWorld"), ("cv_core", "cv_core::pose::CameraToCamera"),
            ("cv_core", "cv_core::pose::WorldToWorld"), ("cv_core", "cv_core::so3::Skew3"),
            ("cv_pinhole", "cv_pinhole::CameraIntrinsics"), ("cv_pinhole", "cv_pinhole::CameraIntrinsicsK1Distortion"), ("cv_pinhole", "cv_pinhole::CameraSpecification")]


class Differ(Exception):
    """the decoder asks for something else than what was written"""


def ok(v):
    return Enum(RESULT, ZERO, {0: (v,)})


def err(what):
    return Enum(RESULT, ONE, {1: (Agg("$err", [Str(what)]),)})


def plain(s):
    """representation of a foreign type: wrappers that serialise as what they wrap are dropped"""
    s = re.sub(r"&'?\w*\s*(mut )?", "", s).replace(" ", "")
    for w in ("nalgebra::base::unit::Unit", "nalgebra::Unit", "alloc::boxed::Box", "core::num::wrapping::Wrapping", "core::cmp::Reverse"):
        while w + "<" in s:
            i = s.index(w + "<")
            d, j = 0, i + len(w)
            for j in range(i + len(w), len(s)):
                d += {"<": 1, ">": -1}.get(s[j], 0)
                if d == 0:
                    break
            s = s[:i] + s[i + len(w) + 1:j] + s[j + 1:]
    return s


PRIM = "bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str".split()


class Serde:
    """the serde data model: encodings are recorded as trees and replayed"""

    def __init__(self, ctx, crate):
        self.ctx, self.crate = ctx, crate
        self.paths = {}
        for r in ctx.D[crate]["roots"]:
            self.paths.setdefault(r["path"], r["key"])
        self.form = "map"
        self.differ = []
        self.hooks = {}
        for n in dir(self):
            for p, base in (("ser_", SER), ("de_", DE)):
                if n.startswith(p):
                    tr, _, meth = n[len(p):].partition("__")
                    self.hooks[base + tr + "::" + meth] = getattr(self, n)
        for k in PRIM:
            self.hooks[SER + "Serializer::serialize_" + k] = self.prim(k)
            self.hooks[DE + "Deserializer::deserialize_" + k] = self.visit_shape
        for k in ("any", "bytes", "byte_buf", "string", "option", "unit", "seq", "map", "ignored_any", "enum"):
            self.hooks[DE + "Deserializer::deserialize_" + k] = self.visit_shape
        for e in ("missing_field", "invalid_length", "duplicate_field", "unknown_field", "invalid_value", "invalid_type", "custom", "unknown_variant"):
            self.hooks[DE + "Error::" + e] = (lambda e: lambda ip, st, f, args, fr, t: Agg("$err", [Str(e)]))(e)
        for p in ("serde::private::de::missing_field", "serde::__private::de::missing_field"):
            self.hooks[p] = self.missing

    # -------------------------------------------------------------- types
    def targ(self, fr, f, i):
        a = (f.get("args") or [])[i]
        return a if isinstance(a, dict) else Ty(fr.dump, a)

    def ty_of(self, fr, f, i):
        t = self.targ(fr, f, i)
        while t.k == "ref":
            t = Ty(t.dump, t.j["t"])
        return t

    def impl(self, ty, trait, meth):
        return self.paths.get("<%s as %s>::%s" % (ty.j.get("path", ty.s), trait, meth))

    # -------------------------------------------------------------- encoding
    def encode(self, ip, st, v, ty):
        """what serialising v: ty writes"""
        k = self.impl(ty, SER + "Serialize", "serialize")
        if k is None:
            return Agg("$leaf", [Str(plain(ty.s)), ip.strip(st, v)])
        r = ip.call_body(st, ip.body(k), [Ref(ip.strip(st, v)), Agg("$S", [])])
        if not isinstance(r, Enum) or is_variant(r, 0) is not T:
            raise Unsupported("serialisation of %s may fail" % ty.s)
        return r.payd()[0][0]

    def prim(self, k):
        def go(ip, st, f, args, fr, t):
            return ok(Agg("$leaf", [Str(k), ip.strip(st, args[1])]))
        return go

    def ser_Serialize__serialize(self, ip, st, f, args, fr, t):
        if f.get("key") and ip.body(f["key"]) is not None:
            return NotImplemented
        ty = self.ty_of(fr, f, 0)
        return ok(self.encode(ip, st, args[0], ty))

    def ser_Serializer__serialize_newtype_struct(self, ip, st, f, args, fr, t):
        ty = self.ty_of(fr, f, len(f["args"]) - 1)
        return ok(Agg("$newtype", [ip.strip(st, args[1]), self.encode(ip, st, args[2], ty)]))

    def begin(self, ip, st, f, args, fr, t):
        return ok(Agg("$open", [ip.strip(st, args[1]), Agg("$ents", [])]))

    ser_Serializer__serialize_struct = begin
    ser_Serializer__serialize_tuple_struct = begin

    def ser_Serializer__serialize_tuple(self, ip, st, f, args, fr, t):
        return ok(Agg("$open", [Str(""), Agg("$ents", [])]))

    ser_Serializer__serialize_map = ser_Serializer__serialize_seq = ser_Serializer__serialize_tuple

    def add(self, ip, st, ref, key, val):
        o = ip.deref(st, ref)
        ip.write_ref(st, ref, Agg("$open", [o.f[0], Agg("$ents", list(o.f[1].f) + [Agg("$e", [key, val])])]))
        return ok(UNIT)

    def ser_SerializeStruct__serialize_field(self, ip, st, f, args, fr, t):
        return self.add(ip, st, args[0], ip.strip(st, args[1]), opt(T, self.encode(ip, st, args[2], self.ty_of(fr, f, 1))))

    def ser_SerializeStruct__skip_field(self, ip, st, f, args, fr, t):
        return self.add(ip, st, args[0], ip.strip(st, args[1]), opt(F, UNIT))

    def ser_SerializeTupleStruct__serialize_field(self, ip, st, f, args, fr, t):
        return self.add(ip, st, args[0], Str(""), opt(T, self.encode(ip, st, args[1], self.ty_of(fr, f, 1))))

    ser_SerializeTuple__serialize_element = ser_SerializeSeq__serialize_element = ser_SerializeTupleStruct__serialize_field

    def ser_SerializeMap__serialize_entry(self, ip, st, f, args, fr, t):
        key = ip.strip(st, args[1])
        if not isinstance(key, Str):
            raise Unsupported("map key")
        return self.add(ip, st, args[0], key, opt(T, self.encode(ip, st, args[2], self.ty_of(fr, f, 2))))

    def close(tag):
        def go(self, ip, st, f, args, fr, t):
            o = ip.deref(st, args[0]) if isinstance(args[0], (Ref, MRef, MSel)) else args[0]
            return ok(Agg(tag, list(o.f)))
        return go

    ser_SerializeStruct__end = close("$struct")
    ser_SerializeMap__end = close("$struct")
    ser_SerializeTupleStruct__end = close("$seq")
    ser_SerializeTuple__end = close("$seq")
    ser_SerializeSeq__end = close("$seq")

    # -------------------------------------------------------------- decoding
    def decode(self, ip, st, enc, ty):
        k = self.impl(ty, DE + "Deserialize", "deserialize")
        if k is not None:
            return ip.call_body(st, ip.body(k), [Agg("$D", [enc])])
        if ty.s.endswith("IgnoredAny"):
            return ok(Agg("$ignored", []))
        want = plain(ty.s)
        if want.split("<")[0].endswith("PhantomData"):
            return ok(UNIT)
        if not isinstance(enc, Agg) or enc.tag != "$leaf":
            raise Differ("reads a %s where %s was written" % (want, enc.tag[1:] if isinstance(enc, Agg) else "something else"))
        if enc.f[0].s != want:
            raise Differ("reads a %s where a %s was written" % (want, enc.f[0].s))
        return ok(enc.f[1])

    def visitor(self, ip, st, fr, f, args, meth, extra):
        v = args[-1]
        ty = self.targ(fr, f, len(f["args"]) - 1)
        k = self.impl(ty, DE + "Visitor", meth)
        if k is None:
            raise Differ("%s has no %s" % (ty.s, meth))
        return ip.call_body(st, ip.body(k), [v] + extra)

    def visit_shape(self, ip, st, f, args, fr, t):
        enc = args[0].f[0] if isinstance(args[0], Agg) and args[0].tag == "$D" else None
        if enc is None:
            return NotImplemented
        if enc.tag == "$leaf" and enc.f[0].s in PRIM:
            return self.visitor(ip, st, fr, f, args, "visit_" + enc.f[0].s, [enc.f[1]])
        if enc.tag == "$key":
            return self.visitor(ip, st, fr, f, args, "visit_str", [Ref(enc.f[0])])
        if enc.tag == "$struct":
            return self.open(ip, st, f, args, fr, enc, self.form)
        if enc.tag == "$seq":
            return self.open(ip, st, f, args, fr, enc, "seq")
        if enc.tag == "$newtype":
            return self.visitor(ip, st, fr, f, args, "visit_newtype_struct", [Agg("$D", [enc.f[1]])])
        raise Unsupported("decoding of %s" % enc.tag)

    def open(self, ip, st, f, args, fr, enc, form):
        acc = Agg("$acc", [Agg("$ents", list(enc.f[1].f)), Str("0")])
        return self.visitor(ip, st, fr, f, args, "visit_map" if form == "map" else "visit_seq", [acc])

    def named(self, args, enc):
        """containers carry a name in formats that write it"""
        n = args[1].v if isinstance(args[1], Ref) else args[1]
        if isinstance(n, Str) and isinstance(enc.f[0], Str) and n.s != enc.f[0].s:
            raise Differ("reads a container named %r where %r was written" % (n.s, enc.f[0].s))

    def de_Deserializer__deserialize_struct(self, ip, st, f, args, fr, t):
        enc = args[0].f[0]
        if enc.tag != "$struct":
            raise Differ("reads a struct where a %s was written" % enc.tag[1:])
        self.named(args, enc)
        return self.open(ip, st, f, args, fr, enc, self.form)

    def de_Deserializer__deserialize_tuple_struct(self, ip, st, f, args, fr, t):
        enc = args[0].f[0]
        if enc.tag != "$seq":
            raise Differ("reads a tuple where a %s was written" % enc.tag[1:])
        return self.open(ip, st, f, args, fr, enc, "seq")

    de_Deserializer__deserialize_tuple = de_Deserializer__deserialize_tuple_struct

    def de_Deserializer__deserialize_newtype_struct(self, ip, st, f, args, fr, t):
        enc = args[0].f[0]
        if enc.tag != "$newtype":
            raise Differ("reads a newtype where a %s was written" % enc.tag[1:])
        self.named(args, enc)
        return self.visitor(ip, st, fr, f, args, "visit_newtype_struct", [Agg("$D", [enc.f[1]])])

    def de_Deserializer__deserialize_identifier(self, ip, st, f, args, fr, t):
        return self.visitor(ip, st, fr, f, args, "visit_str", [Ref(args[0].f[0].f[0])])

    def de_Deserialize__deserialize(self, ip, st, f, args, fr, t):
        if f.get("key") and ip.body(f["key"]) is not None:
            return NotImplemented
        d = args[0]
        if not (isinstance(d, Agg) and d.tag == "$D"):
            return NotImplemented
        return self.decode(ip, st, d.f[0], self.targ(fr, f, 0))

    def at(self, ip, st, ref):
        o = ip.deref(st, ref)
        i = int(o.f[1].s)
        return o, i, (o.f[0].f[i] if i < len(o.f[0].f) else None)

    def step(self, ip, st, ref, o, i):
        ip.write_ref(st, ref, Agg("$acc", [o.f[0], Str(str(i + 1))]))

    def some(self, r):
        """Result<T> as Result<Option<T>>"""
        c = is_variant(r, 0)
        p = r.payd()
        out = {}
        if 0 in p:
            out[0] = (opt(T, p[0][0]),)
        if 1 in p:
            out[1] = p[1]
        return Enum(RESULT, ite(c, ZERO, ONE), out)

    def de_MapAccess__next_key(self, ip, st, f, args, fr, t):
        o, i, e = self.at(ip, st, args[0])
        if e is None:
            return ok(opt(F, UNIT))
        return self.some(self.decode_key(ip, st, e.f[0], self.targ(fr, f, 1)))

    def decode_key(self, ip, st, key, ty):
        k = self.impl(ty, DE + "Deserialize", "deserialize")
        if k is None:
            raise Unsupported("key of type %s" % ty.s)
        return ip.call_body(st, ip.body(k), [Agg("$D", [Agg("$key", [key])])])

    def de_MapAccess__next_value(self, ip, st, f, args, fr, t):
        o, i, e = self.at(ip, st, args[0])
        self.step(ip, st, args[0], o, i)
        return self.decode(ip, st, e.f[1].payd()[1][0], self.targ(fr, f, 1))

    def de_SeqAccess__next_element(self, ip, st, f, args, fr, t):
        o, i, e = self.at(ip, st, args[0])
        if e is None:
            return ok(opt(F, UNIT))
        self.step(ip, st, args[0], o, i)
        return self.some(self.decode(ip, st, e.f[1].payd()[1][0], self.targ(fr, f, 1)))

    def missing(self, ip, st, f, args, fr, t):
        ty = self.targ(fr, f, 0)
        if ty.s.startswith("core::option::Option"):
            return ok(opt(F, UNIT))
        return err("missing field")


def concrete(enc):
    """(condition, encoding) for each choice of the fields that were written"""
    if not isinstance(enc, Agg):
        return [(T, enc)]
    if enc.tag == "$newtype":
        return [(c, Agg("$newtype", [enc.f[0], x])) for c, x in concrete(enc.f[1])]
    if enc.tag not in ("$struct", "$seq"):
        return [(T, enc)]
    outs = [(T, [])]
    for e in enc.f[1].f:
        here = is_variant(e.f[1], 1)
        new = []
        for c, es in outs:
            a, b = band(c, here), band(c, bnot(here))
            if a is not F:
                for c2, x in concrete(e.f[1].payd()[1][0]):
                    if band(a, c2) is not F:
                        new.append((band(a, c2), es + [Agg("$e", [e.f[0], opt(T, x)])]))
            if b is not F:
                new.append((b, es))
        outs = new
        if len(outs) > 32:
            raise Unsupported("too many optional fields")
    return [(c, Agg(enc.tag, [enc.f[0], Agg("$ents", es)])) for c, es in outs]


def small(v):
    """omitted fields are usually the ones close to a default: try such values first"""
    acc = set()
    mmap_any(v, acc)
    return {a: 1e-12 for a in acc}


def mmap_any(v, acc):
    if isinstance(v, alg.N):
        for x in alg.leaves(v):
            if hasattr(x, "n"):
                acc |= set(x.n.atoms())
    elif isinstance(v, Mat):
        for x in v.e:
            mmap_any(x, acc)
    elif isinstance(v, Agg):
        for x in v.f:
            mmap_any(x, acc)


def roundtrip(ctx, crate, ty, form):
    nm = "%s, by %s" % (ty.split("::")[-1], "field name" if form == "map" else "position")
    sp, dp = "<%s as %sSerialize>::serialize" % (ty, SER), "<%s as %sDeserialize>::deserialize" % (ty, DE)
    s = Serde(ctx, crate)
    s.form = form
    sroot, droot = ctx.find(crate, sp), ctx.find(crate, dp)
    at = droot["span"]
    ip = ctx.interp(crate, s.hooks)
    try:
        r = ctx.run(crate, sp, over={1: Agg("$S", [])}, ip=ip)
    except Differ as e:
        ctx.undecided("%s: encoding" % nm, str(e))
        return
    if not r:
        return
    if is_variant(r.value, 0) is not T:
        ctx.undecided("%s: encoding" % nm, "may fail by itself")
        return
    v = r.read(r.args[0])
    for n, (cond, enc) in enumerate(concrete(r.value.payd()[0][0])):
        tag = nm if n == 0 else "%s (case %d of omitted fields)" % (nm, n)
        ip2 = ctx.interp(crate, s.hooks)
        try:
            d = ctx.run(crate, dp, over={0: Agg("$D", [enc])}, ip=ip2)
        except Differ as e:
            ctx.violate("%s: written values can be read back" % tag, "deserialising %s %s" % (ty, e), at)
            continue
        if not d:
            continue
        good = is_variant(d.value, 0)
        if not ctx.eq("%s: written values can be read back" % tag, good, T, at, under=cond):
            continue
        ctx.eq("%s: the value read is the value written" % tag, d.read(d.value.payd()[0][0]), v, at, under=band(cond, good), fix=None if n == 0 else small(v))


# ------------------------------------------------------------------ features
def tokens(src):
    return re.findall(r'"(?:\\.|[^"\\])*"|//[^\n]*|/\*.*?\*/|\w+|\S', src, re.S)


def group(ts, i):
    """index after the group opening at ts[i]"""
    d = 0
    for j in range(i, len(ts)):
        if ts[j] in "([{":
            d += 1
        elif ts[j] in ")]}":
            d -= 1
            if d == 0:
                return j + 1
    return len(ts)


def split(ts):
    out, cur, d = [], [], 0
    for t in ts:
        if t in "([{":
            d += 1
        elif t in ")]}":
            d -= 1
        if t == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out + [cur] if cur else out


def cond_eval(ts, on):
    """value of a cfg predicate when exactly the atoms in `on` are set"""
    if ts[0] in ("all", "any", "not") and len(ts) > 1 and ts[1] == "(":
        rs = [cond_eval(x, on) for x in split(ts[2:-1])]
        return all(rs) if ts[0] == "all" else any(rs) if ts[0] == "any" else not rs[0]
    return " ".join(ts) in on


def cond_atoms(ts):
    if ts[0] in ("all", "any", "not") and len(ts) > 1 and ts[1] == "(":
        return set().union(set(), *[cond_atoms(x) for x in split(ts[2:-1])])
    return {" ".join(ts)}


def declared(src):
    """{type: {trait: [conditions]}} for the derives and impls of the serde traits in one file"""
    ts = [t for t in tokens(src) if not t.startswith(("//", "/*"))]
    out = {}
    i, attrs = 0, []
    while i < len(ts):
        if ts[i] == "#" and i + 1 < len(ts) and ts[i + 1] == "[":
            j = group(ts, i + 1)
            attrs.append(ts[i + 2:j - 1])
            i = j
            continue
        if ts[i] in ("struct", "enum", "impl"):
            cfgs = [a[2:-1] for a in attrs if a[:1] == ["cfg"]]
            if ts[i] != "impl":
                name = ts[i + 1]
                for a in attrs:
                    conds, b = list(cfgs), a
                    while b[:1] == ["cfg_attr"]:
                        parts = split(b[2:-1])
                        conds = conds + [parts[0]]
                        b = next((x for x in parts[1:] if x[:1] in (["derive"], ["cfg_attr"])), [])
                    if b[:1] == ["derive"]:
                        for d in split(b[2:-1]):
                            if d and d[-1] in ("Serialize", "Deserialize"):
                                out.setdefault(name, {}).setdefault(d[-1], []).append(conds)
            else:
                j = i + 1
                head = []
                while j < len(ts) and ts[j] not in ("{", ";"):
                    head.append(ts[j])
                    j += 1
                if "for" in head:
                    k = len(head) - 1 - head[::-1].index("for")
                    tr = [x for x in head[:k] if x in ("Serialize", "Deserialize")]
                    nm = next((x for x in head[k + 1:] if x[0].isupper()), None)
                    if tr and nm:
                        out.setdefault(nm, {}).setdefault(tr[-1], []).append(cfgs)
            attrs = []
        elif ts[i] not in ("pub", "(", ")", "crate", "unsafe", "super", "in"):
            attrs = []
        i += 1
    return out


def features(ctx):
    """both directions are available in exactly the same configurations"""
    for crate, folder in (("cv_core", "cv-core"), ("cv_pinhole", "cv-pinhole")):
        found = {}
        for dp, dn, fn in os.walk(os.path.join(REPO, folder, "src")):
            for f in sorted(fn):
                if f.endswith(".rs"):
                    with open(os.path.join(dp, f)) as h:
                        for ty, d in declared(h.read()).items():
                            for tr, cs in d.items():
                                found.setdefault(ty, {}).setdefault(tr, []).extend(cs)
        for c, path in EXPECTED:
            if c != crate:
                continue
            d = found.get(path.split("::")[-1], {})
            nm = "%s: both directions are enabled together" % path.split("::")[-1]
            if set(d) != {"Serialize", "Deserialize"}:
                ctx.undecided(nm, "no derive or impl of both traits recognised in the source")
                continue
            atoms = sorted(set().union(*[cond_atoms(x) for cs in d.values() for conj in cs for x in conj]) if any(conj for cs in d.values() for conj in cs) else set())
            if len(atoms) > 10:
                ctx.undecided(nm, "too many conditions")
                continue
            bad = None
            for k in range(2 ** len(atoms)):
                on = {a for i, a in enumerate(atoms) if k >> i & 1}
                s, e = [any(all(cond_eval(x, on) for x in conj) for conj in d[tr]) for tr in ("Serialize", "Deserialize")]
                if s != e:
                    bad = (s, on)
                    break
            ctx.holds(nm, bad is None, "%s: with %s, only %s is available" % (path, " and ".join(sorted(bad[1])) or "no feature", "serialisation" if bad[0] else "deserialisation") if bad else "", path)


def check(ctx):
    seen = set()
    for c, ty in EXPECTED:
        a = ctx.anchor(c, "<%s as %sSerialize>::serialize" % (ty, SER))
        b = ctx.anchor(c, "<%s as %sDeserialize>::deserialize" % (ty, DE))
        if a and b:
            seen.add((c, ty))
    for c, r in ctx.roots():
        m_ = re.match(r"<([\w:]+) as %sSerialize>::serialize$" % SER, r["path"])
        if m_ and r.get("reach") and (c, m_.group(1)) not in seen:
            ty = m_.group(1)
            if ctx.holds("%s: can be read back" % ty, ctx.find(c, "<%s as %sDeserialize>::deserialize" % (ty, DE)) is not None, "%s can be serialised but not deserialised" % ty, r["span"]):
                seen.add((c, ty))
    ctx.count("serialisable types", len(seen))
    for c, ty in sorted(seen):
        for form in ("map", "seq"):
            with ctx.part("%s by %s" % (ty, form)):
                roundtrip(ctx, c, ty, form)
    with ctx.part("features"):
        features(ctx)

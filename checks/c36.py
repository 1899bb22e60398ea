"""C36: value types copy, compare and convert component by component."""
from fractions import Fraction
from vlib.spec import *
from vlib.dump import CRATES
from vlib import interp
from vlib.models import veq
from vlib.ctx import flatten_pairs

TECHNIQUE = "abstract interpretation of the compiled (derived or written) Clone, PartialEq, PartialOrd, AsRef/AsMut/Deref and From implementations into normal forms, compared with the identity and with componentwise equality"
RULE = ("clone returns every component; eq is true exactly when every component is equal; partial_cmp gives Equal for a value and itself and follows a single component that is moved; the reference conversions give the stored inner value itself (a write through the mutable one changes exactly it); "
        "From in both directions carries the inner value unchanged; the image point of a key point is its stored point")
FLOOR = 200


def check(ctx):
    for c, q in ctx.roots(None, lambda q: q["inputs"]):
        self_ty = peel(ctx, c, q["inputs"][0])
        n = q["name"]
        p = self_ty.get("path", "")
        own = p.split("::")[0] in CRATES and "__" not in q["path"]
        nm = "%s %s" % (p.split("::")[-1], n)
        if own and n == "clone" and "core::clone::Clone" in q["path"]:
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq(nm, r.value, r.args[0], q["span"])
        elif own and n == "eq" and "core::cmp::PartialEq" in q["path"] and len(q["inputs"]) == 2:
            equality(ctx, c, q, nm)
        elif own and n == "partial_cmp" and "core::cmp::PartialOrd" in q["path"] and len(q["inputs"]) == 2:
            order(ctx, c, q, nm)
        elif own and n in ("as_ref", "deref") and len(q["inputs"]) == 1:
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq(nm, r.value, inner(r.args[0]), q["span"])
        elif own and n in ("as_mut", "deref_mut") and len(q["inputs"]) == 1:
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq(nm + " reads the inner value", unref(r.read(r.value)), inner(r.args[0]), q["span"])
                ctx.eq(nm + " changes nothing itself", unref(r.after(0)), unref(r.args[0]), q["span"])
        elif n == "from" and "core::convert::From" in q["path"] and len(q["inputs"]) == 1:
            conversion(ctx, c, q)
        elif own and n == "image_point":
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq(nm, r.value, inner(r.args[0]), q["span"])


def peel(ctx, c, ty):
    t = ctx.tj(c, ty)
    while t.get("k") == "ref":
        t = ctx.tj(c, t["e"])
    return t


def inner(v):
    v = unref(v)
    return v.f[0]


def wrapper(ctx, c, ty):
    """the type of the single field of a one-field struct of the library, or None"""
    t = ctx.tj(c, ty)
    if t.get("k") != "adt" or t["path"].split("::")[0] not in CRATES:
        return None
    it = ctx.adt(t["path"].split("::")[0], t["path"])
    fs = it["variants"][0]["fields"] if it and len(it["variants"]) == 1 else []
    return ctx.tj(t["path"].split("::")[0], fs[0]["tyid"]) if len(fs) == 1 else None


def conversion(ctx, c, q):
    """only the two directions between a one-field struct and its field; the argument decides by its shape"""
    ta, tb = ctx.tj(c, q["inputs"][0]), ctx.tj(c, q["output"])
    wa, wb = wrapper(ctx, c, q["inputs"][0]), wrapper(ctx, c, q["output"])
    into = wb is not None and wb.get("path") == ta.get("path")
    outof = wa is not None and wa.get("path") == tb.get("path")
    if not into and not outof:
        return
    r = ctx.run(c, q["path"])
    if not r:
        return
    got, want = (unref(r.value).f[0], r.args[0]) if into else (r.value, unref(r.args[0]).f[0])
    if flatten_pairs(got, want)[1] is None:
        name = "%s from its inner value" % tb["s"].split("::")[-1] if into else "inner value of %s" % ta["s"].split("::")[-1]
        ctx.eq(name, got, want, q["span"])


def equality(ctx, c, q, nm):
    r = ctx.run(c, q["path"])
    if not r:
        return
    a, b = unref(r.args[0]), unref(r.args[1])
    ps, bad = flatten_pairs(a, b)
    if bad is not None or not all(atom_of(y) is not None for _, _, y, _ in ps):
        ctx.undecided(nm, "the components of the type are not plain numbers")
        return
    ats = [atom_of(y) for _, _, y, _ in ps]
    full = {at: x for at, (_, x, _, _) in zip(ats, ps)}
    ctx.eq(nm + ": a value equals itself", interp.subst(r.value, full), T, q["span"])
    # a value whose two parts are exchanged is another value
    fa, fb = list(getattr(a, "f", None) or []), list(getattr(b, "f", None) or [])
    for i in range(len(fa)):
        for j in range(i):
            pi, pj = flatten_pairs(fb[i], fa[j]), flatten_pairs(fb[j], fa[i])
            if pi[1] is None and pj[1] is None:
                sw = {atom_of(y): x for y, x in [(g, w) for _, g, w, _ in pi[0] + pj[0]] if atom_of(y) is not None}
                mm = {**full, **sw}
                want = T
                for k, (_, x, _, _) in zip(ats, ps):
                    want = alg.band(want, veq(mm[k], x))
                ctx.eq(nm + ": parts %d and %d exchanged" % (j, i), interp.subst(r.value, mm), want, q["span"])
    for at, (lab, x, y, _) in zip(ats, ps):
        x0 = atom_of(x)
        if x0 is not None:
            mm = {**full, x0: num(0), at: num(Fraction("1e-40"))}
            ctx.eq(nm + ": component %s zero and not quite zero" % lab, interp.subst(r.value, mm), F, q["span"])
        m_ = {k: v for k, v in full.items() if k != at}
        for d in (None, "1e-9", "-3"):
            mm = dict(m_)
            if d is not None:
                mm[at] = alg.add(x, num(Fraction(d)))
            ctx.eq(nm + ": component %s%s" % (lab, "" if d is None else " moved by " + d), interp.subst(r.value, mm), veq(y, x) if d is None else F, q["span"])


def order(ctx, c, q, nm):
    r = ctx.run(c, q["path"])
    if not r:
        return
    a, b = unref(r.args[0]), unref(r.args[1])
    ps, bad = flatten_pairs(a, b)
    if bad is not None or not all(atom_of(y) is not None for _, _, y, _ in ps):
        ctx.undecided(nm, "the components of the type are not plain numbers")
        return

    def is_(v):
        return Some(Enum("core::cmp::Ordering", num(v), {}))
    full = {atom_of(y): x for _, x, y, _ in ps}
    ctx.eq(nm + ": a value and itself", interp.subst_value(r.value, full, {}), is_(0), q["span"])
    for lab, x, y, _ in ps:
        for d, w in (("1e-9", -1), ("-3", 1)):
            ctx.eq(nm + ": component %s moved by %s" % (lab, d), interp.subst_value(r.value, {**full, atom_of(y): alg.add(x, num(Fraction(d)))}, {}), is_(w), q["span"])


def atom_of(n):
    ls = alg.leaves(n)
    if len(ls) != 1 or isinstance(ls[0], bool):
        return None
    ats = ls[0].n.atoms()
    if len(ats) != 1:
        return None
    a = next(iter(ats))
    return a if alg.same(n, alg.leaf(alg.ra(a)), T) else None

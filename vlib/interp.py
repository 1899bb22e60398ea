"""Abstract interpreter over dumped MIR.

Values are rational functions / decision diagrams (alg.py) in structured containers (values.py).  Branches are
joined at immediate post-dominators, loops over concrete sequences are unrolled, loops over abstract (unknown
length) sequences are summarised.  No path enumeration, no solver, nothing is executed."""
import sys
from fractions import Fraction
import struct
from . import alg
from .alg import N, T, F, leaf, ite, band, bor, bnot, Rat, num
from .values import *

sys.setrecursionlimit(20000)


SELDEF = {}


class Unsupported(Exception):
    pass


class Diverge(Exception):
    pass


class State:
    __slots__ = ("m", "pc")

    def __init__(self, m, pc):
        self.m, self.pc = m, pc

    def copy(self, pc=None):
        return State(dict(self.m), self.pc if pc is None else pc)


class Body:
    """cached per-body structure"""

    def __init__(self, key, j, dump):
        self.key, self.j, self.dump = key, j, dump
        self.blocks = j["blocks"]
        self._ipd = None
        self._loops = None

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t["k"]
        if k == "goto" or k == "drop" or k == "assert":
            return [t["t"]]
        if k == "call":
            return [] if t["t"] is None else [t["t"]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in t["ts"]] + [t["o"]]))
        return []

    def live(self):
        """blocks that can reach a return"""
        if self._ipd is None:
            self._compute()
        return self._reach

    def _compute(self):
        n = len(self.blocks)
        exit_ = n
        succ = {b: self.succ(b) for b in range(n)}
        for b in range(n):
            if self.blocks[b]["t"]["k"] == "ret":
                succ[b] = [exit_]
        pred = {b: [] for b in range(n + 1)}
        for b, ss in succ.items():
            for s in ss:
                pred[s].append(b)
        reach = {exit_}
        st = [exit_]
        while st:
            x = st.pop()
            for p in pred[x]:
                if p not in reach:
                    reach.add(p)
                    st.append(p)
        self._reach = reach
        # post dominators by iteration over reachable-to-exit blocks
        nodes = [b for b in reach if b != exit_]
        pd = {b: set(reach) for b in nodes}
        pd[exit_] = {exit_}
        changed = True
        while changed:
            changed = False
            for b in nodes:
                ss = [s for s in succ[b] if s in reach]
                new = set.intersection(*[pd[s] for s in ss]) | {b} if ss else {b}
                if new != pd[b]:
                    pd[b] = new
                    changed = True
        ipd = {}
        for b in nodes:
            c = pd[b] - {b}
            best = None
            for x in c:
                if all(y in pd[x] for y in c):
                    best = x
            ipd[b] = best
        self._ipd = ipd
        self.exit = exit_
        # dominators & natural loops
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(succ[b]))]
            seen.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s not in seen and s != exit_:
                        seen.add(s)
                        stack.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    stack.pop()
        dfs(0)
        dom = {b: set(seen) for b in seen}
        dom[0] = {0}
        changed = True
        ro = list(reversed(order))
        while changed:
            changed = False
            for b in ro:
                if b == 0:
                    continue
                ps = [p for p in pred[b] if p in seen]
                new = set.intersection(*[dom[p] for p in ps]) | {b}
                if new != dom[b]:
                    dom[b] = new
                    changed = True
        self.dom = dom
        loops = {}
        for b in seen:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in pred[x] if p in seen)
        self._loops = loops
        self.succs = succ

    def ipdom(self, b):
        if self._ipd is None:
            self._compute()
        return self._ipd.get(b)

    def loops(self):
        if self._loops is None:
            self._compute()
        return self._loops

    def inner_loop(self, b):
        c = [(len(l), h) for h, l in self.loops().items() if b in l]
        return min(c)[1] if c else None


class Ty:
    """type handle: (dump, id)"""

    def __init__(self, dump, i):
        self.dump, self.i = dump, i
        self.j = dump["types"][i]
        self.k = self.j["k"]

    def sub(self, i):
        return Ty(self.dump, i)

    @property
    def s(self):
        return self.j["s"]

    def __repr__(self):
        return self.s


class Frame:
    __slots__ = ("body", "id", "dump")
    cnt = 0

    def __init__(self, body):
        self.body = body
        self.dump = body.dump
        Frame.cnt += 1
        self.id = Frame.cnt

    def cell(self, l):
        return (self.id, l)


class Interp:
    def __init__(self, dumps, crate, hooks=None):
        self.dumps = dumps
        self.dump = dumps[crate]
        self.crate = crate
        self.bodies = {}
        self.events = []
        self.loops = []
        self.quiet = 0
        self.hooks = hooks or {}
        self.stack = []
        self.visits = {}
        self.adts = {}
        for c, d in dumps.items():
            for it in d["items"]:
                if it["k"] == "adt":
                    self.adts[it["path"]] = (d, it)
        self.loopdepth = 0
        self.ranges = {}
        self.unknown_calls = {}
        self.fns_seen = set()
        from . import models
        self.models = models
        self.unroll = 20
        models.SYM[0] = self

    # ------------------------------------------------------------ bodies
    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            j = self.dump["bodies"].get(key)
            if j is None:
                return None
            b = self.bodies[key] = Body(key, j, self.dump)
        return b

    def event(self, kind, **kw):
        if not self.quiet:
            kw["kind"] = kind
            kw["stack"] = [f.body.j["path"] for f in self.stack]
            self.events.append(kw)

    # ------------------------------------------------------------ symbolic values from types
    def fresh(self, ty, name, tyargs=None, unit=False, idx=()):
        """symbolic value of a type; `name` is a string prefix for atoms"""
        k = ty.k
        if k == "float":
            return alg.var(name, idx=idx)
        if k in ("uint", "int"):
            return alg.var(name, nonneg=(k == "uint"), idx=idx, tag="n" if k == "uint" else None)
        if k == "bool":
            return alg.bvar(("var", name), idx)
        if k == "ref":
            return Ref(self.fresh(ty.sub(ty.j["e"]), name, idx=idx))
        if k == "tuple":
            return Agg("tuple", [self.fresh(ty.sub(e), "%s.%d" % (name, i), idx=idx) for i, e in enumerate(ty.j["es"])])
        if k == "array":
            try:
                n = int(ty.j["n"])
            except ValueError:
                n = None
            if n is not None:
                return arr([self.fresh(ty.sub(ty.j["e"]), "%s[%d]" % (name, i), idx=idx) for i in range(n)])
        if k == "slice":
            src = name
            return Lst([("a", T, src, self.fresh(ty.sub(ty.j["e"]), name + "[i]", idx=tuple(idx) + (src,)))])
        if k == "adt":
            p = ty.j["path"]
            s = self.shape(ty)
            if s is not None:
                r, c = s
                nm = "xyzw"
                es = []
                tag = "u" if p.endswith("unit::Unit") else "R" if p == "nalgebra::geometry::rotation::Rotation" else None
                for j in range(c):
                    for i in range(r):
                        if c == 1 and r <= 4:
                            es.append(alg.var("%s.%s" % (name, nm[i]), idx=idx, tag=tag))
                        elif c == 1:
                            es.append(alg.var("%s[%d]" % (name, i), idx=idx, tag=tag))
                        else:
                            es.append(alg.var("%s%d%d" % (name, i, j), idx=idx, tag=tag))
                if p == "nalgebra::geometry::rotation::Rotation" and r == 3:
                    self.declare_rot(es)
                if p.endswith("unit::Unit") and c == 1 and r == 3:
                    a = [next(iter(e.v.n.atoms())) for e in es]
                    if a[2] not in alg.SQ:
                        alg.declare_unit(*a)
                return Mat(r, c, es)
            if p == "nalgebra::geometry::isometry::Isometry":
                R = [alg.var("%s.R%d%d" % (name, i, j), idx=idx, tag="R") for j in range(3) for i in range(3)]
                self.declare_rot(R)
                return Agg("iso", [Mat(3, 3, R),
                                   Mat(3, 1, [alg.var("%s.t%s" % (name, c), idx=idx) for c in "xyz"])])
            if p == OPTION:
                return opt(alg.bvar(("some", name), idx), self.fresh(self.targ(ty, 0), name + "?", idx=idx))
            if p in ("core::slice::iter::Iter", "alloc::vec::Vec", "arrayvec::arrayvec::ArrayVec"):
                src = name
                return Lst([("a", T, src, self.fresh(self.targ(ty, 0), name + "[i]", idx=tuple(idx) + (src,)))])
            if p in self.adts:
                d, it = self.adts[p]
                if it["kind"] == "Struct":
                    fs = []
                    for f in it["variants"][0]["fields"]:
                        ft = Ty(d, f["tyid"])
                        if ft.k == "param":
                            ft = self.targ_named(ty, it, ft) or ft
                        fs.append(self.fresh(ft, "%s.%s" % (name, f["name"]), idx=idx))
                    return Agg(p, fs)
        return Opq(("var", name), ty)

    def declare_rot(self, es):
        from . import witness
        g = [next(iter(e.v.n.atoms())) for e in es]
        if g not in witness.ROT:
            witness.ROT.append(g)

    def targ(self, ty, i):
        a = [x for x in ty.j["args"] if not isinstance(x, dict)]
        return ty.sub(a[i])

    def targ_named(self, ty, it, ft):
        a = [x for x in ty.j["args"] if not isinstance(x, dict)]
        if len(a) == 1:
            return ty.sub(a[0])
        return None

    def dimof(self, ty):
        if ty.k == "adt" and ty.j["path"].endswith("dimension::Const"):
            a = ty.j["args"][0]
            try:
                return int(a["c"])
            except (ValueError, TypeError):
                return None
        return None

    def shape(self, ty):
        """(rows, cols) for nalgebra matrix-like types with static dims"""
        if ty.k == "ref":
            return self.shape(ty.sub(ty.j["e"]))
        if ty.k != "adt":
            return None
        p = ty.j["path"]
        a = ty.j["args"]
        if p == "nalgebra::base::matrix::Matrix":
            r, c = self.dimof(ty.sub(a[1])), self.dimof(ty.sub(a[2]))
            if r is None or c is None:
                return None
            return r, c
        if p == "nalgebra::base::unit::Unit":
            return self.shape(ty.sub(a[0]))
        if p == "nalgebra::geometry::point::OPoint":
            r = self.dimof(ty.sub(a[1]))
            return None if r is None else (r, 1)
        if p == "nalgebra::geometry::rotation::Rotation":
            try:
                n = int(a[1]["c"])
            except Exception:
                return None
            return n, n
        if p == "nalgebra::geometry::translation::Translation":
            try:
                n = int(a[1]["c"])
            except Exception:
                return None
            return n, 1
        return None

    def opaque(self, ty, key, deps=(), nonneg=False):
        """value of a type produced by an unmodelled but deterministic operation"""
        k = kid(key)
        ix = frozenset()
        for d in deps:
            ix |= idx_of_value(d)
        return self._opq(ty, k, (), ix, nonneg)

    def _opq(self, ty, k, path, ix, nonneg=False):
        if ty is None:
            return Opq(("el", k) + path)
        t = ty.k
        if t in ("float", "uint", "int"):
            return leaf(alg.ra(alg.atom(("el", k) + path, nonneg or t == "uint", ix)))
        if t == "bool":
            return alg.bvar(("el", k) + path, ix)
        if t == "tuple":
            return Agg("tuple", [self._opq(ty.sub(e), k, path + (i,), ix) for i, e in enumerate(ty.j["es"])])
        if t == "ref":
            return Ref(self._opq(ty.sub(ty.j["e"]), k, path, ix))
        if t == "array":
            try:
                n = int(ty.j["n"])
                return arr([self._opq(ty.sub(ty.j["e"]), k, path + (i,), ix) for i in range(n)])
            except ValueError:
                pass
        if t == "adt":
            p = ty.j["path"]
            s = self.shape(ty)
            if s is not None:
                return Mat(s[0], s[1], [leaf(alg.ra(alg.atom(("el", k) + path + (i, j), nonneg, ix))) for j in range(s[1]) for i in range(s[0])])
            if p == "nalgebra::geometry::isometry::Isometry":
                return Agg("iso", [Mat(3, 3, [leaf(alg.ra(alg.atom(("el", k) + path + ("R", i, j), False, ix))) for j in range(3) for i in range(3)]),
                                   Mat(3, 1, [leaf(alg.ra(alg.atom(("el", k) + path + ("t", i), False, ix))) for i in range(3)])])
            if p == OPTION:
                return opt(alg.bvar(("some", k) + path, ix), self._opq(self.targ(ty, 0), k, path + ("s",), ix))
            if p == RESULT:
                c = alg.bvar(("ok", k) + path, ix)
                return Enum(RESULT, ite(c, alg.ZERO, alg.ONE), {0: (self._opq(self.targ(ty, 0), k, path + ("ok",), ix),), 1: (self._opq(self.targ(ty, 1), k, path + ("err",), ix),)})
            if p in self.adts:
                d, it = self.adts[p]
                if it["kind"] == "Struct":
                    fs = []
                    for f in it["variants"][0]["fields"]:
                        ft = Ty(d, f["tyid"])
                        if ft.k == "param":
                            ft = self.targ_named(ty, it, ft) or ft
                        fs.append(self._opq(ft, k, path + (f["name"],), ix))
                    return Agg(p, fs)
        return Opq((k,) + path, ty)

    # ------------------------------------------------------------ places
    TRANSPARENT = ("nalgebra::base::unit::Unit", "nalgebra::geometry::point::OPoint", "nalgebra::geometry::rotation::Rotation",
                   "nalgebra::geometry::translation::Translation")

    def proj_get(self, st, fr, v, e):
        """value-level projection"""
        k = e[0]
        if isinstance(v, (MRef, MSel)) and k != "d":
            v = self.deref(st, v)
        if k == "d":
            return self.deref(st, v)
        if k == "f":
            bt = fr.dump["types"][e[3]]
            bp = bt.get("path", "")
            if isinstance(v, Mat):
                if bp in self.TRANSPARENT:
                    return v
                if bp.startswith("nalgebra::base::coordinates::"):
                    return v.e[e[1]]
                if bp in self.adts:   # newtype represented transparently? never
                    return v
                raise Unsupported("field of matrix %s" % bp)
            if isinstance(v, (Agg, Clo)):
                f = v.f if isinstance(v, Agg) else v.up
                return f[e[1]]
            if isinstance(v, Enum):
                raise Unsupported("field of enum without downcast")
            if isinstance(v, tuple) and v and v[0] == "dc":
                en, var = v[1], v[2]
                fs = en.payd().get(var)
                if fs is None or e[1] >= len(fs):
                    return self._opq(Ty(fr.dump, e[2]), kid(("badvariant", en, var, e[1])), (), frozenset())
                return fs[e[1]]
            if isinstance(v, Lst):   # Range fields etc.
                raise Unsupported("field of list")
            if isinstance(v, Opq):
                return self._opq(Ty(fr.dump, e[2]), kid(("field", v, e[1])), (), frozenset())
            raise Unsupported("field of %r" % (v,))
        if k == "dc":
            if isinstance(v, Enum):
                return ("dc", v, e[1])
            if isinstance(v, Opq):
                return Opq(("dc", v, e[1]))
            raise Unsupported("downcast %r" % (v,))
        if k in ("i", "ci"):
            if k == "i":
                idx = st.m[fr.cell(e[1])]
            else:
                idx = num(e[1]) if not e[3] else num(len(v.segs) - e[1])
            return self.index(st, v, idx)
        if k == "ss":
            if isinstance(v, Lst):
                n = len(v.segs)
                return Lst(v.segs[e[1]:(n - e[2] if e[3] else e[2])])
            raise Unsupported("subslice")
        if k == "mi":   # matrix element (internal): ('mi', i) column major
            return v.e[e[1]]
        if k == "mb":   # matrix block
            _, r0, c0, nr, nc = e
            return Mat(nr, nc, [v.at(r0 + i, c0 + j) for j in range(nc) for i in range(nr)])
        if k == "ix":
            return self.index(st, v, e[1])
        if k == "li":
            return v.segs[e[1]][2]
        if k == "pf":   # plain field
            return (v.f if isinstance(v, Agg) else v.up)[e[1]]
        if k == "some":
            return v.payd()[1][0]
        raise Unsupported("projection %s" % (e,))

    def proj_set(self, st, fr, v, path, new):
        if not path:
            return new
        e = path[0]
        rest = path[1:]
        k = e[0]
        if k == "f":
            bp = fr.dump["types"][e[3]].get("path", "") if fr else ""
            if isinstance(v, Mat) or v is None and False:
                if bp in self.TRANSPARENT:
                    return self.proj_set(st, fr, v, rest, new)
                if bp.startswith("nalgebra::base::coordinates::"):
                    es = list(v.e)
                    es[e[1]] = self.proj_set(st, fr, es[e[1]], rest, new)
                    return Mat(v.r, v.c, es)
            if isinstance(v, Agg):
                fs = list(v.f)
                fs[e[1]] = self.proj_set(st, fr, fs[e[1]], rest, new)
                return Agg(v.tag, fs)
            if isinstance(v, Clo):
                fs = list(v.up)
                fs[e[1]] = self.proj_set(st, fr, fs[e[1]], rest, new)
                return Clo(v.k, fs)
            if v is None:
                # initialising a struct field by field
                bt = fr.dump["types"][e[3]]
                n = len(bt.get("es", ())) if bt["k"] == "tuple" else (len(self.adts[bp][1]["variants"][0]["fields"]) if bp in self.adts else e[1] + 1)
                fs = [None] * n
                fs[e[1]] = self.proj_set(st, fr, None, rest, new)
                return Agg("tuple" if bt["k"] == "tuple" else bp, fs)
            raise Unsupported("field set on %r" % (v,))
        if k == "dc":
            f = rest[0]
            pay = v.payd() if isinstance(v, Enum) else {}
            fs = list(pay.get(e[1], ()))
            while len(fs) <= f[1]:
                fs.append(None)
            fs[f[1]] = self.proj_set(st, fr, fs[f[1]], rest[1:], new)
            pay[e[1]] = tuple(fs)
            return Enum(v.path, v.discr, pay)
        if k in ("i", "ci", "li"):
            if k == "i":
                idx = st.m[fr.cell(e[1])]
            else:
                idx = num(e[1])
            return self.index_set(st, v, idx, lambda old: self.proj_set(st, fr, old, rest, new))
        if k == "ix":
            return self.index_set(st, v, e[1], lambda old: self.proj_set(st, fr, old, rest, new))
        if k == "mi":
            es = list(v.e)
            es[e[1]] = self.proj_set(st, fr, es[e[1]], rest, new)
            return Mat(v.r, v.c, es)
        if k == "mb":
            _, r0, c0, nr, nc = e
            sub = Mat(nr, nc, [v.at(r0 + i, c0 + j) for j in range(nc) for i in range(nr)])
            sub = self.proj_set(st, fr, sub, rest, new)
            es = list(v.e)
            for j in range(nc):
                for i in range(nr):
                    es[(c0 + j) * v.r + r0 + i] = sub.at(i, j)
            return Mat(v.r, v.c, es)
        if k == "pf":
            fs = list(v.f if isinstance(v, Agg) else v.up)
            fs[e[1]] = self.proj_set(st, fr, fs[e[1]], rest, new)
            return Agg(v.tag, fs) if isinstance(v, Agg) else Clo(v.k, fs)
        if k == "some":
            return Enum(v.path, v.discr, {1: (self.proj_set(st, fr, v.payd()[1][0], rest, new),)})
        raise Unsupported("set projection %s" % (e,))

    def index(self, st, v, idx):
        if isinstance(v, Ref):
            v = v.v
        if isinstance(v, Mat):
            items = v.e
        elif isinstance(v, Lst):
            items = v.items()
            if items is None and idx.is_leaf() and idx.v.const() is not None:
                i = int(idx.v.const())
                if all(s[0] == "i" and s[1] is T for s in v.segs[:i + 1]) and i < len(v.segs):
                    return v.segs[i][2]
                pre = v.segs[:i]
                if all(s[0] == "i" and s[1] is T for s in pre):
                    s = v.segs[len(pre)] if len(pre) < len(v.segs) else None
                    if s is not None and s[0] == "a":
                        return self.first_of(s, i - len(pre))
            if items is None and len(v.segs) == 1 and v.segs[0][0] == "a":
                # element at a symbolic index of an abstract sequence
                s = v.segs[0]
                return self.first_of(s, idx)
        else:
            items = None
        if items is None:
            raise Unsupported("index into %r" % (type(v),))
        if idx.is_leaf():
            c = idx.v.const()
            if c is not None:
                if not (0 <= c < len(items)):
                    raise Diverge()
                return items[int(c)]
            return self.symsel(items, idx)
        # diagram over constants
        def build(n):
            if n.var is None:
                if n is alg.BOT:
                    return None
                if n.v.const() is None:
                    return self.symsel(items, n)
                c = int(n.v.const())
                return items[c] if 0 <= c < len(items) else None
            a, b = build(n.hi), build(n.lo)
            return vite(alg.node(n.var, T, F), a, b)
        return build(idx)

    def symsel(self, items, idx):
        """element of a concrete list at an unknown position: an opaque but consistent choice"""
        if not items:
            raise Diverge()
        if all(x == items[0] for x in items[1:]):
            return items[0]
        flat = [scalars(x) for x in items]
        n = len(flat[0])
        if any([p for p, _ in f] != [p for p, _ in flat[0]] for f in flat):
            raise Unsupported("choice among differently shaped values")
        ix = alg.idx_of_add(idx)
        for x in items:
            ix |= idx_of_value(x)
        it = iter(range(n))

        def pick(_):
            j = next(it)
            col = tuple(f[j][1] for f in flat)
            if all(x is col[0] for x in col):
                return col[0]
            if all(x is num(i) for i, x in enumerate(col)):
                return idx
            nn = all(alg.lt0(x) is F for x in col)
            key = ("sel", tuple(x.id for x in col), idx.id)
            SELDEF[key] = (col, idx)
            return leaf(alg.ra(alg.atom(key, nn, ix)))
        return vmap(pick, items[0])

    def first_of(self, seg, i):
        """the i-th element of an abstract segment as a specific (not generic) element"""
        src = seg[2]
        tag = "%s[%s]" % (src, alg.show(i) if isinstance(i, N) else i)
        return subst_src(seg[3], src, tag)

    def index_set(self, st, v, idx, f):
        if isinstance(v, Mat):
            items = list(v.e)
        elif isinstance(v, Lst):
            items = v.items()
            if items is None:
                raise Unsupported("indexed store into abstract sequence")
            items = list(items)
        else:
            raise Unsupported("indexed store into %r" % (v,))
        if idx.is_leaf() and idx.v.const() is not None:
            c = int(idx.v.const())
            if not (0 <= c < len(items)):
                raise Diverge()
            items[c] = f(items[c])
        else:
            for l in alg.leaves(idx):
                if not isinstance(l, Rat) or l.const() is None:
                    raise Unsupported("symbolic store index")
            for k in range(len(items)):
                c = alg.eq0(alg.sub(idx, num(k)))
                if c is not F:
                    items[k] = vite(c, f(items[k]), items[k])
        if isinstance(v, Mat):
            return Mat(v.r, v.c, items)
        return arr(items)

    def deref(self, st, v):
        if isinstance(v, Ref):
            return v.v
        if isinstance(v, MRef):
            x = st.m.get(v.cell)
            for fr, e in v.path:
                x = self.proj_get(st, fr, x, e)
            return x
        if isinstance(v, MSel):
            return vite(v.c, self.deref(st, v.a), self.deref(st, v.b))
        if isinstance(v, Opq):
            return Opq(("deref", v))
        return v   # Box-like / already value

    def strip(self, st, v):
        while isinstance(v, (Ref, MRef, MSel)):
            v = self.deref(st, v)
        return v

    def read_place(self, st, fr, p):
        v = st.m.get(fr.cell(p["l"]))
        for e in p["p"]:
            v = self.proj_get(st, fr, v, e)
        return v

    def place_ref(self, st, fr, p):
        """mutable reference to a place"""
        cell, path = fr.cell(p["l"]), []
        for e in p["p"]:
            if e[0] == "d":
                v = st.m.get(cell)
                for f2, e2 in path:
                    v = self.proj_get(st, f2, v, e2)
                if isinstance(v, MRef):
                    cell, path = v.cell, list(v.path)
                    continue
                if isinstance(v, MSel):
                    rest = p["p"][p["p"].index(e) + 1:]
                    def app(x):
                        if isinstance(x, MSel):
                            return MSel(x.c, app(x.a), app(x.b))
                        return MRef(x.cell, x.path + tuple((fr, self.fixidx(st, fr, y)) for y in rest))
                    return app(v)
                # a value behind a by-value box or shared ref: keep a private cell
                cell = ("tmp", id(v), len(st.m))
                st.m[cell] = self.deref(st, v)
                path = []
                continue
            path.append((fr, self.fixidx(st, fr, e)))
        return MRef(cell, path)

    def fixidx(self, st, fr, e):
        if e[0] == "i":
            return ("ix", st.m[fr.cell(e[1])])
        return tuple(e)

    def write_ref(self, st, ref, v):
        if isinstance(ref, MSel):
            for c, x in ((ref.c, ref.a), (bnot(ref.c), ref.b)):
                old = self.deref(st, x)
                self.write_ref(st, x, vite(c, v, old))
            return
        if isinstance(ref, MRef):
            if not ref.path:
                st.m[ref.cell] = v
                return
            base = st.m.get(ref.cell)
            fr = ref.path[0][0]
            st.m[ref.cell] = self._set_path(st, base, ref.path, v)
            return
        raise Unsupported("write through %r" % (ref,))

    def _set_path(self, st, v, path, new):
        if not path:
            return new
        fr, e = path[0]
        if e[0] == "dc":
            # pair with the following field
            f = path[1][1]
            pay = v.payd()
            fs = list(pay[e[1]])
            fs[f[1]] = self._set_path(st, fs[f[1]], path[2:], new)
            pay[e[1]] = tuple(fs)
            return Enum(v.path, v.discr, pay)
        sub = self.proj_get(st, fr, v, e) if len(path) > 1 else None
        if len(path) > 1 and isinstance(sub, MRef):
            raise Unsupported("nested mutable path")
        newsub = self._set_path(st, sub, path[1:], new) if len(path) > 1 else new
        return self.proj_set(st, fr, v, (e,), newsub)

    def write_place(self, st, fr, p, v):
        if not p["p"]:
            st.m[fr.cell(p["l"])] = v
            return
        if any(e[0] == "d" for e in p["p"]):
            r = self.place_ref(st, fr, p)
            self.write_ref(st, r, v)
            return
        c = fr.cell(p["l"])
        st.m[c] = self.proj_set(st, fr, st.m.get(c), [tuple(e) for e in p["p"]], v)

    # ------------------------------------------------------------ operands / rvalues
    def const(self, fr, c):
        ty = Ty(fr.dump, c["ty"])
        k = c.get("k")
        if k == "promoted":
            b = self.body(c["key"])
            if b is None:
                return Opq(("promoted", c["key"]), ty)
            return Ref(self.strip(None, self.eval_const_body(b)))
        if "ckey" in c:
            b = self.body(c["ckey"])
            if b is not None:
                return self.eval_const_body(b)
        if k == "scalar":
            bits = int(c["v"])
            if ty.k == "bool":
                return T if bits else F
            if ty.k == "float":
                f = struct.unpack("<d", struct.pack("<Q", bits))[0] if c["size"] == 8 else struct.unpack("<f", struct.pack("<I", bits))[0]
                return fconst(f)
            if ty.k == "int":
                n = c["size"] * 8
                if bits >= 1 << (n - 1):
                    bits -= 1 << n
                return num(bits)
            if ty.k == "uint" or ty.k == "char":
                return num(bits)
            if ty.k == "adt":
                s = self.shape(ty)
                if ty.j["enum"]:
                    return Enum(ty.j["path"], num(bits), {})
                if ty.j["path"] in self.adts and len(self.adts[ty.j["path"]][1]["variants"][0]["fields"]) == 1:
                    d, it = self.adts[ty.j["path"]]
                    cc = dict(c)
                    return Agg(ty.j["path"], [self.const_bytes(Ty(d, it["variants"][0]["fields"][0]["tyid"]), bits.to_bytes(c["size"], "little"))])
        if k == "str":
            return Ref(Str(c["v"]))
        if k == "mem":
            try:
                v = self.const_bytes(ty, bytes.fromhex(c["hex"]))
                if v is not None:
                    return v
            except Exception:
                pass
        if k == "zst":
            if ty.k == "fndef":
                return FnV(ty.j["callee"].get("rpath") or ty.j["callee"]["path"], ty.j["callee"])
            if ty.k == "closure":
                return Clo(ty.j["key"], ())
            if ty.k == "tuple":
                return UNIT
            if ty.k == "adt":
                return Agg(ty.j["path"], ())
        if "cv" in c:
            try:
                return num(int(c["cv"]))
            except ValueError:
                pass
        return self._opq(ty, kid(("const", c.get("name"), c.get("v"), c.get("hex"), c.get("cv"), ty.s)), (), frozenset())

    def const_bytes(self, ty, b):
        if ty.k == "float" and len(b) == 8:
            return fconst(struct.unpack("<d", b)[0])
        if ty.k in ("uint", "int"):
            return num(int.from_bytes(b, "little", signed=ty.k == "int"))
        if ty.k == "bool":
            return T if b[0] else F
        if ty.k == "array":
            n = int(ty.j["n"])
            s = len(b) // n if n else 0
            return arr([self.const_bytes(ty.sub(ty.j["e"]), b[i * s:(i + 1) * s]) for i in range(n)])
        s = self.shape(ty) if ty.k == "adt" else None
        if s is not None and len(b) == 8 * s[0] * s[1]:
            return Mat(s[0], s[1], [fconst(struct.unpack("<d", b[i * 8:i * 8 + 8])[0]) for i in range(s[0] * s[1])])
        return None

    def eval_const_body(self, b):
        fr = Frame(b)
        st = State({}, T)
        self.stack.append(fr)
        self.quiet += 1
        try:
            out = self.run(fr, st, 0, frozenset())
        finally:
            self.quiet -= 1
            self.stack.pop()
        if "ret" not in out:
            raise Unsupported("const body diverges")
        s = out["ret"]
        v = s.m.get(fr.cell(0))
        return self.snapshot(s, v)

    def snapshot(self, st, v):
        """turn mutable references to locals into shared snapshots (for promoteds)"""
        if isinstance(v, MRef):
            return Ref(self.deref(st, v))
        if isinstance(v, Ref):
            return Ref(self.snapshot(st, v.v))
        return v

    def operand(self, st, fr, o):
        k = o[0]
        if k in ("cp", "mv"):
            v = self.read_place(st, fr, o[1])
            if v is None:
                raise Unsupported("read of uninitialised place %s in %s" % (o[1], fr.body.key))
            return v
        if k == "c":
            return self.const(fr, o[1])
        if k == "rt":
            return F
        raise Unsupported("operand %s" % k)

    def rvalue(self, st, fr, rv, span=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k == "ref":
            if rv[1]:
                return self.place_ref(st, fr, rv[2])
            v = self.read_place(st, fr, rv[2])
            if isinstance(v, tuple):
                v = v[1]
            return Ref(v)
        if k == "rawptr":
            raise Unsupported("raw pointer")
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            try:
                n = int(rv[2])
            except ValueError:
                raise Unsupported("array repeat %s" % rv[2])
            return arr([v] * n)
        if k == "cast":
            v = self.operand(st, fr, rv[2])
            to, frm = Ty(fr.dump, rv[3]), Ty(fr.dump, rv[4])
            if rv[1].startswith("PointerCoercion"):
                return v
            if isinstance(v, N):
                if rv[1] in ("IntToFloat", "IntToInt", "FloatToFloat"):
                    if frm.k == "bool":
                        return ite(v, alg.ONE, alg.ZERO)
                    if rv[1] == "FloatToFloat" and to.s == "f32":
                        return alg.fn("as_f32", v)
                    if rv[1] == "IntToInt" and to.s != frm.s and not all(isinstance(l, Rat) and l.const() is not None for l in alg.leaves(v)):
                        w = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64}
                        if w.get(to.s, 64) < w.get(frm.s, 64):
                            return alg.fn("as_" + to.s, v)
                    return v
                if rv[1] == "FloatToInt":
                    return alg.fn("as_" + to.s, v, nonneg=to.k == "uint")
                return alg.fn("cast_" + to.s, v)
            if isinstance(v, Enum):
                return v.discr
            if to.k in ("ptr", "ref"):
                return v
            return self._opq(to, kid(("cast", v, to.s)), (), idx_of_value(v))
        if k == "bin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            ty = fr.dump["types"][rv[4]]
            return self.binop(rv[1], a, b, ty, span)
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ty = fr.dump["types"][rv[3]]
                if ty["k"] == "bool":
                    return bnot(a)
                return alg.fn("bitnot", a)
            if rv[1] == "Neg":
                return alg.neg(a)
            if rv[1] == "PtrMetadata":
                v = self.strip(st, a)
                if isinstance(v, Lst):
                    return self.length(v)
                if isinstance(v, Str):
                    return num(len(v.s.encode()))
                raise Unsupported("metadata")
            raise Unsupported("unop %s" % rv[1])
        if k == "discr":
            v = self.read_place(st, fr, rv[1])
            if isinstance(v, Enum):
                return v.discr
            if isinstance(v, Opq):
                return leaf(alg.ra(alg.atom(("discr", v))))
            raise Unsupported("discriminant of %r" % (v,))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in rv[2]]
            kk = rv[1]
            if kk == "array":
                return arr(ops)
            if kk == "tuple":
                return Agg("tuple", ops)
            if kk == "closure":
                ty = fr.dump["types"][rv[3]]
                return Clo(ty["key"], ops)
            if kk == "adt":
                path, var, _, is_enum = rv[3], rv[4], rv[5], rv[6]
                if is_enum:
                    return Enum(path, num(var), {var: tuple(ops)})
                return self.mk_struct(path, ops)
            raise Unsupported("aggregate %s" % kk)
        if k == "other" and "AddressOf" in rv[1]:
            raise Unsupported(rv[1])
        raise Unsupported("rvalue %s" % (rv[:2],))

    def mk_struct(self, path, ops):
        if path in self.TRANSPARENT and len(ops) == 1:
            return ops[0]
        if path == "nalgebra::geometry::isometry::Isometry":
            return Agg("iso", ops)
        return Agg(path, ops)

    def binop(self, op, a, b, ty, span=None):
        ov = op.endswith("WithOverflow")
        if ov:
            op = op[:-12]
        op = op.replace("Unchecked", "")
        isint = ty["k"] in ("uint", "int")
        if isinstance(a, Enum) and isinstance(b, Enum):
            a, b = a.discr, b.discr
        if not isinstance(a, N) or not isinstance(b, N):
            raise Unsupported("binop on %r %r" % (type(a), type(b)))
        if ty["k"] == "bool":
            r = {"BitAnd": lambda: band(a, b), "BitOr": lambda: bor(a, b), "BitXor": lambda: alg.bxor(a, b), "Eq": lambda: bnot(alg.bxor(a, b)),
                 "Ne": lambda: alg.bxor(a, b), "Lt": lambda: band(bnot(a), b), "Gt": lambda: band(a, bnot(b)),
                 "Le": lambda: bor(bnot(a), b), "Ge": lambda: bor(a, bnot(b))}.get(op)
            if r is None:
                raise Unsupported("bool op " + op)
            return r()
        if op == "Add":
            r = alg.add(a, b)
        elif op == "Sub":
            r = alg.sub(a, b)
        elif op == "Mul":
            r = alg.mul(a, b)
        elif op == "Div":
            if isint:
                r = alg.map2("idiv", lambda x, y: num(x.const() // y.const()) if x.const() is not None and y.const() else leaf(alg.ra(alg.atom(("fn", "idiv", x, y), True, alg.idx_of(x) | alg.idx_of(y)))), a, b)
            else:
                self.event("div", num=a, den=b, pc=self.cur_pc, span=span)
                r = alg.div(a, b)
        elif op == "Rem":
            r = alg.map2("rem", lambda x, y: num(x.const() % y.const()) if isint and x.const() is not None and y.const() else leaf(alg.ra(alg.atom(("fn", "rem", x, y), True, alg.idx_of(x) | alg.idx_of(y)))), a, b)
        elif op == "Eq":
            return alg.eq0(alg.sub(a, b))
        elif op == "Ne":
            return bnot(alg.eq0(alg.sub(a, b)))
        elif op == "Lt":
            return alg.lt(a, b)
        elif op == "Le":
            return alg.le(a, b)
        elif op == "Gt":
            return alg.lt(b, a)
        elif op == "Ge":
            return alg.le(b, a)
        elif op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
            def f(x, y):
                cx, cy = x.const(), y.const()
                if cx is not None and cy is not None and cx >= 0:
                    return num({"BitAnd": cx & cy, "BitOr": cx | cy, "BitXor": cx ^ cy, "Shl": cx << cy, "Shr": cx >> cy}[op])
                return leaf(alg.ra(alg.atom(("fn", op, x, y), True, alg.idx_of(x) | alg.idx_of(y))))
            r = alg.map2(op, f, a, b)
        elif op == "Cmp":
            lt, gt = alg.lt(a, b), alg.lt(b, a)
            return Enum("core::cmp::Ordering", ite(lt, num(-1), ite(gt, num(1), num(0))), {})
        else:
            raise Unsupported("binop " + op)
        if ov:
            # overflow flag: only decided where both sides are constants (size 64)
            def o(x):
                c = x.const()
                if c is None:
                    return alg.bvar(("ovf", x), alg.idx_of(x))
                return F if (0 <= c < 2 ** 64 or ty["k"] == "int" and -2 ** 63 <= c < 2 ** 63) else T
            return Agg("tuple", [r, alg.map1("ovf" + ty["k"], o, r)])
        return r

    def length(self, v):
        if isinstance(v, Mat):
            return num(len(v.e))
        n = alg.ZERO
        for s in v.segs:
            if s[0] == "i":
                n = alg.add(n, ite(s[1], alg.ONE, alg.ZERO))
            elif s[0] == "a":
                n = alg.add(n, alg.seqsum(s[2], ite(s[1], alg.ONE, alg.ZERO)))
            else:
                n = alg.add(n, leaf(alg.ra(alg.atom(("len",) + s, True))))
        return n

    # ------------------------------------------------------------ execution
    def merge_into(self, out, k, st, base_pc, cond=None):
        """merge state st into out[k]; cond selects the old state when given, else derived from path conditions"""
        old = out.get(k)
        if old is None:
            out[k] = st
            return
        c = alg.restrict(old.pc, base_pc) if cond is None else cond
        m = {}
        for cell in set(old.m) | set(st.m):
            a, b = old.m.get(cell), st.m.get(cell)
            if a is b:
                m[cell] = a
            else:
                m[cell] = vite(c, a, b)
        out[k] = State(m, bor(old.pc, st.pc))

    def run(self, fr, st, b, stops):
        """execute from block b until a block of stops or return; returns {block or 'ret': State}"""
        out = {}
        base = st.pc
        first = True
        body = fr.body
        guard = 0
        while True:
            if b in stops and not first:
                self.merge_into(out, b, st, base)
                return out
            first = False
            guard += 1
            if guard > 200000:
                raise Unsupported("too many steps")
            blk = body.blocks[b]
            self.cur_pc = st.pc
            for s in blk["s"]:
                if s[0] == "=":
                    v = self.rvalue(st, fr, s[2], s[3])
                    self.write_place(st, fr, s[1], v)
                elif s[0] == "sd":
                    v = self.read_place(st, fr, s[1])
                    raise Unsupported("set discriminant")
            t = blk["t"]
            k = t["k"]
            if k == "goto":
                b = t["t"]
                continue
            if k == "drop":
                b = t["t"]
                continue
            if k == "ret":
                self.merge_into(out, "ret", st, base)
                return out
            if k in ("unreach", "resume"):
                return out
            if k == "assert":
                c = self.operand(st, fr, t["c"])
                if not t["e"]:
                    c = bnot(c)
                bad = band(st.pc, bnot(c))
                if bad is not F:
                    self.event("assert", m=t["m"], cond=c, pc=st.pc, span=t["sp"], ops=[self.operand(st, fr, o) for o in t["mo"]])
                if c is F:
                    return out
                if not t["m"].startswith("overflow"):
                    st.pc = band(st.pc, c)
                b = t["t"]
                continue
            if k == "call":
                try:
                    nxt = self.do_call(fr, st, b, t, stops)
                except Diverge:
                    self.event("diverge", what=t["f"].get("rpath") or t["f"]["path"], pc=st.pc, span=t["sp"])
                    return out
                if nxt is None:
                    return out
                if isinstance(nxt, list):
                    # several successor states (loop exits): [(cond, state, block)]
                    J = body.ipdom(b)
                    hd = body.inner_loop(b)
                    if hd is not None:
                        L = body.loops()[hd]
                        J = body.ipdom(b)
                        while J is not None and J in L:
                            J = body.ipdom(J)
                    res = self.fork(fr, nxt, J, stops)
                    for s_, x in res.items():
                        if s_ != J:
                            self.merge_into(out, s_, x, base)
                    if J is None or J not in res:
                        return out
                    st = res[J]
                    if J == body.exit:
                        self.merge_into(out, "ret", st, base)
                        return out
                    b = J
                    first = b not in stops
                    if b in stops:
                        self.merge_into(out, b, st, base)
                        return out
                    continue
                b = nxt
                continue
            if k == "switch":
                d = self.operand(st, fr, t["d"])
                if isinstance(d, Enum):
                    d = d.discr
                if not isinstance(d, N):
                    d = leaf(alg.ra(alg.atom(("discr", d))))
                alts = []
                rest = T
                isb = all(isinstance(l, bool) for l in alg.leaves(d))
                for v, tb in t["ts"]:
                    if isb:
                        c = d if int(v) else bnot(d)
                    else:
                        iv = int(v)
                        c = alg.eq0(alg.sub(d, num(iv)))
                        if c is F and iv > 2 ** 62:
                            # negative discriminants (Ordering) are printed as unsigned
                            for w in (8, 16, 32, 64, 128):
                                if iv >= 2 ** (w - 1) and iv < 2 ** w:
                                    c2 = alg.eq0(alg.sub(d, num(iv - 2 ** w)))
                                    if c2 is not F:
                                        c = c2
                        elif c is F and iv == 255:
                            c = alg.eq0(alg.sub(d, num(-1)))
                    alts.append((band(rest, c), tb))
                    rest = band(rest, bnot(c))
                alts.append((rest, t["o"]))
                live = body.live()
                alive = []
                for c, tb in alts:
                    if band(st.pc, c) is F:
                        continue
                    if body.blocks[tb]["t"]["k"] == "unreach" and not body.blocks[tb]["s"]:
                        continue
                    alive.append((c, tb))
                if not alive:
                    return out
                if len(alive) == 1:
                    st.pc = band(st.pc, alive[0][0])
                    b = alive[0][1]
                    continue
                self.event("branch", cond=d, pc=st.pc, fn=body.j["path"], block=b)
                J = body.ipdom(b)
                res = self.fork(fr, [(c, st.copy(band(st.pc, c)), tb) for c, tb in alive], J, stops)
                for s_, x in res.items():
                    if s_ != J:
                        self.merge_into(out, s_, x, base)
                if J == body.exit:
                    return out
                if J is None or J not in res:
                    return out
                st = res[J]
                b = J
                if b in stops:
                    self.merge_into(out, b, st, base)
                    return out
                continue
            raise Unsupported("terminator %s" % k)

    def fork(self, fr, alts, J, stops):
        st2 = stops | ({J} if J is not None else set())
        res = {}
        done = F
        for c, s, tb in alts:
            if tb in st2:
                sub = {tb: s}
            elif tb == fr.body.exit:
                sub = {"ret": s}
            else:
                sub = self.run(fr, s, tb, st2)
            for k, x in sub.items():
                self.merge_into(res, k, x, None, cond=done) if k in res else res.__setitem__(k, x)
            done = bor(done, c)
        return res

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, b, t, stops):
        f = t["f"]
        args = [self.operand(st, fr, a) for a in t["a"]]
        name = self.fname(f)
        if name in ("core::iter::traits::iterator::Iterator::next", "core::iter::traits::double_ended::DoubleEndedIterator::next_back"):
            r = self.next_call(fr, st, b, t, args, stops)
            if r is not NotImplemented:
                return r
        try:
            v = self.call(st, f, args, fr, t)
        except Unsupported as e:
            if not hasattr(e, "where"):
                e.where = "%s at %s" % (fr.body.key, t["sp"])
            raise
        if t["t"] is None:
            return None
        if v is None:
            return None
        self.write_place(st, fr, t["d"], v)
        return t["t"]

    def fname(self, f):
        if f.get("trait"):
            return f["trait"] + "::" + f["path"].split("::")[-1]
        return f.get("rpath") or f["path"]

    def call(self, st, f, args, fr, t=None):
        """evaluate a call; returns the value or None when it diverges"""
        path = f["path"]
        if path == "<indirect>":
            fv = self.operand(st, fr, f["fop"])
            return self.call_value(st, fv, args)
        rp = f.get("rpath") or path
        name = self.fname(f)
        for h in (rp, name):
            hk = self.hooks.get(h)
            if hk is not None:
                r = hk(self, st, f, args, fr, t)
                if r is not NotImplemented:
                    return r
        if "ctor" in f:
            p = f["ctor"]
            if p in (OPTION, RESULT) or (p in self.adts and self.adts[p][1]["kind"] == "Enum"):
                return Enum(p, num(f["variant"]), {f["variant"]: tuple(args)})
            return self.mk_struct(p, args)
        m = self.models.lookup(name, rp)
        rty = Ty(fr.dump, t["dt"]) if t is not None else Ty(fr.dump, f["out"]) if "out" in f else None
        if m is not None:
            c = Call(self, st, f, args, fr, t, name, rty)
            r = m(c)
            if r is not NotImplemented:
                return r
        if f.get("key"):
            bd = self.body(f["key"])
            if bd is not None:
                return self.call_body(st, bd, args)
        c = Call(self, st, f, args, fr, t, name, rty)
        return self.unknown(c)

    def unknown(self, c):
        st = c.st
        vals = [self.strip(st, a) for a in c.args]
        self.unknown_calls[c.name] = self.unknown_calls.get(c.name, 0) + 1
        self.event("unknown", name=c.name, args=vals, pc=st.pc, span=c.t["sp"] if c.t else None)
        if c.t is not None and c.t["t"] is None:
            return None
        ix = frozenset()
        for v in vals:
            ix |= idx_of_value(v)
        tyargs = tuple(Ty(c.fr.dump, a).s if not isinstance(a, dict) else a["c"] for a in (c.f.get("rargs") or c.f["args"]))
        k = kid(("call", c.f.get("rpath") or c.name, tyargs if c.name.startswith("core::") else (), tuple(vals)))
        # arguments passed by mutable reference are clobbered
        for i, a in enumerate(c.args):
            if isinstance(a, (MRef, MSel)):
                old = self.deref(st, a)
                self.write_ref(st, a, vmap_new(old, k, i, ix))
        return self._opq(c.rty, k, (), ix)

    def call_body(self, st, bd, args):
        if len(self.stack) > 120:
            raise Unsupported("call depth")
        if any(f.body.key == bd.key for f in self.stack) and sum(f.body.key == bd.key for f in self.stack) > 8:
            raise Unsupported("recursion")
        self.fns_seen.add(bd.j["path"])
        fr = Frame(bd)
        j = bd.j
        s2 = State(st.m, st.pc)
        if j["spread"] is not None:
            n = j["spread"]
            tup = args[n - 1:]
            args = args[:n - 1] + [Agg("tuple", tup)]
        for i, a in enumerate(args):
            s2.m[fr.cell(i + 1)] = a
        self.stack.append(fr)
        try:
            out = self.run(fr, s2, 0, frozenset())
        except Unsupported as e:
            if not hasattr(e, "where"):
                e.where = bd.key
            raise
        finally:
            self.stack.pop()
        if "ret" not in out:
            return None
        s3 = out["ret"]
        v = s3.m.get(fr.cell(0), UNIT)
        # drop callee cells, keep the rest
        fid = fr.id
        st.m = {c: x for c, x in s3.m.items() if not (c[0] == fid)}
        st.pc = s3.pc
        self.cur_pc = st.pc
        return self.unlocal(s3, v, fid)

    def unlocal(self, st, v, fid):
        return v

    def call_value(self, st, fv, args):
        """call a closure / fn item value with a list of positional args"""
        fv0 = fv
        while isinstance(fv, (Ref, MRef, MSel)):
            inner = self.deref(st, fv)
            if isinstance(inner, (Ref, MRef, MSel)) or True:
                ref, fv = fv, inner
        if isinstance(fv, FnV):
            f = fv.callee
            fr = self.stack[-1] if self.stack else None
            return self.call_fnv(st, f, args)
        if isinstance(fv, Clo):
            bd = self.body(fv.k)
            if bd is None:
                raise Unsupported("closure body %s" % fv.k)
            if not bd.j["argc"]:
                raise Unsupported("closure argc")
            # first parameter: closure by value or by reference
            t0 = Ty(bd.dump, bd.j["locals"][1])
            if t0.k == "ref":
                if t0.j["mut"]:
                    if isinstance(fv0, MRef):
                        r = fv0
                        while isinstance(self.deref(st, r), MRef):
                            r = self.deref(st, r)
                        a0 = r
                    else:
                        cell = ("clo", Frame.cnt, len(st.m))
                        st.m[cell] = fv
                        a0 = MRef(cell)
                else:
                    a0 = Ref(fv)
            else:
                a0 = fv
            return self.call_body(st, bd, [a0] + list(args))
        if isinstance(fv, Opq):
            k = kid(("callopq", fv, tuple(self.strip(st, a) for a in args)))
            return Opq((k,))
        raise Unsupported("call of %r" % (fv,))

    def call_fnv(self, st, f, args):
        fr = self.stack[-1]
        if "ctor" in f:
            p = f["ctor"]
            if p in (OPTION, RESULT) or (p in self.adts and self.adts[p][1]["kind"] == "Enum"):
                return Enum(p, num(f["variant"]), {f["variant"]: tuple(args)})
            return self.mk_struct(p, args)
        return self.call(st, f, args, fr, None)

    # ------------------------------------------------------------ iterators
    def to_segs(self, st, v):
        """evaluate an iterator value into a list of segments"""
        return self.models.to_segs(self, st, v)

    def next_call(self, fr, st, b, t, args, stops):
        it = args[0]
        cur = self.deref(st, it)
        back = self.fname(t["f"]).endswith("next_back")
        # nested &mut iter
        while isinstance(cur, (MRef, MSel)):
            it = cur
            cur = self.deref(st, it)
        segs = self.to_segs(st, cur)
        if back:
            segs = [s for s in reversed(segs)]
        def wr(ss):
            self.write_ref(st, it, Lst(list(reversed(ss)) if back else ss, "it"))
        while True:
            # drop impossible items
            while segs and segs[0][0] == "i" and band(st.pc, segs[0][1]) is F:
                segs = segs[1:]
            if not segs:
                wr(segs)
                self.write_place(st, fr, t["d"], NONE)
                return t["t"]
            s = segs[0]
            if s[0] == "i":
                g = s[1]
                if band(st.pc, bnot(g)) is F:
                    wr(segs[1:])
                    self.write_place(st, fr, t["d"], Some(s[2]))
                    return t["t"]
                # guarded item: two continuations; the one that skips it asks again
                hd = fr.body.inner_loop(b)
                if hd is None:
                    # find first present item
                    v = NONE
                    rem = []
                    for x in reversed(segs):
                        if x[0] != "i":
                            raise Unsupported("next on mixed sequence")
                        v = vite(x[1], Some(x[2]), v)
                    wr([])
                    self.write_place(st, fr, t["d"], v)
                    return t["t"]
                s1 = st.copy(band(st.pc, g))
                s2 = st.copy(band(st.pc, bnot(g)))
                self.write_ref(s1, it, Lst(segs[1:], "it"))
                self.write_ref(s2, it, Lst(segs[1:], "it"))
                self.write_place(s1, fr, t["d"], Some(s[2]))
                # run the body for the present case back to the header, then join
                L = fr.body.loops()[hd]
                exits = {y for x in L for y in fr.body.succs[x] if y not in L}
                o = self.run(fr, s1, t["t"], stops | {hd} | exits)
                alts = []
                extra = []
                for k2, x in o.items():
                    if k2 == hd:
                        extra.append(x)
                    else:
                        alts.append((alg.restrict(x.pc, st.pc), x, fr.body.exit if k2 == "ret" else k2))
                # header state joined with the skipped state: both continue at hd
                if extra:
                    oo = {hd: extra[0]}
                    self.merge_into(oo, hd, s2, st.pc, cond=g)
                    ns = oo[hd]
                else:
                    ns = s2
                if not alts:
                    st.m, st.pc = ns.m, ns.pc
                    return hd if hd != b else self._redo(fr, st, b)
                alts.append((alg.restrict(ns.pc, st.pc), ns, hd))
                return alts
            if s[0] == "a":
                hd = fr.body.inner_loop(b)
                if hd is None:
                    if len(segs) == 1:
                        e = bvar_empty(s[2])
                        v = opt(band(s[1], bnot(e)), self.first_of(s, 0))
                        wr([("a", s[1], s[2] + "'", subst_src(s[3], s[2], s[2] + "'"))])
                        self.write_place(st, fr, t["d"], v)
                        return t["t"]
                    raise Unsupported("next on abstract sequence outside a loop")
                alts = self.abstract_loop(fr, st, b, t, hd, s, segs[1:], it, stops)
                segs = segs[1:]
                if alts:
                    # early exits
                    wr(segs)
                    main = st
                    if segs:
                        raise Unsupported("early exit from chained abstract sequence")
                    self.write_place(main, fr, t["d"], NONE)
                    return alts + [(T, main, t["t"])]
                continue
            raise Unsupported("next on %s" % (s[0],))

    def _redo(self, fr, st, b):
        return b

    def abstract_loop(self, fr, st, b, t, hd, seg, rest, it, stops):
        body = fr.body
        L = body.loops()[hd]
        exits = {y for x in L for y in body.succs[x] if y not in L} | {"ret"}
        src, g, elem = seg[2], seg[1], seg[3]
        self.loopdepth += 1
        lid = "μ%d" % self.loopdepth
        try:
            changed = {}
            itcell = it.cell if isinstance(it, MRef) else None

            def attempt(quiet):
                s = st.copy()
                mu = {}
                for cell in changed:
                    s.m[cell] = self.havoc(st.m[cell], changed[cell], (lid, fr.body.key, repr(cell[1:])), mu)
                self.write_ref(s, it, Lst([("busy",)], "it"))
                self.write_place(s, fr, t["d"], Some(elem))
                if quiet:
                    self.quiet += 1
                try:
                    o = self.run(fr, s.copy(), t["t"], frozenset(stops | {hd} | {x for x in exits if x != "ret"}))
                finally:
                    if quiet:
                        self.quiet -= 1
                return s, mu, o
            for _ in range(8):
                s0, mu, o = attempt(True)
                new = False
                end = o.get(hd)
                if end is not None:
                    for cell, v in st.m.items():
                        if cell == itcell:
                            continue
                        v2 = end.m.get(cell)
                        if v2 is not None and v is not None:
                            base = s0.m.get(cell) if cell in changed else v
                            ch = diff_paths(base, v2)
                            old = changed.get(cell, frozenset())
                            if ch - old:
                                # locals that are always rewritten before being read are harmless but kept havocked
                                changed[cell] = old | ch
                                new = True
                if not new:
                    break
            else:
                raise Unsupported("loop does not stabilise")
            nuk = len(self.unknown_calls)
            s0, mu, o = attempt(False)
            end = o.get(hd)
            rec = dict(fn=body.j["path"], src=src, header=hd, elem=elem, guard=g, cells=[], exits=[], pc=st.pc)
            final = {}
            gg = g
            # which mu scalars are really needed
            muset = set()
            for k_, n_ in mu.items():
                muset |= set(_muids(n_))
            steps = []
            if end is not None:
                for cell in changed:
                    steps.append((cell, st.m[cell], s0.m[cell], end.m.get(cell)))
            allkey = kid(("loop", src, g, tuple((i, z) for _, i, m_, z in steps if mentions_mu(z, muset)), tuple(m_ for _, i, m_, z in steps)))
            for cell, init, muv, step in steps:
                fin = self.close(init, muv, step, src, g, muset, allkey, (fr.body.key, repr(cell[1:])))
                final[cell] = fin
                nm = self.local_name(fr, cell)
                rec["cells"].append(dict(cell=cell, name=nm, init=init, mu=muv, step=step, final=fin))
            alts = []
            for k2, x in o.items():
                if k2 == hd:
                    continue
                # exit state: values of mu are those at the exiting iteration
                xc = alg.restrict(x.pc, st.pc)
                c2 = band(xc, g)
                if not (set_of_vars(c2) & muset) and not mentions_mu(c2, muset):
                    X = bnot(alg.seqall(src, bnot(c2)))
                else:
                    X = alg.bvar(("exit", allkey, kid(("exit", c2))))
                mp = {a: leaf(alg.ra(alg.atom(("muex", allkey, alg.ATOMS[a])))) for a in _all_mu_atoms(mu)}
                mb = {v: alg.bvar(("muex", allkey, alg.VARS[v])) for v in _all_mu_vars(mu)}
                s2 = State({}, band(st.pc, X))
                for cell, v in x.m.items():
                    if cell in st.m or cell[0] == fr.id:
                        s2.m[cell] = subst_value(v, mp, mb) if mentions_mu(v, muset) else v
                rec["exits"].append(dict(block=k2, cond=xc, X=X, state=x))
                alts.append((X, s2, body.exit if k2 == "ret" else k2))
            self.loops.append(rec) if not self.quiet else None
            for cell, v in final.items():
                st.m[cell] = v
            if end is None:
                pass
            if alts:
                anyx = bor(*[a[0] for a in alts])
                st.pc = band(st.pc, bnot(anyx))
                # make exits disjoint in order
                out = []
                acc = F
                for X, s2, bk in alts:
                    s2.pc = band(s2.pc, bnot(acc))
                    out.append((band(X, bnot(acc)), s2, bk))
                    acc = bor(acc, X)
                return out
            return []
        finally:
            self.loopdepth -= 1

    def local_name(self, fr, cell):
        if cell[0] == fr.id:
            for n, p in fr.body.j["names"]:
                if p["l"] == cell[1] and not p["p"]:
                    return n
            return "_%s" % (cell[1],)
        return repr(cell)

    def havoc(self, v, paths, key, mu):
        cnt = [0]

        def go(x, p):
            if isinstance(x, N):
                if any(q == p or q == ("*",) for q in paths):
                    ls = alg.leaves(x)
                    k = ("mu",) + key + (p,)
                    if all(isinstance(l, bool) for l in ls):
                        n = alg.bvar(k)
                    else:
                        n = leaf(alg.ra(alg.atom(k)))
                    mu[k] = n
                    return n
                return x
            if isinstance(x, Mat):
                return Mat(x.r, x.c, [go(e, p + ("e%d" % i,)) for i, e in enumerate(x.e)])
            if isinstance(x, Agg):
                return Agg(x.tag, [go(e, p + (i,)) for i, e in enumerate(x.f)])
            if isinstance(x, Enum):
                pay = {k: tuple(go(e, p + ("v%d.%d" % (k, i),)) for i, e in enumerate(fs)) for k, fs in x.pay}
                for q in paths:
                    if len(q) > len(p) and q[:len(p)] == p and isinstance(q[len(p)], tuple) and q[len(p)][0] == "newv":
                        # payload of a variant absent initially
                        _, kk, tmpl = q[len(p)]
                        pay[kk] = tuple(havoc_all(e, key + (p, "newv", kk, i), mu) for i, e in enumerate(tmpl))
                return Enum(x.path, go(x.discr, p + ("discr",)), pay)
            if isinstance(x, Ref):
                return Ref(go(x.v, p))
            if isinstance(x, Clo):
                return Clo(x.k, [go(e, p + (i,)) for i, e in enumerate(x.up)])
            if isinstance(x, Lst):
                if any(q[:len(p)] == p and len(q) > len(p) and q[len(p)] == "#len" for q in paths):
                    return Lst([("mu", kid(key + (p,)))], x.kind)
                segs = []
                for i, s in enumerate(x.segs):
                    if s[0] == "i":
                        segs.append(("i", s[1], go(s[2], p + (i,))))
                    else:
                        segs.append(s)
                return Lst(segs, x.kind)
            if isinstance(x, Opq):
                if any(q == p for q in paths):
                    return Opq(("mu",) + key + (p,), x.ty)
                return x
            return x
        return go(v, ())

    def close(self, init, mu, step, src, g, muset, allkey, ck):
        def leafclose(i, m, s, p):
            if s is m or (isinstance(i, N) and s is i and m is i):
                return i
            if m is i:
                # not havocked here: step must equal init
                return s if s is not i else i
            if all(isinstance(l, bool) for l in alg.leaves(m)):
                v = m.var
                s1 = restrict_var(s, v, True)
                s0 = restrict_var(s, v, False)
                if s0 is F and not mentions_mu(s1, muset):
                    return band(i, alg.seqall(src, bor(bnot(g), s1)))
                if s1 is T and not mentions_mu(s0, muset):
                    return bor(i, bnot(alg.seqall(src, bnot(band(g, s0)))))
                if s0 is s1 and not mentions_mu(s0, muset):
                    pass
                return alg.bvar(("loopv", allkey, ck, p))
            d = alg.sub(ite(g, s, m), m)
            if not mentions_mu(d, muset):
                return alg.add(i, alg.seqsum(src, d))
            return leaf(alg.ra(alg.atom(("loopv", allkey, ck, p), False, frozenset())))

        def go(i, m, s, p):
            if i is None or s is None:
                return s
            if isinstance(i, N) and isinstance(s, N):
                return leafclose(i, m, s, p)
            if isinstance(i, Mat) and isinstance(s, Mat) and (i.r, i.c) == (s.r, s.c):
                return Mat(i.r, i.c, [leafclose(a, b, c, p + (k,)) for k, (a, b, c) in enumerate(zip(i.e, m.e, s.e))])
            if isinstance(i, Agg) and isinstance(s, Agg) and len(i.f) == len(s.f):
                return Agg(i.tag, [go(a, b, c, p + (k,)) for k, (a, b, c) in enumerate(zip(i.f, m.f, s.f))])
            if isinstance(i, Clo) and isinstance(s, Clo):
                return Clo(i.k, [go(a, b, c, p + (k,)) for k, (a, b, c) in enumerate(zip(i.up, m.up, s.up))])
            if isinstance(i, Ref) and isinstance(s, Ref):
                return Ref(go(i.v, m.v, s.v, p))
            if isinstance(i, Enum) and isinstance(s, Enum):
                pi, pm, ps = i.payd(), m.payd(), s.payd()
                pay = {}
                for k in set(pi) | set(ps):
                    if k in pi and k in ps:
                        pay[k] = tuple(go(a, b, c, p + (k, x)) for x, (a, b, c) in enumerate(zip(pi[k], pm[k], ps[k])))
                    elif k in ps:
                        pay[k] = tuple(vmap(lambda n, x=x: loopscalar(n, allkey, ck + (p, k, x)), c) for x, c in enumerate(ps[k]))
                    else:
                        pay[k] = pi[k]
                return Enum(i.path, leafclose(i.discr, m.discr, s.discr, p + ("d",)), pay)
            if isinstance(i, Lst) and isinstance(s, Lst):
                if m.segs and m.segs[0][0] == "mu":
                    if s.segs and s.segs[0] == m.segs[0]:
                        extra = list(s.segs[1:])
                        if not any(mentions_mu(x[2] if x[0] == "i" else x[3], muset) or mentions_mu(x[1], muset) for x in extra) and len(extra) == 1:
                            x = extra[0]
                            if x[0] == "i":
                                return Lst(list(i.segs) + [("a", band(g, x[1]), src, x[2])], i.kind)
                    return Lst([("a", T, "loopv%s" % kid((allkey, ck, p)), Opq(("loopelem", allkey, ck, p)))], i.kind)
                if len(i.segs) == len(s.segs):
                    segs = []
                    for n, (a, b, c) in enumerate(zip(i.segs, m.segs, s.segs)):
                        if a[0] == "i" and c[0] == "i":
                            segs.append(("i", a[1], go(a[2], b[2], c[2], p + (n,))))
                        else:
                            segs.append(c)
                    return Lst(segs, i.kind)
            if i == s:
                return i
            if s == m:
                return i
            if isinstance(s, (MRef, MSel, FnV, Str)):
                return s
            return Opq(("loopv", allkey, ck, p))
        return go(init, mu, step, ())

    # ------------------------------------------------------------ entry
    def analyse(self, key, args, pc=T):
        bd = self.body(key)
        if bd is None:
            raise Unsupported("no body %s" % key)
        st = State({}, pc)
        d = bd.dump
        use = []
        for i, a in enumerate(args):
            # `&mut` arguments: the referent lives in a cell of its own
            tj = d["types"][bd.j["locals"][i + 1]]
            if isinstance(a, Ref) and tj.get("k") == "ref" and tj.get("mut"):
                cell = ("arg", i)
                st.m[cell] = a.v
                a = MRef(cell)
            use.append(a)
        v = self.call_body(st, bd, use)
        return v, st


class Call:
    __slots__ = ("ip", "st", "f", "args", "fr", "t", "name", "rty")

    def __init__(self, ip, st, f, args, fr, t, name, rty):
        self.ip, self.st, self.f, self.args, self.fr, self.t, self.name, self.rty = ip, st, f, args, fr, t, name, rty

    def v(self, i):
        return self.ip.strip(self.st, self.args[i])

    @property
    def span(self):
        return self.t["sp"] if self.t else None

    def targ(self, i):
        a = (self.f.get("rargs") or self.f["args"])[i]
        return a["c"] if isinstance(a, dict) else Ty(self.fr.dump, a)


def fconst(f):
    if f != f:
        return leaf(alg.NAN)
    if f in (float("inf"), float("-inf")):
        return leaf(alg.INF) if f > 0 else leaf(-alg.INF)
    return num(Fraction(f))


def bvar_empty(src):
    return alg.bvar(("empty", src))


def loopscalar(n, allkey, ck):
    ls = alg.leaves(n)
    if all(isinstance(l, bool) for l in ls):
        return alg.bvar(("loopv", allkey, ck, kid(n)))
    if all(isinstance(l, Rat) and l.const() is not None for l in ls) and len(ls) == 1:
        return n
    return leaf(alg.ra(alg.atom(("loopv", allkey, ck, kid(n)))))


def havoc_all(v, key, mu):
    c = [0]

    def f(n):
        c[0] += 1
        k = ("mu",) + key + (c[0],)
        ls = alg.leaves(n)
        r = alg.bvar(k) if all(isinstance(l, bool) for l in ls) else leaf(alg.ra(alg.atom(k)))
        mu[k] = r
        return r
    return vmap(f, v)


def vmap_new(v, k, i, ix):
    c = [0]

    def f(n):
        c[0] += 1
        if all(isinstance(l, bool) for l in alg.leaves(n)):
            return alg.bvar(("clob", k, i, c[0]), ix)
        return leaf(alg.ra(alg.atom(("clob", k, i, c[0]), False, ix)))
    if v is None:
        return None
    return vmap(f, v)


def diff_paths(a, b):
    """paths of scalars of `a` that differ in b"""
    out = set()

    def go(x, y, p):
        if x is y or x is None or y is None:
            return
        if isinstance(x, N) and isinstance(y, N):
            if x is not y:
                out.add(p)
            return
        if isinstance(x, Mat) and isinstance(y, Mat) and len(x.e) == len(y.e):
            for i, (u, v) in enumerate(zip(x.e, y.e)):
                go(u, v, p + ("e%d" % i,))
            return
        if isinstance(x, Agg) and isinstance(y, Agg) and len(x.f) == len(y.f):
            for i, (u, v) in enumerate(zip(x.f, y.f)):
                go(u, v, p + (i,))
            return
        if isinstance(x, Clo) and isinstance(y, Clo) and len(x.up) == len(y.up):
            for i, (u, v) in enumerate(zip(x.up, y.up)):
                go(u, v, p + (i,))
            return
        if isinstance(x, Ref) and isinstance(y, Ref):
            return go(x.v, y.v, p)
        if isinstance(x, Enum) and isinstance(y, Enum):
            if x.discr is not y.discr:
                out.add(p + ("discr",))
            px, py = x.payd(), y.payd()
            for k in py:
                if k in px:
                    for i, (u, v) in enumerate(zip(px[k], py[k])):
                        go(u, v, p + ("v%d.%d" % (k, i),))
                else:
                    out.add(p + (("newv", k, py[k]),))
            return
        if isinstance(x, Lst) and isinstance(y, Lst):
            if len(x.segs) != len(y.segs):
                out.add(p + ("#len",))
                return
            for i, (u, v) in enumerate(zip(x.segs, y.segs)):
                if u[0] != v[0]:
                    out.add(p + ("#len",))
                elif u[0] == "i":
                    go(u[2], v[2], p + (i,))
            return
        if x != y:
            out.add(p)
    go(a, b, ())
    return frozenset(out)


def restrict_var(n, v, val):
    if n.var is None or n.var > v:
        return n
    if n.var == v:
        return n.hi if val else n.lo
    return alg.node(n.var, restrict_var(n.hi, v, val), restrict_var(n.lo, v, val))


def _muids(n):
    s = set()
    for l in alg.leaves(n):
        if isinstance(l, Rat):
            s |= {("a", a) for a in l.atoms()}
    s |= {("v", v) for v in alg.bvars(n)}
    return s


def _all_mu_atoms(mu):
    return [x[1] for n in mu.values() for x in _muids(n) if x[0] == "a"]


def _all_mu_vars(mu):
    return [x[1] for n in mu.values() for x in _muids(n) if x[0] == "v"]


def set_of_vars(n):
    return {("v", v) for v in alg.bvars(n)}


_dep = {}


def atom_deps(a):
    """transitive atoms/vars an atom depends on"""
    r = _dep.get(a)
    if r is None:
        _dep[a] = frozenset([("a", a)])
        r = frozenset([("a", a)]) | key_deps(alg.ATOMS[a])
        _dep[a] = r
    return r


_vdep = {}


def var_deps(v):
    r = _vdep.get(v)
    if r is None:
        _vdep[v] = frozenset([("v", v)])
        r = frozenset([("v", v)]) | key_deps(alg.VARS[v])
        _vdep[v] = r
    return r


_kdep = {}


def key_deps(k):
    s = frozenset()
    if isinstance(k, tuple):
        if len(k) >= 2 and k[0] in ("el", "some", "ok", "clob", "loopv", "exit", "muex", "len") and isinstance(k[1], int):
            s |= kid_deps(k[1])
            return s
        for x in k:
            s |= key_deps(x)
    elif isinstance(k, Rat):
        for a in k.atoms():
            s |= atom_deps(a)
    elif isinstance(k, alg.Poly):
        for a in k.atoms():
            s |= atom_deps(a)
    elif isinstance(k, N):
        s |= n_deps(k)
    elif isinstance(k, V):
        for _, n in scalars(k):
            s |= n_deps(n)
        if isinstance(k, Opq):
            s |= key_deps(k.k)
    return s


def kid_deps(i):
    r = _kdep.get(i)
    if r is None:
        _kdep[i] = frozenset()
        r = key_deps(KEYL[i])
        _kdep[i] = r
    return r


_ndep = {}


def n_deps(n):
    r = _ndep.get(n.id)
    if r is None:
        r = frozenset()
        for l in alg.leaves(n):
            if isinstance(l, Rat):
                for a in l.atoms():
                    r |= atom_deps(a)
        for v in alg.bvars(n):
            r |= var_deps(v)
        _ndep[n.id] = r
    return r


def mentions_mu(v, muset):
    if not muset or v is None:
        return False
    if isinstance(v, N):
        return bool(n_deps(v) & muset)
    return bool(key_deps(v) & muset)


# ---------------------------------------------------------------- substitution
def subst_value(v, mp, mb):
    cache = {}
    return vmap(lambda n: subst(n, mp, mb, cache), v)


def subst(n, mp, mb=None, cache=None):
    """replace atoms (mp: atom id -> N) and boolean variables (mb: var id -> N) in a diagram"""
    mb = mb or {}
    if cache is None:
        cache = {}
    keys = frozenset([("a", a) for a in mp] + [("v", v) for v in mb])

    def dn(x):
        if not (n_deps(x) & keys):
            return x
        k = ("n", x.id)
        if k in cache:
            return cache[k]
        if x.var is None:
            r = drat(x.v)
        else:
            r = ite(dvar(x.var), dn(x.hi), dn(x.lo))
        cache[k] = r
        return r

    def dvar(v):
        if v in mb:
            return mb[v]
        if not (var_deps(v) & keys):
            return alg.node(v, T, F)
        k = ("v", v)
        if k in cache:
            return cache[k]
        kk = alg.VARS[v]
        if kk[0] == "pos":
            r = alg.gt0(dpoly(kk[1]))
        elif kk[0] == "neg":
            r = alg.lt0(dpoly(kk[1]))
        elif kk[0] == "nan":
            r = alg.isnan(drat(kk[1]))
        elif kk[0] == "fin":
            r = alg.isfin(drat(kk[1]))
        elif kk[0] == "all":
            r = alg.seqall(kk[1], dn(kk[2]))
        else:
            r = alg.bvar(dkey(kk), alg.VIDX[v])
        cache[k] = r
        return r

    def dkey(k):
        if isinstance(k, tuple):
            if len(k) >= 2 and k[0] in ("el", "some", "ok", "clob", "loopv", "exit", "muex", "len") and isinstance(k[1], int):
                return (k[0], dkid(k[1])) + k[2:]
            return tuple(dkey(x) for x in k)
        if isinstance(k, N):
            return dn(k)
        if isinstance(k, V):
            return vmap(dn, k)
        if isinstance(k, Rat):
            r = drat(k)
            return r.v if r.var is None else r
        return k

    def dkid(i):
        if not (kid_deps(i) & keys):
            return i
        k = ("k", i)
        if k in cache:
            return cache[k]
        r = kid(dkey(KEYL[i]))
        cache[k] = r
        return r

    def datom(a):
        if a in mp:
            return mp[a]
        if not (atom_deps(a) & keys):
            return leaf(alg.ra(a))
        k = ("a", a)
        if k in cache:
            return cache[k]
        kk = alg.ATOMS[a]
        if kk[0] == "sqrt":
            r = alg.sqrt(dpoly(kk[1]))
        elif kk[0] == "abs":
            r = alg.absv(dpoly(kk[1]))
        elif kk[0] == "fn":
            r = alg.fn(kk[1], *[drat(x) for x in kk[2:]], nonneg=a in alg.NONNEG)
        elif kk[0] == "sum":
            r = alg.seqsum(kk[1], dn(kk[2]))
        elif kk[0] == "let":
            r = drat(alg.LETDEF[a])
        else:
            r = leaf(alg.ra(alg.atom(dkey(kk), a in alg.NONNEG, alg.IDX[a])))
        cache[k] = r
        return r

    def dpoly(p):
        tot = alg.ZERO
        for m, c in p.t.items():
            free = tuple(x for x in m if not (atom_deps(x[0]) & keys))
            t = leaf(Rat(alg.Poly({free: c})))
            for a, e in m:
                if atom_deps(a) & keys:
                    av = datom(a)
                    for _ in range(e):
                        t = alg.mul(t, av)
            tot = alg.add(tot, t)
        return tot

    def drat(r):
        if not isinstance(r, Rat):
            return leaf(r)
        k = ("r", r)
        if k in cache:
            return cache[k]
        x = dpoly(r.n)
        for f, m in r.d:
            fv = dpoly(f)
            for _ in range(m):
                x = alg.div(x, fv)
        cache[k] = x
        return x
    return dn(n)


def subst_src(v, src, tag):
    """make the generic element of sequence src a specific one (named tag)"""
    from . import witness
    mp, mb = {}, {}
    # unit vectors and rotations among the elements stay what they are
    ren = {}

    def new_atom(a):
        k = alg.ATOMS[a]
        if a not in ren:
            ren[a] = alg.atom(("var", str(k[1]).replace(src + "[i]", tag)) + k[2:], a in alg.NONNEG, alg.IDX[a] - {src})
        return ren[a]
    for a, p in list(alg.SQ.items()):
        k = alg.ATOMS[a]
        if k[0] == "var" and src in alg.IDX[a] and a not in alg.SQRT:
            others = sorted(p.atoms())
            if len(others) == 2 and all(alg.ATOMS[o][0] == "var" for o in others):
                n = [new_atom(o) for o in others] + [new_atom(a)]
                if n[2] not in alg.SQ:
                    alg.declare_unit(*n)
    for g in list(witness.ROT):
        if src in alg.IDX[g[0]] and alg.ATOMS[g[0]][0] == "var":
            n = [new_atom(o) for o in g]
            if n not in witness.ROT:
                witness.ROT.append(n)
    for _, n in scalars(v):
        for x in n_deps(n):
            if x[0] == "a" and src in alg.IDX[x[1]]:
                k = alg.ATOMS[x[1]]
                if k[0] == "var":
                    a2 = alg.atom(("var", str(k[1]).replace(src + "[i]", tag)) + k[2:], x[1] in alg.NONNEG, alg.IDX[x[1]] - {src})
                    mp[x[1]] = leaf(alg.ra(a2))
                elif k[0] in ("idx",):
                    mp[x[1]] = leaf(alg.ra(alg.atom(("at", k, tag), True)))
            elif x[0] == "v" and src in alg.VIDX[x[1]]:
                k = alg.VARS[x[1]]
                if k[0] in ("var", "some"):
                    mb[x[1]] = alg.bvar((k[0], str(k[1]).replace(src + "[i]", tag)))
    return subst_value(v, mp, mb)

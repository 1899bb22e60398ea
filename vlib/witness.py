"""Refutation filter.  Two extracted formulas that are not equal in normal form are reported as different only when a
valuation of their symbols satisfies the path condition and separates them.  The formulas are evaluated, never the
program: symbols get values, square roots / sums / named intermediate results get theirs from their definitions, and
results of unmodelled operations are uninterpreted functions of their (evaluated) arguments."""
import random
import time
import mpmath
from mpmath import mpf
from fractions import Fraction
from . import alg
from .alg import N, Rat, Poly
from .values import *

from mpmath import libmp
mpmath.mp.dps = 40
EPS = mpf(10) ** -28
ROT = []        # lists of 9 atoms (column major) that form a rotation matrix


class Undef(Exception):
    pass


def is_uf_key(k):
    return k[0] not in ("var", "sqrt", "abs", "let", "sum", "count", "idx", "fn", "fnN", "len", "at")


LIBRARY = ("core::", "alloc::", "std::", "nalgebra::", "simba::", "num_traits::", "float_ord::", "ndarray::")


def standing(k):
    """1: the result of an operation that has no fixed meaning here (a call through a trait the user implements);
    2: the result of a library operation that the analyser merely has no model of, so that two different
    expressions of it may well be the same value and no difference may be concluded from it"""
    K = KEYL[k[1]] if len(k) > 1 and isinstance(k[1], int) and k[1] < len(KEYL) else None
    if isinstance(K, tuple) and K and K[0] == "call" and str(K[1]).lstrip("<&").startswith(LIBRARY):
        return 3
    return 1


HORNER = {}


def horner(terms):
    """a long polynomial as nested sums of powers: a number, or (atom, [(exponent, nested), ..])"""
    cnt = {}
    for m, _ in terms:
        for a, _ in m:
            cnt[a] = cnt.get(a, 0) + 1
    if not cnt:
        c = sum(c for _, c in terms)
        return libmp.from_int(c) if isinstance(c, int) else libmp.from_rational(c.numerator, c.denominator, 600)
    a = max(cnt, key=lambda x: (cnt[x], -x))
    by = {}
    for m, c in terms:
        e = 0
        for b, k in m:
            if b == a:
                e = k
        by.setdefault(e, []).append((tuple(z for z in m if z[0] != a), c))
    return a, [(e, horner(by[e])) for e in sorted(by)]


def _horner(h, vals, pw, prec):
    if not isinstance(h[1], list):
        return h
    a, parts = h
    t = libmp.fzero
    for e, q in parts:
        v = _horner(q, vals, pw, prec)
        if e:
            x = pw.get((a, e))
            if x is None:
                x = pw[a, e] = vals[a] if e == 1 else libmp.mpf_pow_int(vals[a], e, prec)
            v = libmp.mpf_mul(v, x, prec)
        t = libmp.mpf_add(t, v, prec)
    return t


class Val:
    def __init__(self, rng, mode, ranges=None):
        self.rng, self.mode = rng, mode
        self.base = {}
        self.cache = {}
        self.cond = {}
        self.uf = 0
        self.rot = {}
        self.ranges = ranges or {}
        self.salt = rng.random()
        self.len = {}
        for g in ROT:
            for a in g:
                self.rot[a] = g

    nans = ()
    nanpick = None
    fixed = {}
    picked = False

    # ---- sampling
    def draw(self, key, nonneg):
        r = random.Random(repr((self.salt, key)))
        m = self.mode
        if len(key[0]) > 2 and key[0][0] == "var" and key[0][2] == "n":
            # a count: a whole number
            return mpf(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 50, 101, 1000, 10007, 2 ** 20 + 1, 2 ** 33]) if m != "small" else r.choice([0, 1, 2]))
        if m == "nan":
            if key[0] in self.nans and r.random() < .3:
                return mpf("nan")
        if m == "ints":
            v = mpf(r.choice([-2, -1, -1, 0, 0, 1, 1, 2, 3]))
        elif m == "mixed":
            v = mpf(r.choice([0, 1, r.uniform(-2, 2), r.uniform(-2, 2)]))
        elif m == "small":
            v = mpf(r.uniform(-0.4, 0.4))
        elif m == "scaled":
            v = mpf(r.uniform(-2, 2)) * self.scale(key, r)
        else:
            v = mpf(r.uniform(-2, 2))
        return abs(v) if nonneg else v

    def scale(self, key, r):
        """orders of magnitude: one factor for all components of a vector, sometimes another for one of them"""
        k = key[0]
        name = str(k[1]) if k[0] == "var" else repr(k)
        g = random.Random(repr((self.salt, "scale", name.rsplit(".", 1)[0].split("[")[0] if "." in name else name.split("[")[0])))
        f = mpf(10) ** g.choice([0, 0, g.uniform(-12, 6), g.uniform(-12, 0), g.uniform(-5, 0)])
        return f * mpf(10) ** r.uniform(-12, 0) if r.random() < .12 else f

    def unitvec(self, key):
        """x and y of a unit vector, one component of which may be tiny"""
        v = self.base.get(("unit", key))
        if v is None:
            r = random.Random(repr((self.salt, "unit", key)))
            v = [mpf(r.uniform(-1, 1)) for _ in range(3)]
            for _ in range(r.choice([0, 1, 1, 2])):
                v[r.randrange(3)] *= mpf(10) ** r.choice([r.uniform(-12, 0), r.uniform(-4, 0)])
            n = mpmath.sqrt(sum(x * x for x in v))
            v = self.base[("unit", key)] = [x / n for x in v]
        return v

    def srclen(self, src):
        n = self.len.get(src)
        if n is None:
            r = self.ranges.get(src)
            n = 2
            if r is not None and r.is_leaf() and isinstance(r.v, Rat) and r.v.const() is not None and r.v.const() <= 60:
                n = int(r.v.const())
            self.len[src] = n
        return n

    def unitgroup(self, a):
        """third component of a declared unit vector"""
        p = alg.SQ.get(a)
        return p is not None and a not in alg.SQRT

    def atom(self, a, env):
        if a in self.fixed:
            return self.fixed[a]
        ix = alg.IDX[a]
        ck = (a, tuple(sorted((s, env.get(s, -1)) for s in ix))) if ix else (a, ())
        v = self.cache.get(ck)
        if v is None:
            uf, self.uf = self.uf, 0
            try:
                x = self._atom(a, env, ck[1])
            except Undef:
                x = None
            v = self.cache[ck] = (x, self.uf)
            self.uf = uf
        self.uf |= v[1]
        if v[0] is None:
            raise Undef()
        return v[0]

    def _atom(self, a, env, ek):
        k = alg.ATOMS[a]
        if a in self.rot:
            g = self.rot[a]
            R = self.rotation((g[0], ek))
            return R[g.index(a)]
        kind = k[0]
        if a in alg.SQRT:
            x = self.poly(alg.SQRT[a], env)
            if x < 0:
                if x > -EPS:
                    return mpf(0)
                raise Undef()
            return mpmath.sqrt(x)
        if self.unitgroup(a):
            x = self.poly(alg.SQ[a], env)
            if x < 0:
                raise Undef()
            s = 1 if random.Random(repr((self.salt, "s", a, ek))).random() < .5 else -1
            return s * mpmath.sqrt(x)
        if kind == "let":
            return self.rat(alg.LETDEF[a], env)
        if kind == "sum":
            t = mpf(0)
            for i in range(self.srclen(k[1])):
                e2 = dict(env)
                e2[k[1]] = i
                t += self.dd(k[2], e2)
            return t
        if kind == "count":
            return mpf(self.srclen(k[1]))
        if kind == "idx":
            return mpf(env.get(k[1], 0))
        if kind == "inf":
            return mpf("inf")
        if kind == "nan":
            return mpf("nan")
        if kind == "fn":
            xs = [self.rat(x, env) for x in k[2:]]
            return self.fn(k[1], xs, a in alg.NONNEG)
        if kind == "fnN":
            xs = [self.dd(x, env) for x in k[2:]]
            return self.fn(k[1], xs, a in alg.NONNEG)
        if kind == "sel":
            from .interp import SELDEF
            col, idx = SELDEF[k]
            i = self.dd(idx, env)
            if i == int(i) and 0 <= i < len(col):
                return self.dd(col[int(i)], env)
            raise Undef()
        if kind == "argmin":
            xs = [self.dd(x, env) for x in k[1]]
            return mpf(min(range(len(xs)), key=lambda i: xs[i]))
        if kind == "perm":
            rev, keys = alg_key(k[1])[1:]
            xs = [self.dd(x, env) for x in keys]
            o = sorted(range(len(xs)), key=lambda i: xs[i], reverse=rev)
            return mpf(o[k[2]])
        if kind == "var":
            u = self._inunit(a) if self.mode == "scaled" else None
            if u:
                return self.unitvec((u[0], ek))[sorted(u[1]).index(a)]
            v = self.draw((k, ek), a in alg.NONNEG)
            if self._inunit(a) and abs(v) > 0.7:
                v = v / 3 if self.mode != "ints" else mpf(0)
            return v
        if kind == "el" and isinstance(k[1], int):
            K = KEYL[k[1]]
            if isinstance(K, tuple) and K[0] in INTERPRETED:
                return self.interpreted(K, env, ek)[k[2:]]
        # results of operations without a model: uninterpreted
        self.uf |= standing(k)
        return self.draw(("uf", self.sig(k, env)), a in alg.NONNEG)

    # ---- operations with a mathematical meaning
    def mat(self, v, env):
        return mpmath.matrix([[self.dd(v.at(i, j), env) for j in range(v.c)] for i in range(v.r)])

    def interpreted(self, K, env, ek):
        ms = tuple(self.mat(v, env) for v in K[1:])
        for m in ms:
            for x in m:
                if not mpmath.isfinite(x):
                    if NANSOLVER[0]:
                        return AllNan()
                    raise Undef()
        sig = (K[0],) + tuple(tuple(mpmath.nstr(x, 18) for x in m) for m in ms)
        r = self.base.get(sig)
        if r is None:
            r = INTERPRETED[K[0]](random.Random(repr((self.salt, K[0].replace("svdu", "svd")))), *ms)
            same = lambda a: a[0] == "el" and a[1][0].replace("svdu", "svd") == K[0].replace("svdu", "svd") and a[1][1:] == K[1:]
            if self.mode == "nan" and any(same(a) for a in self.nans):
                # the same result of the same decomposition is NaN in whatever order its parts are asked for
                pr = random.Random(repr((self.salt, "nan"))).choice([.1, .25, .5])
                o = r.get("order")
                ident = lambda k: k if o is None else ("s", o[k[1]]) if k[0] == "s" else ("u", k[1], o[k[2]]) if k[0] == "u" else ("vt", o[k[1]], k[2])
                r = {k: mpf("nan") if k != "order" and (NANSOLVER[0] or k[0] != "val" and k[0] != "s") and
                     random.Random(repr((self.salt, "nan", ident(k)))).random() < pr else x for k, x in r.items()}
            self.base[sig] = r
        return r

    _units = None

    def _inunit(self, a):
        s = Val._units
        if s is None or s[0] != len(alg.SQ):
            t = {}
            for b, p in alg.SQ.items():
                if b not in alg.SQRT:
                    for x in p.atoms():
                        t[x] = (b, p.atoms())
            Val._units = s = (len(alg.SQ), t)
        return s[1].get(a)

    def rotation(self, key):
        R = self.base.get(("rot", key))
        if R is None:
            r = random.Random(repr((self.salt, "rot", key)))
            if self.mode == "ints" and r.random() < .5:
                q = r.choice([[1, 0, 0, 0], [0, 1, 0, 0], [1, 1, 0, 0], [1, 0, 0, 1]])
            elif self.mode == "small":
                q = [1] + [r.uniform(-.2, .2) for _ in range(3)]
            elif self.mode == "scaled":
                q = [r.uniform(-1, 1) for _ in range(4)]
                f = mpf(10) ** r.uniform(-12, 0)
                h = r.choice([0, 1, 2])
                q = [q[0] * f] + q[1:] if h == 0 else [q[0]] + [x * f for x in q[1:]] if h == 1 else q
            else:
                q = [r.uniform(-1, 1) for _ in range(4)]
            q = [mpf(x) for x in q]
            n = mpmath.sqrt(sum(x * x for x in q))
            w, x, y, z = [t / n for t in q]
            M = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                 [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
            R = [M[i][j] for j in range(3) for i in range(3)]
            self.base[("rot", key)] = R
        return R

    FN = dict(sin=mpmath.sin, cos=mpmath.cos, tan=mpmath.tan, acos=mpmath.acos, asin=mpmath.asin, atan=mpmath.atan,
              exp=mpmath.exp, ln=mpmath.log, cbrt=mpmath.cbrt, floor=mpmath.floor, ceil=mpmath.ceil)

    def fn(self, name, xs, nonneg):
        n = name.split("::")[-1]
        if n in self.FN and len(xs) == 1:
            try:
                v = self.FN[n](xs[0])
            except (ValueError, ZeroDivisionError):
                raise Undef()
            if not isinstance(v, mpf):
                raise Undef()
            return v
        if n in ("idiv", "rem") and len(xs) == 2 and all(x == int(x) for x in xs) and xs[1] != 0:
            q = int(xs[0]) // int(xs[1]) if xs[0] * xs[1] >= 0 else -(-int(xs[0]) // int(xs[1]))
            return mpf(q) if n == "idiv" else mpf(int(xs[0]) - q * int(xs[1]))
        if n == "atan2" and len(xs) == 2:
            return mpmath.atan2(xs[0], xs[1])
        self.uf |= 1
        return self.draw(("fn", name, tuple(mpmath.nstr(x, 18) for x in xs)), nonneg)

    def sig(self, k, env):
        """signature of an opaque key: structure with evaluated scalars"""
        def go(x):
            if isinstance(x, N):
                v = self.dd(x, env)
                return v if isinstance(v, bool) else mpmath.nstr(v, 18) if isinstance(v, mpf) else repr(v)
            if isinstance(x, Rat):
                return mpmath.nstr(self.rat(x, env), 18)
            if isinstance(x, Poly):
                return mpmath.nstr(self.poly(x, env), 18)
            if isinstance(x, V):
                return (type(x).__name__, getattr(x, "tag", None), tuple(go(s) for _, s in scalars(x)), () if scalars(x) else hash(x))
            if isinstance(x, (tuple, list)):
                return tuple(go(y) for y in x)
            return repr(x)
        if k[0] in ("el", "some", "ok", "loopv", "mu", "perm", "cplx", "allreal", "okschur", "clob") and isinstance(k[1], int) and k[1] < len(KEYL):
            return (k[0], go(KEYL[k[1]])) + tuple(go(x) for x in k[2:])
        return tuple(go(x) for x in k)

    # ---- evaluation
    def poly(self, p, env):
        if len(p.t) > 40:
            h = HORNER.get(id(p))
            if h is None:
                h = HORNER[id(p)] = (p, horner(list(p.t.items())))
            vals = {a: self.atom(a, env) for a in p.atoms()}
            return mpmath.mp.make_mpf(_horner(h[1], {a: mpf(x)._mpf_ for a, x in vals.items()}, {}, mpmath.mp.prec + 20))
        t = mpf(0)
        for m, c in p.t.items():
            v = mpf(c) if isinstance(c, int) else mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.atom(a, env)
                v = v * (x if e == 1 else x ** e)
            t += v
        return t

    def rat(self, r, env):
        v = self.poly(r.n, env)
        for f, m in r.d:
            d = self.poly(f, env)
            if abs(d) < EPS:
                raise Undef()
            v = v / d ** m
        return v

    def bv(self, v, env):
        ix = alg.VIDX[v]
        ck = ("bv", v, tuple(sorted((s, env.get(s, -1)) for s in ix)) if ix else ())
        r = self.cond.get(ck)
        if r is None:
            uf, self.uf = self.uf, 0
            try:
                x = self._bv(v, env)
            except Undef:
                x = "undef"
            r = self.cond[ck] = (x, self.uf)
            self.uf = uf
        self.uf |= r[1]
        if r[0] == "undef":
            raise Undef()
        return r[0]

    def _bv(self, v, env):
        k = alg.VARS[v]
        kind = k[0]
        if kind in ("pos", "neg"):
            x = self.poly(k[1], env)
            if mpmath.isnan(x):
                # the direction of the comparison in the source is not known any more: the caller tries several outcomes
                if self.nanpick is None:
                    raise Undef()
                self.picked = True
                return self.nanpick if isinstance(self.nanpick, bool) else random.Random(repr((self.salt, self.nanpick, v))).random() < .5
            return x > EPS if kind == "pos" else x < -EPS
        if kind == "fin":
            # a quotient by zero is infinite or NaN whatever its numerator is
            for f, _ in k[1].d:
                if abs(self.poly(f, env)) < EPS:
                    return False
            return bool(mpmath.isfinite(self.rat(k[1], env)))
        if kind == "nan":
            return bool(mpmath.isnan(self.rat(k[1], env)))
        if kind == "empty":
            return self.srclen(k[1]) == 0
        if kind == "all":
            for i in range(self.srclen(k[1])):
                e2 = dict(env)
                e2[k[1]] = i
                if not self.dd(k[2], e2):
                    return False
            return True
        if kind == "shorter":
            return False
        if kind == "has":
            return self.srclen(k[1]) > k[2]
        ek = tuple(sorted((s, env.get(s, -1)) for s in alg.VIDX[v]))
        if kind in ("var", "some", "sym"):
            if kind == "some":
                self.uf |= standing(k) & 2
            return random.Random(repr((self.salt, "b", k if kind != "some" else self.sig(k, env), ek))).random() < .6
        if kind == "ok" and isinstance(k[1], int) and isinstance(KEYL[k[1]], tuple) and KEYL[k[1]][0] in INTERPRETED:
            return random.Random(repr((self.salt, "b", KEYL[k[1]][0].replace("svdu", "svd")))).random() < .7
        self.uf |= standing(k)
        return random.Random(repr((self.salt, "b", self.sig(k, env)))).random() < .7

    def dd(self, n, env=None):
        env = env or {}
        while n.var is not None:
            n = n.hi if self.bv(n.var, env) else n.lo
        if n is alg.BOT:
            raise Undef()
        if isinstance(n.v, Rat):
            return self.rat(n.v, env)
        return n.v


def _r_exp(rng, w):
    th = mpmath.sqrt(sum(x * x for x in w))
    K = mpmath.matrix([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if th < EPS:
        R = mpmath.eye(3) + K
    else:
        R = mpmath.eye(3) + K * (mpmath.sin(th) / th) + K * K * ((1 - mpmath.cos(th)) / th ** 2)
    return {(i, j): R[i, j] for i in range(3) for j in range(3)}


def _r_log(rng, R):
    c = (R[0, 0] + R[1, 1] + R[2, 2] - 1) / 2
    if c > 1 - mpf(10) ** -20 or c < -1 + mpf(10) ** -12:
        raise Undef()
    th = mpmath.acos(c)
    k = th / (2 * mpmath.sin(th))
    return {(0,): (R[2, 1] - R[1, 2]) * k, (1,): (R[0, 2] - R[2, 0]) * k, (2,): (R[1, 0] - R[0, 1]) * k}


def _r_nearest(rng, M):
    if mpmath.det(M) < mpf(10) ** -10:
        raise Undef()
    U, S, Vt = mpmath.svd_r(M)
    R = U * Vt
    return {(i, j): R[i, j] for i in range(3) for j in range(3)}


def _r_symeig(rng, M):
    n = M.rows
    A = mpmath.matrix(n, n)
    for i in range(n):
        for j in range(i + 1):
            A[i, j] = A[j, i] = M[i, j]        # lower triangle is what is read
    E, Q = mpmath.eigsy(A)
    for i in range(n - 1):
        if abs(E[i + 1] - E[i]) < mpf(10) ** -14 * (1 + abs(E[n - 1])):
            raise Undef()
    o = list(range(n))
    rng.shuffle(o)
    out = {}
    for p, i in enumerate(o):
        s = rng.choice([-1, 1])
        out[("val", p)] = E[i]
        for r in range(n):
            out[("vec", r, p)] = s * Q[r, i]
    return out


def _r_svd(rng, M, shuffle=False):
    U, S, Vt = mpmath.svd_r(M)
    n = len(S)
    for i in range(n - 1):
        if abs(S[i + 1] - S[i]) < mpf(10) ** -14 * (1 + S[0]):
            raise Undef()
    o = list(range(n))
    sg = [(rng.choice([-1, 1]), rng.choice([-1, 1])) for _ in o]
    if shuffle:
        rng.shuffle(o)
    out = {}
    for p, i in enumerate(o):
        s = sg[i][0]
        out[("s", p)] = S[i]
        s2 = s if S[i] > mpf(10) ** -20 else sg[i][1]
        for r in range(M.rows):
            out[("u", r, p)] = s * U[r, i]
        for r in range(M.cols):
            out[("vt", p, r)] = s2 * Vt[i, r]
    out["order"] = o
    return out


def _r_solve(rng, A, B):
    try:
        X = mpmath.lu_solve(A, B) if B.cols == 1 else mpmath.inverse(A) * B
    except (ZeroDivisionError, ValueError):
        raise Undef()
    return {(i, j): X[i, j] for i in range(X.rows) for j in range(X.cols)}


NANSOLVER = [False]     # decompositions of matrices with NaN or infinity may "converge" to NaN, as nalgebra's do


class AllNan(dict):
    def __missing__(self, k):
        return mpf("nan")


INTERPRETED = {"exp": _r_exp, "log": _r_log, "nearest_rotation": _r_nearest, "symeig": _r_symeig, "svd": _r_svd,
               "svdu": lambda r, m: _r_svd(r, m, True), "solve": _r_solve}


def alg_key(k):
    return KEYL[k] if isinstance(k, int) else k


def free_idx(*ns):
    s = frozenset()
    for n in ns:
        s |= alg.idx_of_add(n)
    return s


def differs(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return x is not y
    nx, ny = mpmath.isnan(x), mpmath.isnan(y)
    if nx or ny:
        return bool(nx) != bool(ny)
    if mpmath.isinf(x) or mpmath.isinf(y):
        return x != y
    return abs(x - y) > mpf(10) ** -18 * (1 + abs(x) + abs(y))


def nan_tested(*ns):
    """symbols whose being NaN (or not finite) is tested directly"""
    out = set()
    for n in ns:
        for v in alg.bvars(n):
            k = alg.VARS[v]
            if k[0] in ("nan", "fin"):
                r = k[1]
                for p in [r.n] + [f for f, _ in r.d]:
                    for a in p.atoms():
                        _vars_of(a, out)
    return out


def _vars_of(a, out):
    k = alg.ATOMS[a]
    if k[0] == "var":
        out.add(k)
    elif k[0] == "el" and isinstance(k[1], int) and isinstance(KEYL[k[1]], tuple) and KEYL[k[1]][0] in INTERPRETED:
        out.add(("el", KEYL[k[1]]))
    elif k[0] == "sel":
        from .interp import SELDEF
        for n in SELDEF[k][0]:
            for l in alg.leaves(n):
                if isinstance(l, alg.Rat):
                    for p in [l.n] + [f for f, _ in l.d]:
                        for b in p.atoms():
                            _vars_of(b, out)
    elif k[0] == "let":
        l = alg.LETDEF[a]
        for p in [l.n] + [f for f, _ in l.d]:
            for b in p.atoms():
                _vars_of(b, out)
    elif a in alg.SQRT:
        for b in alg.SQRT[a].atoms():
            _vars_of(b, out)


def refute(a, b, under=alg.T, seed=1, tries=60, uf=False, ranges=None, confirm=2, fix=None):
    """find a valuation with `under` true and a != b.  Returns (info or None, seen) where seen counts valid samples."""
    global EPS
    info, seen = _refute(a, b, under, seed, tries, uf, ranges, confirm, fix, ["gen", "gen", "mixed", "ints", "small"])
    if info is None and seen:
        # values of very different orders of magnitude, with more digits
        old = EPS
        try:
            EPS = mpf(10) ** -75
            with mpmath.workdps(110):
                info, s2 = _refute(a, b, under, seed + 1, tries * 2, uf, ranges, confirm, fix, ["scaled"])
            seen += s2
            if info is None and DIRECTED[0] > 0:
                t0 = time.process_time()
                with mpmath.workdps(60):
                    EPS = mpf(10) ** -40
                    info = _directed(a, b, under, seed + 2, uf, ranges, confirm, fix)
                DIRECTED[0] -= time.process_time() - t0
        finally:
            EPS = old
    return info, seen


DIRECTED = [150.0]      # seconds one run may spend on directed searches


def raw_atoms(polys):
    """plain symbols polynomials are made of"""
    out, todo, done = set(), list(polys), set()
    while todo:
        for a in todo.pop().atoms():
            if a in done:
                continue
            done.add(a)
            k = alg.ATOMS[a]
            if k[0] == "var":
                out.add(a)
            elif k[0] == "let":
                l = alg.LETDEF[a]
                todo += [l.n] + [f for f, _ in l.d]
            elif a in alg.SQRT:
                todo.append(alg.SQRT[a])
            elif k[0] == "fn":
                for x in k[2:]:
                    todo += [x.n] + [f for f, _ in x.d]
            elif k[0] == "fnN":
                for x in k[2:]:
                    todo += polys_in(x)
            elif k[0] == "el" and isinstance(k[1], int) and isinstance(KEYL[k[1]], tuple) and KEYL[k[1]][0] in INTERPRETED:
                for v in KEYL[k[1]][1:]:
                    for _, n in scalars(v):
                        todo += polys_in(n)
            elif k[0] == "sel":
                from .interp import SELDEF
                for n in list(SELDEF[k][0]) + [SELDEF[k][1]]:
                    todo += polys_in(n)
            elif k[0] == "argmin":
                for n in k[1]:
                    todo += polys_in(n)
    return out


def polys_in(n, conds=None):
    out = []
    for l in alg.leaves(n):
        if isinstance(l, Rat):
            out += [l.n] + [f for f, _ in l.d]
    for v in alg.bvars(n):
        if conds is not None:
            conds.add(v)
        k = alg.VARS[v]
        if k[0] in ("pos", "neg"):
            out.append(k[1])
        elif k[0] in ("nan", "fin"):
            out += [k[1].n] + [f for f, _ in k[1].d]
    return out


def nested_conds(*ns):
    """conditions of formulas and of the arguments of the decompositions they depend on"""
    conds, done, todo = set(), set(), []
    for n in ns:
        todo += polys_in(n, conds)
    while todo:
        for a in todo.pop().atoms():
            if a in done:
                continue
            done.add(a)
            k = alg.ATOMS[a]
            if k[0] == "let":
                l = alg.LETDEF[a]
                todo += [l.n] + [f for f, _ in l.d]
            elif a in alg.SQRT:
                todo.append(alg.SQRT[a])
            elif k[0] == "el" and isinstance(k[1], int) and isinstance(KEYL[k[1]], tuple) and KEYL[k[1]][0] in INTERPRETED:
                for v in KEYL[k[1]][1:]:
                    for _, n in scalars(v):
                        todo += polys_in(n, conds)
            elif k[0] == "sel":
                from .interp import SELDEF
                for n in list(SELDEF[k][0]) + [SELDEF[k][1]]:
                    todo += polys_in(n, conds)
            elif k[0] == "argmin":
                for n in k[1]:
                    todo += polys_in(n, conds)
    return conds


def _directed(a, b, under, seed, uf, ranges, confirm, fix):
    """conditions of the two formulas that came out the same way in every random sample: climb to a valuation where they do not"""
    env = {s: 0 for s in free_idx(a, b, under)}
    conds = [v for v in nested_conds(a, b) if alg.VARS[v][0] in ("pos", "neg")]
    if not conds or len(conds) > 120:
        return None
    rng = random.Random(seed)
    fix = {k: mpf(x) for k, x in (fix or {}).items()}
    base = []
    for i in range(24):
        v = Val(rng, ("gen", "small", "mixed")[i % 3], ranges)
        v.fixed = fix
        try:
            if under is not alg.T and not v.dd(under, env):
                continue
            v.dd(a, env)
            base.append(v)
        except (Undef, ZeroDivisionError, OverflowError, ValueError):
            continue
        if len(base) == 6:
            break
    if len(base) < 2:
        return None
    rare = []
    for c in conds:
        o = set()
        for v in base:
            try:
                o.add(v._bv(c, env))
            except (Undef, ZeroDivisionError, OverflowError, ValueError):
                pass
        if len(o) == 1:
            rare.append((c, o.pop()))
    hits = []
    for c, was in sorted(rare)[:16]:
        for i, v in enumerate(base):
            if i >= 3 and not hits:
                break
            x = _climb(v, c, was, env, fix)
            if x is None:
                continue
            v2 = Val(rng, v.mode, ranges)
            v2.salt, v2.fixed = v.salt, x
            try:
                if under is not alg.T and not v2.dd(under, env):
                    if not _between(v, v2, under, env, fix):
                        continue
                v2.uf = 0
                g, w = v2.dd(a, env), v2.dd(b, env)
            except (Undef, ZeroDivisionError, OverflowError, ValueError):
                continue
            if isinstance(g, str) or isinstance(w, str) or (v2.uf & 2) or (v2.uf and not uf):
                continue
            if differs(g, w) and stable(v2, a, b, g, w, under, env):
                hits.append((g, w, v2))
                if len(hits) >= min(confirm, 2):
                    return describe(hits[0])
    return None


def _between(v, v2, under, env, fix):
    """the last valuation on the way from v (where `under` holds) to v2 (where it does not) for which it still holds"""
    to = dict(v2.fixed)
    frm = {k: fix[k] if k in fix else v.atom(k, env) for k in to}
    lo, hi = mpf(0), mpf(1)

    def at(s):
        v2.fixed = {k: frm[k] + s * (to[k] - frm[k]) for k in to}
        v2.cache, v2.cond = {}, {}
        try:
            return v2.dd(under, env) is True
        except (Undef, ZeroDivisionError, OverflowError, ValueError):
            return False
    for _ in range(45):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if at(mid) else (lo, mid)
    return at(lo - (hi - lo) * 4) or at(lo)


def _climb(v, c, was, env, fix, budget=900):
    key = alg.VARS[c]
    p = key[1]
    up = (key[0] == "pos") != was            # make p positive?
    want_up = up if key[0] == "pos" else not up
    atoms = sorted(a for a in raw_atoms([p]) if a not in fix and not alg.IDX[a] and a not in v.rot and (len(alg.ATOMS[a]) < 3 or alg.ATOMS[a][2] != "n"))
    if not atoms or len(atoms) > 40:
        return None
    x = dict(fix)
    try:
        for a in atoms:
            x[a] = v.atom(a, env)
    except Undef:
        return None
    w = Val(random.Random(0), v.mode, v.ranges)
    w.salt, w.rot = v.salt, v.rot

    def score(x):
        w.fixed, w.cache, w.cond = x, {}, {}
        try:
            t = n = mpf(0)
            for m, co in p.t.items():
                y = mpf(co) if isinstance(co, int) else mpf(co.numerator) / co.denominator
                for a, e in m:
                    y *= w.atom(a, env) ** e
                t += y
                n += abs(y)
        except (Undef, ZeroDivisionError, OverflowError, ValueError):
            return None
        if not mpmath.isfinite(t) or n == 0:
            return None
        t = t / n
        return (t if want_up else -t), abs(t * n) > EPS * 100

    cur = score(x)
    if cur is None:
        return None
    step = {a: mpf(1) / 2 for a in atoms}
    n = 0
    while n < budget:
        moved = False
        for a in atoms:
            best = None
            for d in (step[a], -step[a]):
                y = dict(x)
                y[a] = x[a] + d * (abs(x[a]) if x[a] else 1)
                if a in alg.NONNEG and y[a] < 0:
                    continue
                s = score(y)
                n += 1
                if s is not None and s[0] > cur[0] and (best is None or s[0] > best[0][0]):
                    best = (s, y)
            if best:
                cur, x = best
                step[a] = min(step[a] * 2, mpf(4))
                moved = True
                if cur[0] > 0 and cur[1]:
                    return x
            else:
                step[a] /= 3
        if not moved and max(step.values()) < mpf(10) ** -14:
            return None
    return None


def _refute(a, b, under, seed, tries, uf, ranges, confirm, fix, modes):
    rng = random.Random(seed)
    seen = 0
    hits = []
    ix = free_idx(a, b, under)
    env = {s: 0 for s in ix}
    nans = nan_tested(a, b, under) if len(modes) > 1 else set()
    for i in range(tries + (tries if nans else 0)):
        v = Val(rng, modes[i % len(modes)] if i < tries else "nan", ranges)
        v.nans = nans
        v.fixed = {k: mpf(x) for k, x in (fix or {}).items()}
        picks = [None] if v.mode != "nan" else [False, True, 1, 2, 3, 4]
        out = []
        for pk in picks:
            v.nanpick, v.picked = pk, False
            v.cache, v.cond = {}, {}
            try:
                if under is not alg.T and not v.dd(under, env):
                    out.append(None)
                    break
                v.uf = 0
                x, y = v.dd(a, env), v.dd(b, env)
            except (Undef, ZeroDivisionError, OverflowError, ValueError):
                out.append(None)
                break
            if isinstance(x, str) or isinstance(y, str) or (v.uf & 2) or (v.uf and not uf):
                out.append(None)
                break
            out.append((x, y))
            if not v.picked or not differs(x, y):
                break
        if None in out:
            continue
        seen += 1
        x, y = out[-1]
        if differs(x, y) and stable(v, a, b, x, y, under, env):
            hits.append((x, y, v))
            if len(hits) >= confirm:
                break
    if not hits:
        return None, seen
    return describe(hits[0]), seen


def stable(v, a, b, x, y, under, env):
    """the same valuation worked out with three times as many digits gives the same two values: the difference is not one of
    cancelled digits"""
    global EPS
    w = Val(v.rng, v.mode, v.ranges)
    w.salt, w.rot, w.len, w.nans, w.nanpick, w.fixed = v.salt, v.rot, v.len, v.nans, v.nanpick, v.fixed
    old = EPS
    try:
        EPS = EPS ** 3
        with mpmath.workdps(mpmath.mp.dps * 3):
            if under is not alg.T and not w.dd(under, env):
                return False
            g, h = w.dd(a, env), w.dd(b, env)
    except (Undef, ZeroDivisionError, OverflowError, ValueError):
        return False
    finally:
        EPS = old
    for p, q in ((x, g), (y, h)):
        if isinstance(p, bool) or isinstance(q, bool):
            if p is not q:
                return False
        elif isinstance(q, str):
            return False
        elif mpmath.isnan(p) or mpmath.isnan(q):
            if bool(mpmath.isnan(p)) != bool(mpmath.isnan(q)):
                return False
        elif mpmath.isinf(p) or mpmath.isinf(q):
            if p != q:
                return False
        elif abs(p - q) > mpf(10) ** -9 * (abs(p) + abs(q)) and abs(p - q) > mpf(10) ** -25:
            return False
    return True


def describe(hit):
    x, y, v = hit
    names = {}
    for (a_, ek), (val, _) in v.cache.items():
        k = alg.ATOMS[a_]
        if k[0] == "var" and val is not None:
            names[str(k[1]) + ("" if not ek else "@%s" % (dict(ek),))] = mpmath.nstr(val, 8)
    for a_, val in v.fixed.items():
        names[str(alg.ATOMS[a_][1])] = mpmath.nstr(val, 20)
    return dict(got=str(x) if isinstance(x, bool) else mpmath.nstr(x, 12), want=str(y) if isinstance(y, bool) else mpmath.nstr(y, 12), at=names)

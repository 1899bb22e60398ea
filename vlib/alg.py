"""Algebraic value domain: polynomials, rational functions over interned atoms, and decision diagrams
(conditions x rational functions).  Everything is hash-consed, nothing is ever evaluated numerically."""
import heapq
from fractions import Fraction
from math import gcd, isqrt

# ---------------------------------------------------------------- atoms
ATOMS = []          # id -> key tuple
_ATOM = {}          # key -> id
SQ = {}             # atom id -> Poly (rewrite a^2 -> Poly)
NONNEG = set()      # atom ids known >= 0
SQRT = {}           # atom id -> Poly  (atoms that are square roots)
IDX = {}            # atom id -> frozenset of sequence sources the atom depends on


def atom(key, nonneg=False, idx=()):
    a = _ATOM.get(key)
    if a is None:
        a = len(ATOMS)
        ATOMS.append(key)
        _ATOM[key] = a
        if nonneg:
            NONNEG.add(a)
        IDX[a] = frozenset(idx)
    return a


def _norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("t", "_h", "_s")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._s = None

    def items(self):
        if self._s is None:
            self._s = tuple(sorted(self.t.items()))
        return self._s

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self.t == o.t)

    def is_zero(self):
        return not self.t

    def const(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _norm_c(v)
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return P0
        if k == 1:
            return self
        return Poly({m: _norm_c(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        if not self.t or not o.t:
            return P0
        c = self.const()
        if c is not None:
            return o.scale(c)
        c = o.const()
        if c is not None:
            return self.scale(c)
        a, b = (self.t, o.t) if len(self.t) <= len(o.t) else (o.t, self.t)
        if len(a) * len(b) > 4000000:
            raise TooBig("polynomial product %d x %d" % (len(a), len(b)))
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mmul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                r[m] = v
        r = {m: _norm_c(c) for m, c in r.items() if c != 0}
        if SQ:
            return _reduce(r)
        return Poly(r)

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def lead(self):
        m = max(self.t)
        return m, self.t[m]

    def __repr__(self):
        return show_poly(self)


class TooBig(Exception):
    pass


def _mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    if i < len(a):
        r.extend(a[i:])
    if j < len(b):
        r.extend(b[j:])
    return tuple(r)


def _reduce(t):
    """apply a^2 -> SQ[a]"""
    out = {}
    todo = []
    for m, c in t.items():
        for a, e in m:
            if e >= 2 and a in SQ:
                todo.append((m, c))
                break
        else:
            out[m] = c
    if not todo:
        return Poly(out)
    res = Poly(out)
    acc = {}
    for m, c in todo:
        rest = []
        fac = P1
        for a, e in m:
            if e >= 2 and a in SQ:
                for _ in range(e // 2):
                    fac = fac * SQ[a]
                if e % 2:
                    rest.append((a, 1))
            else:
                rest.append((a, e))
        rest = tuple(rest)
        for m2, c2 in fac.t.items():
            mm = _mmul(m2, rest)
            acc[mm] = acc.get(mm, 0) + c * c2
    acc = {m: _norm_c(c) for m, c in acc.items() if c != 0}
    return res + _reduce(acc)


P0 = Poly({})
P1 = Poly({(): 1})


def pconst(c):
    return Poly({(): _norm_c(c)}) if c != 0 else P0


def patom(a):
    return Poly({((a, 1),): 1})


def content(p):
    """positive rational content"""
    num = 0
    den = 1
    for c in p.t.values():
        f = Fraction(c)
        num = gcd(num, abs(f.numerator))
        den = den * f.denominator // gcd(den, f.denominator)
    return _norm_c(Fraction(num, den))


def mono_content(p):
    it = iter(p.t)
    m = dict(next(it))
    for k in it:
        d = dict(k)
        for a in list(m):
            if a in d:
                if d[a] < m[a]:
                    m[a] = d[a]
            else:
                del m[a]
        if not m:
            break
    return tuple(sorted(m.items()))


def mono_div(p, m):
    d = dict(m)
    r = {}
    for k, c in p.t.items():
        n = []
        for a, e in k:
            e2 = e - d.get(a, 0)
            if e2:
                n.append((a, e2))
        r[tuple(n)] = c
    return Poly(r)


def pdiv_exact(n, f):
    """n / f as an exact polynomial or None (free variables, no rewrite rules used in the quotient)"""
    if not n.t:
        return n
    c = f.const()
    if c is not None:
        return n.scale(Fraction(1, 1) / c)
    if not f.atoms() <= n.atoms():
        return None
    # main variable: the one of lowest degree in f
    deg = {}
    for m in f.t:
        for a, e in m:
            deg[a] = max(deg.get(a, 0), e)
    degn = {}
    for m in n.t:
        for a, e in m:
            degn[a] = max(degn.get(a, 0), e)
    for a, e in deg.items():
        if degn.get(a, 0) < e:
            return None
    if len(n.t) > 12 and not _maybe_divides(f, n, min(deg, key=lambda x: (deg[x], x))):
        return None
    lm, lc = _lead_gl(f)
    ld = dict(lm)
    q = {}
    r = dict(n.t)
    heap = [_hkey(m) for m in r]
    heapq.heapify(heap)
    steps = 0
    fl = [(m, c) for m, c in f.t.items() if m != lm]
    while heap:
        m = heapq.heappop(heap)[2]
        c = r.pop(m, 0)
        if c == 0:
            continue
        steps += 1
        if steps > 20000:
            return None
        md = dict(m)
        for a, e in ld.items():
            if md.get(a, 0) < e:
                return None
        for a, e in ld.items():
            md[a] -= e
            if md[a] == 0:
                del md[a]
        qm = tuple(sorted(md.items()))
        qc = _norm_c(Fraction(c) / lc) if lc != 1 else c
        q[qm] = qc
        for fm, fc in fl:
            mm = _mmul(fm, qm)
            o = r.get(mm)
            if o is None:
                r[mm] = _norm_c(-fc * qc)
                heapq.heappush(heap, _hkey(mm))
            else:
                r[mm] = _norm_c(o - fc * qc)
    return Poly(q)


_MP = (1 << 61) - 1
_rv = {}


def _rval(a):
    v = _rv.get(a)
    if v is None:
        v = _rv[a] = (a * 0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019) * 0xBF58476D1CE4E5B9 % _MP
    return v


def _uni(p, x):
    """image of p in (Z/P)[x] with every other atom sent to a fixed residue: a homomorphism, used only to refute divisibility"""
    out = {}
    for m, c in p.t.items():
        v = c % _MP if isinstance(c, int) else c.numerator * pow(c.denominator, -1, _MP) % _MP
        d = 0
        for a, e in m:
            if a == x:
                d = e
            else:
                r = _rval(a)
                v = v * (r if e == 1 else pow(r, e, _MP)) % _MP
        out[d] = (out.get(d, 0) + v) % _MP
    n = max(out)
    return [out.get(i, 0) for i in range(n + 1)]


def _maybe_divides(f, n, x):
    u, v = _uni(f, x), _uni(n, x)
    while u and u[-1] == 0:
        u.pop()
    if not u:
        return True
    iv = pow(u[-1], -1, _MP)
    du = len(u) - 1
    while len(v) - 1 >= du:
        c = v[-1] * iv % _MP
        if c:
            k = len(v) - 1 - du
            for i in range(du + 1):
                v[k + i] = (v[k + i] - c * u[i]) % _MP
        v.pop()
    return not any(v)


def _hkey(m):
    return (-sum(e for _, e in m), tuple((-a, -e) for a, e in reversed(m)) + ((1, 1),), m)


def _glkey(m):
    # graded lexicographic with larger atom id = larger variable
    return (sum(e for _, e in m), tuple(sorted(((a, e) for a, e in m), reverse=True)))


def _lead_gl(p):
    m = max(p.t, key=_glkey)
    return m, p.t[m]


# ---------------------------------------------------------------- rational functions
class Rat:
    __slots__ = ("n", "d", "_h")

    def __init__(self, n, d=()):
        self.n = n
        self.d = d  # tuple of (Poly, mult), sorted
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.n, self.d))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Rat) and self.n == o.n and self.d == o.d)

    def const(self):
        return None if self.d else self.n.const()

    def is_zero(self):
        return self.n.is_zero()

    def __add__(self, o):
        if self.n.is_zero():
            return o
        if o.n.is_zero():
            return self
        if self.d == o.d:
            return mkrat(self.n + o.n, self.d)
        da, db = dict(self.d), dict(o.d)
        l = dict(da)
        for f, m in db.items():
            l[f] = max(l.get(f, 0), m)
        na, nb = self.n, o.n
        for f, m in l.items():
            for _ in range(m - da.get(f, 0)):
                na = na * f
            for _ in range(m - db.get(f, 0)):
                nb = nb * f
        return mkrat(na + nb, _dsort(l))

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if self.n.is_zero() or o.n.is_zero():
            return R0
        if not self.d and not o.d:
            return Rat(self.n * o.n)
        d = dict(self.d)
        for f, m in o.d:
            d[f] = d.get(f, 0) + m
        # cross-cancel before multiplying
        na, nb = self.n, o.n
        for f in list(d):
            while d.get(f, 0):
                q = pdiv_exact(na, f)
                if q is not None:
                    na = q
                else:
                    q = pdiv_exact(nb, f)
                    if q is None:
                        break
                    nb = q
                d[f] -= 1
                if not d[f]:
                    del d[f]
        return mkrat(na * nb, _dsort(d))

    def inv(self):
        if self.n.is_zero():
            return INF
        n = P1
        for f, m in self.d:
            for _ in range(m):
                n = n * f
        k, fs = factors(self.n)
        n = n.scale(Fraction(1) / k)
        d = {}
        for f, m in fs:
            d[f] = d.get(f, 0) + m
        return mkrat(n, _dsort(d))

    def __truediv__(self, o):
        return self * o.inv()

    def eq(self, o):
        if self == o:
            return True
        return (self - o).is_zero()

    def atoms(self):
        s = self.n.atoms()
        for f, _ in self.d:
            s |= f.atoms()
        return s

    def __repr__(self):
        if not self.d:
            return show_poly(self.n)
        return "(%s)/(%s)" % (show_poly(self.n), "*".join(
            "(%s)%s" % (show_poly(f), "^%d" % m if m > 1 else "") for f, m in self.d))


def _dkey(fm):
    return (len(fm[0].t), fm[0].items())


def _skey(p):
    return tuple((m, str(c)) for m, c in p.items())


def _dsort(d):
    if len(d) <= 1:
        return tuple(d.items())
    return tuple(sorted(d.items(), key=lambda fm: (len(fm[0].t), _skey(fm[0]))))


def factors(p):
    """p = k * prod f^m with normalised factors (monomial content split off, primitive, positive lead)."""
    k = content(p)
    mc = mono_content(p)
    out = []
    q = p
    if mc:
        q = mono_div(p, mc)
        for a, e in mc:
            out.append((patom(a), e))
    if k != 1:
        q = q.scale(Fraction(1) / Fraction(k))
    _, lc = q.lead()
    if lc < 0:
        q = -q
        k = -k
    if q.const() is None:
        out.append((q, 1))
    else:
        k = k * q.const()
    return k, out


def mkrat(n, d):
    """normalise: remove square roots from denominators, cancel exact factors"""
    if n.is_zero():
        return R0
    if not d:
        return Rat(n)
    d = dict(d)
    changed = True
    guard = 0
    while changed:
        changed = False
        guard += 1
        if guard > 40:
            break
        for f in list(d):
            m = d.get(f, 0)
            if not m:
                continue
            # sqrt atoms in a denominator factor
            ra = [a for a in f.atoms() if a in SQRT]
            if ra:
                if len(f.t) == 1:
                    a = ra[0]
                    del d[f]
                    for _ in range(m):
                        n = n * patom(a)
                    k, fs = factors(SQ[a])
                    n = n.scale(Fraction(1) / Fraction(k) ** m)
                    for g, e in fs:
                        d[g] = d.get(g, 0) + e * m
                    changed = True
                    break
                if len(f.t) <= 24:
                    a = max(ra)
                    A = {}
                    B = {}
                    ok = True
                    for mm, c in f.t.items():
                        e = dict(mm).get(a, 0)
                        if e == 0:
                            A[mm] = c
                        elif e == 1:
                            B[tuple(x for x in mm if x[0] != a)] = c
                        else:
                            ok = False
                    if ok:
                        A, B = Poly(A), Poly(B)
                        conj = A - B * patom(a)
                        nd = A * A - B * B * SQ[a]
                        if not nd.is_zero():
                            del d[f]
                            for _ in range(m):
                                n = n * conj
                            k, fs = factors(nd)
                            n = n.scale(Fraction(1) / Fraction(k) ** m)
                            for g, e in fs:
                                d[g] = d.get(g, 0) + e * m
                            changed = True
                            break
        if n.is_zero():
            return R0
    for f in list(d):
        while d.get(f, 0):
            q = pdiv_exact(n, f)
            if q is None:
                break
            n = q
            d[f] -= 1
            if not d[f]:
                del d[f]
    # common monomial content with monomial factors is covered by the exact division above
    return Rat(n, _dsort(d))


R0 = Rat(P0)
R1 = Rat(P1)


def rc(c):
    return Rat(pconst(c))


def ra(a):
    return Rat(patom(a))


INF = ra(atom(("inf",), nonneg=True))
NAN = ra(atom(("nan",)))


SOS = {}            # the evidently nonnegative ones among them
NNP = {}            # primitive polynomials known >= 0 by construction (sums of squares)


def mark_nonneg(a):
    """the scalar is a sum of squares: remember the one factor whose sign is not evident"""
    for r in leaves(a):
        if not isinstance(r, Rat) or r.const() is not None:
            continue
        k, fs = factors(r.n)
        for f, m in fs:
            if 1 < len(f.t) <= 40 and poly_nonneg(f):
                SOS[f.scale(Fraction(1) / Fraction(content(f)))] = 1
        if rat_nonneg(r):
            continue
        unk = [f for f, m in list(fs) + list(r.d) if m % 2 and not poly_nonneg(f)]
        if len(unk) == 1:
            f = unk[0] if k > 0 else -unk[0]
            NNP[f.scale(Fraction(1) / Fraction(content(f)))] = 1


def poly_nonneg(p):
    """cheap sufficient test for p >= 0: every monomial has a positive coefficient and is a product of even powers / nonneg atoms"""
    if NNP and len(p.t) > 1 and p.scale(Fraction(1) / Fraction(content(p))) in NNP:
        return True
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if e % 2 and a not in NONNEG:
                return False
    return True


def rat_nonneg(r):
    if not poly_nonneg(r.n):
        # perhaps -n and odd negative denominators: ignore
        return False
    for f, m in r.d:
        if m % 2 and not poly_nonneg(f):
            return False
    return True


def rat_pos(r):
    c = r.const()
    if c is not None:
        return c > 0
    if not rat_nonneg(r):
        return False
    # strictly positive when there is a positive constant term
    return r.n.t.get((), 0) > 0


def rabs(r):
    c = r.const()
    if c is not None:
        return rc(abs(c))
    if rat_nonneg(r):
        return r
    k, fs = factors(r.n)
    out = rc(abs(k))
    for f, m in fs:
        out = out * _fabs(f, m)
    den = R1
    for f, m in r.d:
        den = den * _fabs(f, m)
    return out / den


def _fabs(f, m):
    res = R1
    for _ in range(m // 2):
        res = res * Rat(f * f)
    if m % 2:
        if poly_nonneg(f):
            res = res * Rat(f)
        else:
            key = ("abs", f)
            a = _ATOM.get(key)
            if a is None:
                a = atom(key, True, idx_of_poly(f))
                SQ[a] = f * f
                SQRT[a] = f * f
            res = res * ra(a)
    return res


def idx_of_poly(p):
    s = frozenset()
    for a in p.atoms():
        s |= IDX[a]
    return s


def idx_of(r):
    s = idx_of_poly(r.n)
    for f, _ in r.d:
        s |= idx_of_poly(f)
    return s


def rsqrt(r):
    """square root of a rational function (assumed >= 0)"""
    if r.n.is_zero():
        return R0
    out = R1
    n = r.n
    for f, m in r.d:
        # sqrt(N/f) = sqrt(N f)/|f|
        for _ in range(m // 2):
            out = out / _fabs(f, 1)
        if m % 2:
            n = n * f
            out = out / _fabs(f, 1)
    k, fs = factors(n)
    # numeric content
    kf = Fraction(k)
    sgn = 1 if kf > 0 else -1
    kn, kd = abs(kf.numerator), kf.denominator
    t = kn * kd
    s = 1
    # extract square part of t (small trial division)
    i = 2
    rem = t
    if isqrt(rem) ** 2 == rem:
        s = isqrt(rem)
        rem = 1
    else:
        while i * i <= rem and i < 2000:
            while rem % (i * i) == 0:
                rem //= i * i
                s *= i
            i += 1
    out = out * rc(Fraction(s, kd))
    p = pconst(sgn * rem)
    for f, m in fs:
        for _ in range(m // 2):
            out = out * _fabs(f, 1)
        if m % 2:
            p = p * f
    c = p.const()
    if c == 1:
        return out
    q = _poly_sqrt(p)
    if q is not None:
        return out * _fabs2(q)
    key = ("sqrt", p)
    a = _ATOM.get(key)
    if a is None:
        a = atom(key, True, idx_of_poly(p))
        SQ[a] = p
        SQRT[a] = p
    return out * ra(a)


def _fabs2(q):
    return rabs(Rat(q))


def _poly_sqrt(p):
    """exact square root of a polynomial of few terms, or None"""
    if len(p.t) < 3 or len(p.t) > 60:
        return None
    m, c = _lead_gl(p)
    if c < 0:
        return None
    f = Fraction(c)
    sn, sd = isqrt(f.numerator), isqrt(f.denominator)
    if sn * sn != f.numerator or sd * sd != f.denominator:
        return None
    if any(e % 2 for _, e in m):
        return None
    q = Poly({tuple((a, e // 2) for a, e in m): _norm_c(Fraction(sn, sd))})
    lm, lc = _lead_gl(q)
    r = p - q * q
    for _ in range(40):
        if r.is_zero():
            return q
        m, c = _lead_gl(r)
        d = dict(m)
        for a, e in lm:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        t = Poly({tuple(sorted(d.items())): _norm_c(Fraction(c) / (2 * lc))})
        if _glkey(next(iter(t.t))) >= _glkey(lm):
            return None
        q2 = q + t
        r = p - q2 * q2
        q = q2
    return None


def declare_unit(ax, ay, az):
    """az^2 -> 1 - ax^2 - ay^2"""
    SQ[az] = P1 - patom(ax) * patom(ax) - patom(ay) * patom(ay)


# ---------------------------------------------------------------- decision diagrams
class N:
    """leaf: var is None, v is the value; node: var (int), hi, lo"""
    __slots__ = ("var", "hi", "lo", "v", "id", "_size")

    def is_leaf(self):
        return self.var is None

    def __repr__(self):
        return show(self)


_LEAF = {}
_NODE = {}
_cnt = [0]
VARS = []   # var id -> key
_VAR = {}
VIDX = {}   # var id -> idx set
# variables live in a total order given by VORD (creation order)


def leaf(v):
    k = (type(v).__name__, v)
    n = _LEAF.get(k)
    if n is None:
        n = N()
        n.var = None
        n.v = v
        n.hi = n.lo = None
        n.id = _cnt[0]
        n._size = 1
        _cnt[0] += 1
        _LEAF[k] = n
    return n


def node(var, hi, lo):
    if hi is lo:
        return hi
    k = (var, hi.id, lo.id)
    n = _NODE.get(k)
    if n is None:
        n = N()
        n.var = var
        n.hi = hi
        n.lo = lo
        n.v = None
        n.id = _cnt[0]
        n._size = min(10 ** 9, hi._size + lo._size + 1)
        _cnt[0] += 1
        _NODE[k] = n
    return n


T = leaf(True)
F = leaf(False)
BOT = leaf("⊥")


def bvar(key, idx=()):
    v = _VAR.get(key)
    if v is None:
        v = len(VARS)
        VARS.append(key)
        _VAR[key] = v
        VIDX[v] = frozenset(idx)
    return node(v, T, F)


def num(c):
    return leaf(rc(c))


ZERO = num(0)
ONE = num(1)


def sc(r):
    return leaf(r)


def var(name, nonneg=False, idx=(), tag=None):
    """`tag` tells apart symbols of one name that stand for different kinds of quantity (an argument of another function)"""
    tag = tag or ("p" if nonneg else None)
    return leaf(ra(atom(("var", name, tag) if tag else ("var", name), nonneg, idx)))


_ite = {}


def ite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is not None:
        return r
    vs = [x.var for x in (c, a, b) if x.var is not None]
    v = min(vs)
    ch, cl = (c.hi, c.lo) if c.var == v else (c, c)
    ah, al = (a.hi, a.lo) if a.var == v else (a, a)
    bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
    hi, lo = ite(ch, ah, bh), ite(cl, al, bl)
    if hi is BOT:
        r = lo
    elif lo is BOT:
        r = hi
    else:
        r = node(v, hi, lo)
    _ite[k] = r
    return r


def bnot(a):
    return ite(a, F, T)


def band(*xs):
    r = T
    for x in xs:
        r = ite(r, x, F)
    return r


def bor(*xs):
    r = F
    for x in xs:
        r = ite(r, T, x)
    return r


def bxor(a, b):
    return ite(a, bnot(b), b)


_ap1 = {}
_ap2 = {}


def map1(op, f, a):
    """apply a leaf function (memo by op name)"""
    k = (op, a.id)
    r = _ap1.get(k)
    if r is None:
        if a.var is None:
            r = a if a is BOT else f(a.v)
        else:
            # f may return diagrams with variables smaller than a.var: recombine with ite
            r = ite(node(a.var, T, F), map1(op, f, a.hi), map1(op, f, a.lo))
        _ap1[k] = r
    return r


def map2(op, f, a, b):
    if a.var is None and b.var is None:
        if a is BOT or b is BOT:
            return BOT
        return f(a.v, b.v)
    k = (op, a.id, b.id)
    r = _ap2.get(k)
    if r is None:
        if a.var is not None and (b.var is None or a.var <= b.var):
            v = a.var
        else:
            v = b.var
        ah, al = (a.hi, a.lo) if a.var == v else (a, a)
        bh, bl = (b.hi, b.lo) if b.var == v else (b, b)
        r = ite(node(v, T, F), map2(op, f, ah, bh), map2(op, f, al, bl))
        if r._size > 200000:
            raise TooBig("decision diagram")
        _ap2[k] = r
    return r


# Large intermediate results are named: ("let", r) atoms stand for a normalised rational function.  Equal results are
# named equally, so structural equality is kept; algebra across a name is not (comparisons then stay undecided).
LETLIM = [600]
PRODLIM = [60000]
LETDEF = {}


def _sz(r):
    return len(r.n.t) + sum(len(f.t) for f, _ in r.d)


def rlet(r, lim=None):
    if _sz(r) <= (LETLIM[0] if lim is None else lim):
        return r
    k = content(r.n)
    _, lc = r.n.lead()
    if lc < 0:
        k = -k
    q = Rat(r.n.scale(Fraction(1) / Fraction(k)), r.d)
    key = ("let", q)
    a = _ATOM.get(key)
    if a is None:
        a = atom(key, rat_nonneg(q), idx_of(q))
        LETDEF[a] = q
    return Rat(patom(a).scale(k))


def _radd(x, y):
    if x.n.is_zero() or y.n.is_zero():
        return x + y
    if x.d != y.d:
        da, db = dict(x.d), dict(y.d)
        ca, cb = len(x.n.t), len(y.n.t)
        for f in set(da) | set(db):
            m = max(da.get(f, 0), db.get(f, 0))
            ca *= len(f.t) ** (m - da.get(f, 0))
            cb *= len(f.t) ** (m - db.get(f, 0))
        if ca > PRODLIM[0]:
            x = rlet(x, 8)
        if cb > PRODLIM[0]:
            y = rlet(y, 8)
        if ca > PRODLIM[0] or cb > PRODLIM[0]:
            da, db = dict(x.d), dict(y.d)
            for f in set(da) | set(db):
                if len(f.t) ** max(da.get(f, 0), db.get(f, 0)) > 2000:
                    return rlet(x, 4) + rlet(y, 4)
    return rlet(x + y)


def _rmul(x, y):
    if len(x.n.t) * len(y.n.t) > PRODLIM[0]:
        if len(x.n.t) >= len(y.n.t):
            x = rlet(x, 8)
        if len(x.n.t) * len(y.n.t) > PRODLIM[0] or len(y.n.t) > 300:
            y = rlet(y, 8)
    return rlet(x * y)


def _rdiv(x, y):
    if _sz(y) > 120:
        y = rlet(y, 8)
    k = 1
    for f, m in y.d:
        k *= len(f.t) ** m
    if k * len(x.n.t) > PRODLIM[0]:
        y = rlet(y, 4)
        if len(x.n.t) > 300:
            x = rlet(x, 8)
    return rlet(x * y.inv())


IEEE = [False]      # exact treatment of the special values 0, inf and NaN (symbols stand for finite numbers); set once, before any analysis


def special(op, x, y):
    """result of an operation one of whose operands is infinite or not a number, or that divides by zero (None: an ordinary one)"""
    if not IEEE[0]:
        return None
    if x == NAN or y == NAN:
        return NAN
    ix, iy = x in (INF, -INF), y in (INF, -INF)
    if op == "/" and y.is_zero():
        if x.is_zero():
            return NAN
        ix = ix or not x.const() is None
        return (-INF if (x == -INF or x.const() is not None and x.const() < 0) else INF) if ix or rat_nonneg(x) else None
    if not (ix or iy):
        return None
    if op == "+":
        return NAN if ix and iy and x != y else x if ix else y
    if op == "*":
        if x.is_zero() or y.is_zero():
            return NAN
        a, b = (x, y) if ix else (y, x)
        if b in (INF, -INF) or b.const() is not None or rat_nonneg(b):
            pos = b == INF or b.const() is not None and b.const() > 0 or b != -INF and b.const() is None
            return a if pos else -a
        return None
    if op == "/":
        if iy:
            return NAN if ix else R0
        c = y.const()
        if c is not None or rat_nonneg(y):
            return x if c is None or c > 0 else -x
    return None


def add(a, b):
    return map2("+", lambda x, y: leaf(special("+", x, y) or _radd(x, y)), a, b)


def sub(a, b):
    return map2("-", lambda x, y: leaf(special("+", x, -y) or _radd(x, -y)), a, b)


def mul(a, b):
    return map2("*", lambda x, y: leaf(special("*", x, y) or _rmul(x, y)), a, b)


def div(a, b):
    def f(x, y):
        z = special("/", x, y)
        if z is not None:
            return leaf(z)
        if y.is_zero():
            return leaf(NAN) if x.is_zero() else leaf(x * INF)
        return leaf(_rdiv(x, y))
    return map2("/", f, a, b)


def neg(a):
    return map1("neg", lambda x: leaf(-x), a)


def sqrt(a):
    return map1("sqrt", lambda x: leaf(rsqrt(rlet(x, 200))), a)


def absv(a):
    return map1("abs", lambda x: leaf(rabs(x)), a)


def _unroot(f):
    if len(f.t) == 1:
        (mono, c), = f.t.items()
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in SQRT and c > 0:
            q = SQRT[mono[0][0]]
            if poly_nonneg(q):
                return q.scale(Fraction(1) / Fraction(content(q)))
    return f


def _signpoly(r):
    """(sign, Poly) with r > 0 iff sign * Poly > 0 ; even and positive factors dropped"""
    k, fs = factors(r.n)
    s = 1 if k > 0 else -1
    fs = list(fs) + list(r.d)
    nn = [f for f, m in fs if m % 2 and not (poly_nonneg(f))]
    if not nn:
        # only nonnegative or even factors: keep them all (zero test); sqrt(x) is zero exactly when x is
        p = P1
        for f, m in fs:
            if f.const() is None:
                p = p * (_unroot(f) if m % 2 else f if poly_nonneg(f) else f * f)
        if not poly_nonneg(p):
            NNP[p.scale(Fraction(1) / Fraction(content(p)))] = 1
        return s, p
    p = P1
    for f in nn:
        p = p * f
    p = _drop_squares(p)
    k2 = content(p)
    p = p.scale(Fraction(1) / Fraction(k2))
    _, lc = p.lead()
    if lc < 0:
        p = -p
        s = -s
    return s, p


_dropped = {}


def _drop_squares(p):
    """divide by the known sums of squares that are factors of p"""
    if len(p.t) < 4 or len(p.t) > 3000 or not (NNP or SOS):
        return p
    r = _dropped.get(p)
    if r is not None and r[0] == len(NNP) + len(SOS):
        return r[1]
    q = p
    at = q.atoms()
    for f in sorted(list(SOS) + list(NNP), key=lambda f: len(f.t)):
        if len(f.t) * 2 > len(q.t) and f != q or not f.atoms() <= at:
            continue
        for _ in range(4):
            d = pdiv_exact(q, f)
            if d is None or d.const() is not None:
                break
            q = d
            at = q.atoms()
            if not f.atoms() <= at:
                break
    _dropped[p] = (len(NNP) + len(SOS), q)
    return q


_zone = {}


def _pos_leaf(r):
    c = r.const()
    if c is not None:
        return T if c > 0 else F
    if r == NAN:
        return F
    if IEEE[0] and r in (INF, -INF):
        return T if r == INF else F
    if rat_pos(r):
        return T
    if rat_nonneg(-r):
        return F
    s, p = _signpoly(r)
    c = p.const()
    if c is not None:
        return T if s * c > 0 else F
    A = bvar(("pos", p), idx_of_poly(p))
    if poly_nonneg(p):
        return A if s > 0 else F
    if s > 0:
        return A
    B = bvar(("neg", p), idx_of_poly(p))
    return ite(A, F, B)


def gt0(a):
    return map1("gt0", _pos_leaf, a)


def lt0(a):
    return gt0(neg(a))


def eq0(a):
    def f(r):
        if r.is_zero():
            return T
        c = r.const()
        if c is not None or r == NAN:
            return F
        return band(bnot(_pos_leaf(r)), bnot(_pos_leaf(-r)))
    return map1("eq0", f, a)


def lt(a, b):
    return gt0(sub(b, a))


def le(a, b):
    return bnot(gt0(sub(a, b)))


def _leafpred(name):
    def f(r):
        if not isinstance(r, Rat):
            return F
        if r.const() is not None:
            return T if name == "fin" else F
        if r == NAN:
            return T if name == "nan" else F
        if r == INF:
            return F
        k, fs = factors(r.n)
        r2 = Rat(r.n.scale(Fraction(1) / Fraction(k)), r.d)
        return bvar((name, r2), idx_of(r2))
    return f


def isnan(a):
    return map1("isnan", _leafpred("nan"), a)


def isfin(a):
    return map1("isfin", _leafpred("fin"), a)


def fn(name, *args, nonneg=False):
    """opaque deterministic function of scalars (pointwise on leaves)"""
    if len(args) == 1:
        return map1("fn:" + name, lambda x: leaf(ra(atom(("fn", name, x), nonneg, idx_of(x)))), args[0])
    if len(args) == 2:
        return map2("fn:" + name, lambda x, y: leaf(ra(atom(("fn", name, x, y), nonneg, idx_of(x) | idx_of(y)))), *args)
    ix = frozenset()
    for a in args:
        ix |= idx_of_add(a)
    return leaf(ra(atom(("fnN", name) + tuple(a for a in args), nonneg, ix)))


def leaves(a, seen=None, acc=None):
    if acc is None:
        acc, seen = [], set()
    if a.id in seen:
        return acc
    seen.add(a.id)
    if a.var is None:
        acc.append(a.v)
    else:
        leaves(a.hi, seen, acc)
        leaves(a.lo, seen, acc)
    return acc


def bvars(a, acc=None, seen=None):
    if acc is None:
        acc, seen = set(), set()
    if a.id in seen:
        return acc
    seen.add(a.id)
    if a.var is not None:
        acc.add(a.var)
        bvars(a.hi, acc, seen)
        bvars(a.lo, acc, seen)
    return acc


def idx_of_add(a):
    s = frozenset()
    for l in leaves(a):
        if isinstance(l, Rat):
            s |= idx_of(l)
    for v in bvars(a):
        s |= VIDX[v]
    return s


def exists(a, drop, memo=None):
    """some outcome of the conditions in drop makes a true"""
    if memo is None:
        memo = {}
    if a.var is None:
        return a
    r = memo.get(a.id)
    if r is None:
        hi, lo = exists(a.hi, drop, memo), exists(a.lo, drop, memo)
        r = memo[a.id] = bor(hi, lo) if a.var in drop else node(a.var, hi, lo)
    return r


def restrict(a, assume):
    """simplify a under the assumption (BDD): leaves only reachable when assume is false are dropped"""
    if assume is T:
        return a
    return ite(assume, a, BOT)


def cofactor(a, cond):
    """a where the conjunction of literals cond holds (other leaves of cond are ignored)"""
    lits = {}
    c = cond
    while c.var is not None:
        if c.lo is F:
            lits[c.var] = True
            c = c.hi
        elif c.hi is F:
            lits[c.var] = False
            c = c.lo
        else:
            break
    cache = {}

    def go(n):
        if n.var is None:
            return n
        if n.id not in cache:
            if n.var in lits:
                cache[n.id] = go(n.hi if lits[n.var] else n.lo)
            else:
                cache[n.id] = ite(node(n.var, T, F), go(n.hi), go(n.lo))
        return cache[n.id]
    return go(a)


def same(a, b, under=T):
    """are the two diagrams equal wherever `under` holds?"""
    if a is b:
        return True

    def f(x, y):
        if isinstance(x, Rat) and isinstance(y, Rat):
            return T if x.eq(y) else F
        return T if x == y else F
    a2, b2 = restrict(a, under), restrict(b, under)
    if a2 is b2:
        return True
    e = map2("same", f, a2, b2)
    if e is BOT:
        return True
    return ite(under, e, T) is T


def witness(a, b, under=T):
    """a (condition, leafA, leafB) where they differ"""
    def go(x, y, u, path):
        if u is F:
            return None
        if x.var is None and y.var is None:
            if x is BOT or y is BOT:
                return None
            eqv = x.v.eq(y.v) if isinstance(x.v, Rat) and isinstance(y.v, Rat) else x.v == y.v
            if not eqv and u.var is None:
                return path, x.v, y.v
            if eqv:
                return None
        v = min(z.var for z in (x, y, u) if z.var is not None)
        xh, xl = (x.hi, x.lo) if x.var == v else (x, x)
        yh, yl = (y.hi, y.lo) if y.var == v else (y, y)
        uh, ul = (u.hi, u.lo) if u.var == v else (u, u)
        return go(xh, yh, uh, path + [(v, True)]) or go(xl, yl, ul, path + [(v, False)])
    return go(a, b, under, [])


# ---------------------------------------------------------------- sums over abstract sequences
def seqsum(src, a):
    """Sum over the abstract sequence `src` of the scalar diagram a (depends on IDX src)."""
    if src not in idx_of_add(a):
        if a.var is None and a.v.is_zero():
            return ZERO
        n = leaf(ra(atom(("count", src), True)))
        return mul(n, a)
    if a.var is not None and src not in VIDX[a.var]:
        return ite(node(a.var, T, F), seqsum(src, a.hi), seqsum(src, a.lo))
    # split every leaf by its src-free monomial part
    parts = {}

    def split(r):
        out = {}
        if any(src in idx_of_poly(f) for f, _ in r.d):
            dd = tuple((f, m) for f, m in r.d if src in idx_of_poly(f))
            df = tuple((f, m) for f, m in r.d if src not in idx_of_poly(f))
        else:
            dd, df = (), r.d
        for m, c in r.n.t.items():
            free = tuple(x for x in m if src not in IDX[x[0]])
            dep = tuple(x for x in m if src in IDX[x[0]])
            k = (free, df)
            out.setdefault(k, {})[dep] = c
        return {k: mkrat(Poly(v), dd) for k, v in out.items()}
    keys = set()
    for l in leaves(a):
        keys |= set(split(l))
    tot = ZERO
    for k in sorted(keys, key=lambda k: (k[0], [(_skey(f), m) for f, m in k[1]])):
        ak = map1(("split", k), lambda r: leaf(split(r).get(k, R0)), a)
        # numeric content of a single leaf
        cc = 1
        if ak.var is None:
            kk, _ = factors(ak.v.n)
            cc = kk
            ak = leaf(Rat(ak.v.n.scale(Fraction(1) / Fraction(kk)), ak.v.d))
        if src in idx_of_add(ak):
            at = atom(("sum", src, ak), all(isinstance(l, Rat) and rat_nonneg(l) for l in leaves(ak)), idx_of_add(ak) - {src})
            sv = leaf(ra(at))
        else:
            sv = mul(leaf(ra(atom(("count", src), True))), ak)
        tot = add(tot, mul(sv, leaf(mkrat(Poly({k[0]: _norm_c(cc)}), k[1]))))
    return tot


def seqall(src, c):
    """for all elements of src: c"""
    if src not in frozenset().union(*[VIDX[v] for v in bvars(c)]) if bvars(c) else True:
        if c is T or c is F:
            return T if c is T else bvar(("empty", src))
        return bor(bvar(("empty", src)), c)
    if c.var is not None and src not in VIDX[c.var]:
        return ite(node(c.var, T, F), seqall(src, c.hi), seqall(src, c.lo))
    ix = frozenset().union(*[VIDX[v] for v in bvars(c)]) - {src}
    return bvar(("all", src, c), ix)


# ---------------------------------------------------------------- printing
def show_atom(a):
    k = ATOMS[a]
    if k[0] == "var":
        return str(k[1])
    if k[0] in ("sqrt", "abs"):
        return "%s(%s)" % (k[0], show_poly(k[1]))
    if k[0] == "fn":
        return "%s(%s)" % (k[1], ", ".join(repr(x) for x in k[2:]))
    if k[0] == "sum":
        return "Σ[%s](%s)" % (k[1], show(k[2]))
    if k[0] == "el":
        return "%s#%s" % (k[1] if isinstance(k[1], str) else hash(k[1]) % 10007, k[2:])
    return str(k)[:80]


def show_poly(p, limit=12):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: _glkey(mc[0]), reverse=True)[:limit]:
        f = "*".join(show_atom(a) + ("^%d" % e if e > 1 else "") for a, e in m)
        cs = str(c) if not isinstance(c, Fraction) or c.denominator < 10 ** 6 else "%.6g" % float(c)
        out.append(cs if not f else f if c == 1 else "-" + f if c == -1 else cs + "*" + f)
    s = " + ".join(out).replace("+ -", "- ")
    if len(p.t) > limit:
        s += " + …(%d terms)" % len(p.t)
    return s


def show_var(v):
    k = VARS[v]
    if k[0] == "pos":
        return "[%s > 0]" % show_poly(k[1])
    if k[0] == "neg":
        return "[%s < 0]" % show_poly(k[1])
    if k[0] in ("fin", "nan"):
        return "%s(%r)" % ({"fin": "finite", "nan": "nan"}[k[0]], k[1])
    return str(k)[:100]


def show(a, depth=6):
    if a.var is None:
        return repr(a.v) if not isinstance(a.v, str) else a.v
    if a.hi is T and a.lo is F:
        return show_var(a.var)
    if a.hi is F and a.lo is T:
        return "!" + show_var(a.var)
    if depth == 0:
        return "…"
    return "(%s ? %s : %s)" % (show_var(a.var), show(a.hi, depth - 1), show(a.lo, depth - 1))


def show_path(path):
    return " & ".join(("" if b else "not ") + show_var(v) for v, b in path) or "always"


# ---------------------------------------------------------------- infeasible paths
def _norm_lin(p):
    """p = k*q + c with q free of constants and of leading coefficient 1"""
    c = p.t.get((), 0)
    q = Poly({m: v for m, v in p.t.items() if m != ()})
    if not q.t:
        return None
    _, lc = q.lead()
    return q.scale(Fraction(1) / Fraction(lc)), Fraction(lc), Fraction(c)


def prune(a, budget=20000):
    """drop the branches of a boolean diagram that order relations between its sign tests rule out
    (p > 0 and p' > 0 where both are affine in the same expression)"""
    left = [budget]

    def bound(bnds, v, val):
        k = VARS[v]
        if k[0] not in ("pos", "neg"):
            return bnds
        l = _norm_lin(k[1])
        if l is None:
            return bnds
        q, s, c = l
        # s*q + c > 0 (pos) or < 0 (neg), or the negation when val is False
        up = (s > 0) == (k[0] == "pos")
        lim = -c / s
        b = bnds.get(q)
        if b is None:
            b = (Fraction(0), False, None, False) if poly_nonneg(q) else (None, False, None, False)
        lo, los, hi, his = b
        # lower bound lo (strict los), upper bound hi (strict his)
        if up == val:
            # q > lim (val) or q >= lim
            st = val
            if lo is None or lim > lo or (lim == lo and st):
                lo, los = lim, st
        else:
            st = val
            if hi is None or lim < hi or (lim == hi and st):
                hi, his = lim, st
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (los or his))):
            return None
        r = dict(bnds)
        r[q] = (lo, los, hi, his)
        return r

    def go(x, bnds):
        if x.var is None:
            return x
        left[0] -= 1
        if left[0] < 0:
            raise TooBig("path pruning")
        h, l = bound(bnds, x.var, True), bound(bnds, x.var, False)
        hi = go(x.hi, h) if h is not None else None
        lo = go(x.lo, l) if l is not None else None
        if hi is None:
            return lo if lo is not None else F
        if lo is None:
            return hi
        return node(x.var, hi, lo)
    return go(a, {})


def differs(a, b, under=T):
    """condition under which two diagrams differ, without the branches that cannot happen"""
    def f(x, y):
        if isinstance(x, Rat) and isinstance(y, Rat):
            return T if x.eq(y) else F
        return T if x == y else F
    e = map2("same", f, restrict(a, under), restrict(b, under))
    if e is BOT:
        return F
    return prune(band(under, bnot(ite(under, e, T))))

"""Structured abstract values (immutable)."""
from . import alg
from .alg import N, ite, leaf, T, F, Rat

KEYS = {}
KEYL = []


def kid(key):
    i = KEYS.get(key)
    if i is None:
        i = len(KEYL)
        KEYS[key] = i
        KEYL.append(key)
    return i


class V:
    __slots__ = ("_h",)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((type(self).__name__, self.key()))
            return self._h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())


class Mat(V):
    """matrix/vector/point/rotation/unit: column-major elements"""
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)
        assert len(self.e) == r * c, (r, c, len(self.e))

    def key(self):
        return (self.r, self.c, self.e)

    def at(self, i, j):
        return self.e[j * self.r + i]

    def __repr__(self):
        return "Mat%dx%d[%s]" % (self.r, self.c, "; ".join(", ".join(repr(self.at(i, j)) for j in range(self.c)) for i in range(self.r)))


class Agg(V):
    __slots__ = ("tag", "f")

    def __init__(self, tag, f):
        self.tag, self.f = tag, tuple(f)

    def key(self):
        return (self.tag, self.f)

    def __repr__(self):
        return "%s(%s)" % (self.tag.split("::")[-1], ", ".join(map(repr, self.f)))


class Enum(V):
    """discr: diagram over constant integer leaves; pay: tuple of (variant, fields)"""
    __slots__ = ("path", "discr", "pay")

    def __init__(self, path, discr, pay):
        self.path, self.discr = path, discr
        self.pay = tuple(sorted(pay.items())) if isinstance(pay, dict) else pay

    def key(self):
        return (self.path, self.discr, self.pay)

    def payd(self):
        return dict(self.pay)

    def __repr__(self):
        return "%s<%r | %s>" % (self.path.split("::")[-1], self.discr, self.pay)


class Ref(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def key(self):
        return self.v

    def __repr__(self):
        return "&%r" % (self.v,)


class MRef(V):
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def key(self):
        return (self.cell, self.path)

    def __repr__(self):
        return "&mut %s%s" % (self.cell, self.path)


class MSel(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return (self.c, self.a, self.b)


class Lst(V):
    """sequence: segments ('i', guard, value) | ('a', guard, src, elem) | ('mu', id).
    kind: 'arr' (array/slice/vec) or 'it' (iterator)"""
    __slots__ = ("segs", "kind")

    def __init__(self, segs, kind="arr"):
        self.segs, self.kind = tuple(segs), kind

    def key(self):
        return self.segs

    def items(self):
        """concrete unguarded items or None"""
        if all(s[0] == "i" and s[1] is T for s in self.segs):
            return [s[2] for s in self.segs]
        return None

    def __repr__(self):
        return "[%s]" % ", ".join((repr(s[2]) + ("" if s[1] is T else " if %r" % s[1])) if s[0] == "i" else
                                   "∀%s:%r%s" % (s[2], s[3], "" if s[1] is T else " if %r" % s[1]) if s[0] == "a" else str(s) for s in self.segs)


class Lazy(V):
    """lazy iterator adaptor"""
    __slots__ = ("op", "a")

    def __init__(self, op, *a):
        self.op, self.a = op, a

    def key(self):
        return (self.op, self.a)


class Clo(V):
    __slots__ = ("k", "up")

    def __init__(self, k, up):
        self.k, self.up = k, tuple(up)

    def key(self):
        return (self.k, self.up)


class FnV(V):
    """function item; callee json is kept out of the key"""
    __slots__ = ("name", "callee")

    def __init__(self, name, callee):
        self.name, self.callee = name, callee

    def key(self):
        return self.name


class Opq(V):
    __slots__ = ("k", "ty")

    def __init__(self, k, ty=None):
        self.k, self.ty = k, ty

    def key(self):
        return self.k

    def __repr__(self):
        return "?%s" % (str(self.k)[:60],)


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def key(self):
        return self.s

    def __repr__(self):
        return repr(self.s)


UNIT = Agg("tuple", ())


def arr(items):
    return Lst([("i", T, x) for x in items])


def some(path, *f):
    return Enum(path, alg.num(1), {1: tuple(f)})


OPTION = "core::option::Option"
RESULT = "core::result::Result"


def Some(v):
    return Enum(OPTION, alg.num(1), {1: (v,)})


NONE = Enum(OPTION, alg.num(0), {})


def Ok(v):
    return Enum(RESULT, alg.num(0), {0: (v,)})


def opt(c, v):
    """Some(v) if c else None"""
    return Enum(OPTION, ite(c, alg.ONE, alg.ZERO), {1: (v,)} if c is not F else {})


def is_variant(e, k):
    return alg.eq0(alg.sub(e.discr, alg.num(k)))


class Merge(Exception):
    pass


def _gseg(s, c):
    if s[0] == "mu":
        return s + (("if", c),)
    if s[0] in ("i", "a"):
        return (s[0], alg.band(c, s[1])) + s[2:]
    return s


def vite(c, a, b):
    if c is T:
        return a
    if c is F:
        return b
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    if isinstance(a, N) and isinstance(b, N):
        return ite(c, a, b)
    if type(a) is type(b) and a == b:
        return a
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return Mat(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and len(a.f) == len(b.f):
        return Agg(a.tag, [vite(c, x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Enum) and isinstance(b, Enum) and a.path == b.path:
        pa, pb = a.payd(), b.payd()
        pay = {}
        for k in set(pa) | set(pb):
            if k in pa and k in pb:
                pay[k] = tuple(vite(c, x, y) for x, y in zip(pa[k], pb[k]))
            else:
                pay[k] = pa.get(k) or pb.get(k) or ()
        return Enum(a.path, ite(c, a.discr, b.discr), pay)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return Ref(vite(c, a.v, b.v))
    if isinstance(a, (MRef, MSel)) and isinstance(b, (MRef, MSel)):
        return MSel(c, a, b)
    if isinstance(a, Lst) and isinstance(b, Lst):
        n = 0
        segs = []
        while n < len(a.segs) and n < len(b.segs):
            x, y = a.segs[n], b.segs[n]
            if x == y:
                segs.append(x)
            elif x[0] == "i" and y[0] == "i" and x[1] is y[1] and len(a.segs) == len(b.segs):
                segs.append(("i", x[1], vite(c, x[2], y[2])))
            elif x[0] == "i" and y[0] == "i" and x[2] == y[2]:
                segs.append(("i", ite(c, x[1], y[1]), x[2]))
            elif x[0] == "a" and y[0] == "a" and x[2:] == y[2:]:
                segs.append(("a", ite(c, x[1], y[1])) + x[2:])
            else:
                break
            n += 1
        for s in a.segs[n:]:
            segs.append(_gseg(s, c))
        for s in b.segs[n:]:
            segs.append(_gseg(s, alg.bnot(c)))
        return Lst(segs, a.kind)
    if isinstance(a, Clo) and isinstance(b, Clo) and a.k == b.k:
        return Clo(a.k, [vite(c, x, y) for x, y in zip(a.up, b.up)])
    return Opq(("ite", c, a, b))


def scalars(v):
    """all scalar diagrams inside a value, with a path"""
    out = []

    def go(x, p):
        if isinstance(x, N):
            out.append((p, x))
        elif isinstance(x, Mat):
            for i, e in enumerate(x.e):
                out.append((p + ("e%d" % i,), e))
        elif isinstance(x, Agg):
            for i, e in enumerate(x.f):
                go(e, p + (i,))
        elif isinstance(x, Enum):
            out.append((p + ("discr",), x.discr))
            for k, fs in x.pay:
                for i, e in enumerate(fs):
                    go(e, p + ("v%d.%d" % (k, i),))
        elif isinstance(x, Ref):
            go(x.v, p)
        elif isinstance(x, Lst):
            for i, s in enumerate(x.segs):
                if s[0] == "i":
                    if s[1] is not T:
                        out.append((p + ("g%d" % i,), s[1]))
                    go(s[2], p + (i,))
                elif s[0] == "a":
                    if s[1] is not T:
                        out.append((p + ("g%d" % i,), s[1]))
                    go(s[3], p + ("all%d" % i,))
        elif isinstance(x, Clo):
            for i, e in enumerate(x.up):
                go(e, p + (i,))
    go(v, ())
    return out


def idx_of_value(v):
    s = frozenset()
    for _, x in scalars(v):
        s |= alg.idx_of_add(x)
    return s


def vmap(f, v):
    """rebuild value applying f to every scalar"""
    if isinstance(v, N):
        return f(v)
    if isinstance(v, Mat):
        return Mat(v.r, v.c, [f(x) for x in v.e])
    if isinstance(v, Agg):
        return Agg(v.tag, [vmap(f, x) for x in v.f])
    if isinstance(v, Enum):
        return Enum(v.path, f(v.discr), {k: tuple(vmap(f, x) for x in fs) for k, fs in v.pay})
    if isinstance(v, Ref):
        return Ref(vmap(f, v.v))
    if isinstance(v, Lst):
        segs = []
        for s in v.segs:
            if s[0] == "i":
                segs.append(("i", f(s[1]), vmap(f, s[2])))
            elif s[0] == "a":
                segs.append(("a", f(s[1]), s[2], vmap(f, s[3])))
            else:
                segs.append(s)
        return Lst(segs, v.kind)
    if isinstance(v, Clo):
        return Clo(v.k, [vmap(f, x) for x in v.up])
    if isinstance(v, Lazy):
        return Lazy(v.op, *[vmap(f, x) if isinstance(x, (V, N)) else x for x in v.a])
    return v

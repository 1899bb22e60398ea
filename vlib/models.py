"""API models of nalgebra, core iterators, slices, floats, Option helpers, ArrayVec (real-arithmetic semantics)."""
import re
from . import alg
from .alg import N, T, F, leaf, ite, band, bor, bnot, num, Rat, ZERO, ONE
from .values import *

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def lookup(name, rp):
    return M.get(rp) or M.get(name)


NA = "nalgebra::base::matrix::Matrix::"


# ---------------------------------------------------------------- matrices
def mzip(f, a, b):
    return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.e, b.e)])


def mmap(f, a):
    return Mat(a.r, a.c, [f(x) for x in a.e])


def matmul(a, b):
    from .interp import Unsupported
    if a.c != b.r:
        raise Unsupported("dimension mismatch")
    out = []
    for j in range(b.c):
        for i in range(a.r):
            s = ZERO
            for k in range(a.c):
                s = alg.add(s, alg.mul(a.at(i, k), b.at(k, j)))
            out.append(s)
    return Mat(a.r, b.c, out)


def transpose(a):
    return Mat(a.c, a.r, [a.at(i, j) for i in range(a.r) for j in range(a.c)])


def eye(n, m=None):
    m = m or n
    return Mat(n, m, [ONE if i == j else ZERO for j in range(m) for i in range(n)])


def zeros(r, c):
    return Mat(r, c, [ZERO] * (r * c))


def dot(a, b):
    s = ZERO
    for x, y in zip(a.e, b.e):
        s = alg.add(s, alg.mul(x, y))
    return s


def nsq(a):
    s = dot(a, a)
    alg.mark_nonneg(s)
    return s


def norm(a):
    return alg.sqrt(nsq(a))


def scale(a, k):
    return mmap(lambda x: alg.mul(x, k), a)


def unscale(a, k):
    return mmap(lambda x: alg.div(x, k), a)


def cross(a, b):
    x, y = a.e, b.e
    m, s = alg.mul, alg.sub
    return Mat(a.r, a.c, [s(m(x[1], y[2]), m(x[2], y[1])), s(m(x[2], y[0]), m(x[0], y[2])), s(m(x[0], y[1]), m(x[1], y[0]))])


def hat(v):
    x, y, z = v.e
    n = alg.neg
    return Mat(3, 3, [ZERO, z, n(y), n(z), ZERO, x, y, n(x), ZERO])


def det(a):
    if a.r == 1:
        return a.e[0]
    s = ZERO
    for j in range(a.c):
        mi = Mat(a.r - 1, a.c - 1, [a.at(i, k) for k in range(a.c) if k != j for i in range(1, a.r)])
        t = alg.mul(a.at(0, j), det(mi))
        s = alg.add(s, t) if j % 2 == 0 else alg.sub(s, t)
    return s


def adjugate(a):
    n = a.r
    out = []
    for j in range(n):
        for i in range(n):
            # adj[i][j] = cofactor(j, i)
            mi = Mat(n - 1, n - 1, [a.at(r, c) for c in range(n) if c != i for r in range(n) if r != j])
            d = det(mi)
            out.append(d if (i + j) % 2 == 0 else alg.neg(d))
    return Mat(n, n, out)


def block(a, r0, c0, nr, nc):
    return Mat(nr, nc, [a.at(r0 + i, c0 + j) for j in range(nc) for i in range(nr)])


def iso_mul(a, b):
    R = matmul(a.f[0], b.f[0])
    t = mzip(alg.add, matmul(a.f[0], b.f[1]), a.f[1])
    return Agg("iso", [R, t])


def iso_inv(a):
    Rt = transpose(a.f[0])
    return Agg("iso", [Rt, mmap(alg.neg, matmul(Rt, a.f[1]))])


def homog(R, t):
    n = R.r
    es = []
    for j in range(n):
        es += [R.at(i, j) for i in range(n)] + [ZERO]
    es += list(t.e) + [ONE]
    return Mat(n + 1, n + 1, es)


def isiso(v):
    return isinstance(v, Agg) and v.tag == "iso"


def U(msg):
    from .interp import Unsupported
    return Unsupported(msg)


def cint(n):
    if isinstance(n, N) and n.is_leaf() and isinstance(n.v, Rat) and n.v.const() is not None:
        return int(n.v.const())
    raise U("symbolic size %r" % (n,))


def logdiv(c, a, b):
    c.ip.event("div", num=a, den=b, pc=c.st.pc, span=c.span)


def is_dim(v):
    return True


@model("core::ops::arith::Add::add", "core::ops::arith::Sub::sub", "core::ops::arith::AddAssign::add_assign", "core::ops::arith::SubAssign::sub_assign")
def _addsub(c):
    a, b = c.v(0), c.v(1)
    op = alg.add if "add" in c.name.split("::")[-1] else alg.sub
    if isinstance(a, N) and isinstance(b, N):
        r = op(a, b)
    elif isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        r = mzip(op, a, b)
    else:
        return NotImplemented
    return _assign(c, r)


def _assign(c, r):
    if c.name.endswith("_assign"):
        c.ip.write_ref(c.st, c.args[0], r)
        return UNIT
    return r


@model("core::ops::arith::Mul::mul", "core::ops::arith::MulAssign::mul_assign")
def _mul(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, N) and isinstance(b, N):
        r = alg.mul(a, b)
    elif isinstance(a, N) and isinstance(b, Mat):
        r = scale(b, a)
    elif isinstance(a, Mat) and isinstance(b, N):
        r = scale(a, b)
    elif isinstance(a, Mat) and isinstance(b, Mat):
        r = matmul(a, b)
    elif isiso(a) and isiso(b):
        r = iso_mul(a, b)
    elif isiso(a) and isinstance(b, Mat):
        ty = c.targ(1) if False else None
        r = matmul(a.f[0], b)
        tn = arg_ty(c, 1)
        if "OPoint" in tn:
            r = mzip(alg.add, r, a.f[1])
        elif "rotation::Rotation" in tn:
            return Agg("iso", [r, a.f[1]])
        elif "translation::Translation" in tn:
            return Agg("iso", [a.f[0], mzip(alg.add, r, a.f[1])])
    elif isinstance(a, Mat) and isiso(b):
        tn = arg_ty(c, 0)
        if "rotation::Rotation" in tn:
            r = Agg("iso", [matmul(a, b.f[0]), matmul(a, b.f[1])])
        elif "translation::Translation" in tn:
            r = Agg("iso", [b.f[0], mzip(alg.add, a, b.f[1])])
        else:
            return NotImplemented
    else:
        return NotImplemented
    return _assign(c, r)


def arg_ty(c, i):
    from .interp import Ty
    if c.t is None:
        return ""
    return Ty(c.fr.dump, c.t["at"][i]).s


@model("core::ops::arith::Div::div", "core::ops::arith::DivAssign::div_assign")
def _div(c):
    a, b = c.v(0), c.v(1)
    if not isinstance(b, N):
        return NotImplemented
    if isinstance(a, N):
        logdiv(c, a, b)
        r = alg.div(a, b)
    elif isinstance(a, Mat):
        logdiv(c, a, b)
        r = unscale(a, b)
    else:
        return NotImplemented
    return _assign(c, r)


@model("core::ops::range::RangeInclusive::new")
def _range_incl(c):
    return Agg("core::ops::range::RangeInclusive", [c.v(0), c.v(1)])


@model("core::ops::arith::Neg::neg")
def _neg(c):
    a = c.v(0)
    if isinstance(a, N):
        return alg.neg(a)
    if isinstance(a, Mat):
        return mmap(alg.neg, a)
    return NotImplemented


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _eq(c):
    a, b = c.v(0), c.v(1)
    r = veq(a, b)
    if r is None:
        return NotImplemented
    return r if c.name.endswith("eq") else bnot(r)


def veq(a, b):
    if isinstance(a, N) and isinstance(b, N):
        ls = alg.leaves(a) + alg.leaves(b)
        if all(isinstance(l, bool) for l in ls):
            return bnot(alg.bxor(a, b))
        return alg.eq0(alg.sub(a, b))
    if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) == (b.r, b.c):
        return band(*[alg.eq0(alg.sub(x, y)) for x, y in zip(a.e, b.e)])
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag:
        rs = [veq(x, y) for x, y in zip(a.f, b.f)]
        return None if any(r is None for r in rs) else band(*rs)
    if isinstance(a, Str) and isinstance(b, Str):
        return T if a.s == b.s else F
    if isinstance(a, Enum) and isinstance(b, Enum) and not any(p for p in a.pay + b.pay if p[1]):
        return alg.eq0(alg.sub(a.discr, b.discr))
    return None


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _cmp(c):
    a, b = wrapped_order(c.v(0), c.v(1))
    if not (isinstance(a, N) and isinstance(b, N)):
        return NotImplemented
    return {"lt": alg.lt(a, b), "le": alg.le(a, b), "gt": alg.lt(b, a), "ge": alg.le(b, a)}[c.name.split("::")[-1]]


def wrapped_order(a, b):
    """float_ord::FloatOrd and core::cmp::Reverse only wrap the value that is compared"""
    while isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and len(a.f) == len(b.f) == 1:
        if a.tag.endswith("cmp::Reverse"):
            a, b = b.f[0], a.f[0]
        elif a.tag.endswith("FloatOrd"):
            a, b = a.f[0], b.f[0]
        else:
            break
        while isinstance(a, Ref):
            a = a.v
        while isinstance(b, Ref):
            b = b.v
    return a, b


def ordering(a, b):
    lt, gt = alg.lt(a, b), alg.lt(b, a)
    return Enum("core::cmp::Ordering", ite(lt, num(-1), ite(gt, num(1), num(0))), {})


NANCMP = [False]        # a partial comparison with NaN has no result (a check that sets this does so before any analysis)


@model("core::cmp::PartialOrd::partial_cmp")
def _pcmp(c):
    a, b = c.v(0), c.v(1)
    if isinstance(a, Agg):
        a, b = wrapped_order(a, b)
        return Some(ordering(a, b)) if isinstance(a, N) and isinstance(b, N) else NotImplemented
    if isinstance(a, N) and isinstance(b, N):
        if NANCMP[0]:
            return opt(band(bnot(alg.isnan(a)), bnot(alg.isnan(b))), ordering(a, b))
        return Some(ordering(a, b))
    if isinstance(a, Mat) and isinstance(b, Mat) and len(a.e) == len(b.e) and a.e:
        # nalgebra: ordered when no component goes the other way
        les, ges = T, T
        for x, y in zip(a.e, b.e):
            les, ges = band(les, bnot(alg.lt(y, x))), band(ges, bnot(alg.lt(x, y)))
            if NANCMP[0]:
                les, ges = [band(w, band(bnot(alg.isnan(x)), bnot(alg.isnan(y)))) for w in (les, ges)]
        return opt(alg.bor(les, ges), Enum("core::cmp::Ordering", ite(band(les, ges), num(0), ite(les, num(-1), num(1))), {}))
    return NotImplemented


@model("core::cmp::Ord::cmp", "<f64>::total_cmp")
def _ocmp(c):
    a, b = c.v(0), c.v(1)
    a, b = wrapped_order(a, b)
    if isinstance(a, N) and isinstance(b, N):
        return ordering(a, b)
    return NotImplemented


@model("core::cmp::Ordering::reverse")
def _orev(c):
    a = c.v(0)
    return Enum(a.path, alg.neg(a.discr), {})


@model("core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut",
       "core::borrow::Borrow::borrow", "core::borrow::BorrowMut::borrow_mut")
def _deref(c):
    a = c.args[0]
    v = c.v(0)
    if not isinstance(v, (Mat, Lst, Lazy)):
        return NotImplemented
    if isinstance(a, Ref):
        while isinstance(a.v, Ref):
            a = a.v
        return Ref(v) if isinstance(a.v, (MRef, MSel)) else a
    if isinstance(a, (MRef, MSel)):
        d = c.ip.deref(c.st, a)
        while isinstance(d, (MRef, MSel)):
            a, d = d, c.ip.deref(c.st, d)
        if c.name.endswith("_mut"):
            return a
        return Ref(v)
    return NotImplemented


@model(NA + "as_slice", "<[T]>::as_ref", NA + "as_ref", "<[T;N]>::as_slice", "arrayvec::arrayvec::ArrayVec::as_slice", "alloc::vec::Vec::as_slice", "<[T]>::to_vec", "alloc::slice::<impl [T]>::to_vec")
def _as_slice(c):
    v = c.v(0)
    if isinstance(v, Mat):
        return Ref(arr(v.e))
    if isinstance(v, Lst):
        return v if "to_vec" in c.name else Ref(v)
    return NotImplemented


@model("core::ops::index::Index::index")
def _index(c):
    v, i = c.v(0), c.v(1)
    if isinstance(v, Mat):
        if isinstance(i, Agg) and i.tag == "tuple":
            r, cc = i.f
            if r.is_leaf() and r.v.const() is not None and not (0 <= r.v.const() < v.r):
                return None
            i = alg.add(r, alg.mul(cc, num(v.r)))
        if isinstance(i, N):
            return Ref(c.ip.index(c.st, v, i))
    if isinstance(v, Lst):
        if isinstance(i, N):
            return Ref(c.ip.index(c.st, v, i))
        if isinstance(i, Agg) and i.tag.startswith("core::ops::range::"):
            return Ref(slice_range(c, v, i))
    return NotImplemented


def cut_event(ip, segs, what):
    """part of a sequence of unknown length is left out"""
    for s in segs:
        if s[0] == "a":
            ip.event("truncate", src=s[2], what=what)


def slice_range(c, v, i):
    k = i.tag.split("::")[-1]
    n = len(v.segs)
    lo, hi = 0, n
    if k in ("RangeTo", "RangeToInclusive") and v.items() is None and (not i.f[0].is_leaf() or i.f[0].v.const() is not None):
        cut_event(c.ip, v.segs, "a sub-slice")
    if k == "Range":
        lo, hi = cint(i.f[0]), cint(i.f[1])
    elif k == "RangeFrom":
        lo = cint(i.f[0])
    elif k == "RangeTo":
        hi = cint(i.f[0])
    elif k == "RangeInclusive":
        lo, hi = cint(i.f[0]), cint(i.f[1]) + 1
    elif k == "RangeToInclusive":
        hi = cint(i.f[0]) + 1
    elif k != "RangeFull":
        raise U("range " + k)
    if v.items() is None and k != "RangeFull":
        raise U("slice of abstract sequence")
    return Lst(v.segs[lo:hi])


def mut_base(c, a):
    """resolve nested mutable references"""
    d = c.ip.deref(c.st, a)
    while isinstance(d, (MRef, MSel)):
        a, d = d, c.ip.deref(c.st, d)
    return a, d


def ext(r, *es):
    if isinstance(r, MSel):
        return MSel(r.c, ext(r.a, *es), ext(r.b, *es))
    return MRef(r.cell, r.path + tuple((None, e) for e in es))


@model("core::ops::index::IndexMut::index_mut")
def _index_mut(c):
    a, v = mut_base(c, c.args[0])
    i = c.v(1)
    if isinstance(v, Mat):
        if isinstance(i, Agg) and i.tag == "tuple":
            r, cc = i.f
            if alg.sub(r, num(v.r)).is_leaf() and r.v.const() is not None and not (0 <= r.v.const() < v.r):
                return None
            i = alg.add(r, alg.mul(cc, num(v.r)))
        if i.is_leaf() and i.v.const() is not None:
            if not 0 <= i.v.const() < len(v.e):
                return None
            return ext(a, ("mi", int(i.v.const())))
        return ext(a, ("ix", i))
    if isinstance(v, Lst) and isinstance(i, N):
        return ext(a, ("ix", i))
    return NotImplemented


# element access helpers
@model(NA + "get_unchecked")
def _getu(c):
    return _index(c)


@model(NA + "get", "<[T]>::get")
def _get(c):
    v, i = c.v(0), c.v(1)
    if isinstance(v, (Mat, Lst)) and isinstance(i, N) and i.is_leaf() and i.v.const() is not None:
        items = v.e if isinstance(v, Mat) else v.items()
        if items is not None:
            k = int(i.v.const())
            return Some(Ref(items[k])) if 0 <= k < len(items) else NONE
    return NotImplemented


# constructors
def shape_of(c):
    s = c.ip.shape(c.rty) if c.rty is not None else None
    if s is None:
        raise U("shape of %s" % c.name)
    return s


@model(NA + "new", "nalgebra::geometry::point::OPoint::new")
def _new(c):
    vs = [c.v(i) for i in range(len(c.args))]
    if c.rty is None:
        n = len(vs)
        if n <= 4:
            return Mat(n, 1, vs)
        return NotImplemented
    r, k = shape_of(c)
    return Mat(r, k, [vs[i * k + j] for j in range(k) for i in range(r)])


@model("nalgebra::geometry::translation::Translation::new")
def _newt(c):
    return Mat(len(c.args), 1, [c.v(i) for i in range(len(c.args))])


@model(NA + "zeros", "nalgebra::zero", "num_traits::identities::zero", "num_traits::identities::Zero::zero")
def _zeros(c):
    if c.rty is None:
        return NotImplemented
    if c.rty.k in ("float", "uint", "int"):
        return ZERO
    s = c.ip.shape(c.rty)
    if s is None:
        return NotImplemented
    return zeros(*s)


@model("num_traits::identities::One::one", "num_traits::identities::one", "nalgebra::one")
def _one(c):
    if c.rty is not None and c.rty.k in ("float", "uint", "int"):
        return ONE
    s = c.ip.shape(c.rty) if c.rty is not None else None
    return eye(*s) if s else NotImplemented


@model(NA + "identity", "nalgebra::geometry::rotation::Rotation::identity")
def _ident(c):
    return eye(*shape_of(c))


@model("nalgebra::geometry::translation::Translation::identity", "nalgebra::geometry::point::OPoint::origin")
def _tident(c):
    return zeros(*shape_of(c))


@model("nalgebra::geometry::isometry::Isometry::identity")
def _isoid(c):
    return Agg("iso", [eye(3), zeros(3, 1)])


@model(NA + "from_element", NA + "repeat")
def _frel(c):
    r, k = shape_of(c)
    return Mat(r, k, [c.v(0)] * (r * k))


@model(NA + "from_diagonal_element")
def _frde(c):
    r, k = shape_of(c)
    return Mat(r, k, [c.v(0) if i == j else ZERO for j in range(k) for i in range(r)])


@model(NA + "from_diagonal")
def _frd(c):
    v = c.v(0)
    n = len(v.e)
    return Mat(n, n, [v.e[i] if i == j else ZERO for j in range(n) for i in range(n)])


@model(NA + "x_axis", NA + "y_axis", NA + "z_axis", NA + "w_axis", NA + "ith_axis", NA + "x", NA + "y", NA + "z")
def _axis(c):
    r, k = shape_of(c)
    i = {"x": 0, "y": 1, "z": 2, "w": 3}[c.name.split("::")[-1][0]]
    return Mat(r, k, [ONE if j == i else ZERO for j in range(r * k)])


@model(NA + "from_columns", NA + "from_rows")
def _fromcols(c):
    v = c.v(0)
    items = v.items() if isinstance(v, Lst) else None
    if items is None:
        return NotImplemented
    vs = [c.ip.strip(c.st, x) for x in items]
    if c.name.endswith("columns"):
        return Mat(vs[0].r, len(vs), [e for x in vs for e in x.e])
    return Mat(len(vs), vs[0].c, [x.e[j] for j in range(vs[0].c) for x in vs])


@model(NA + "from_iterator", NA + "from_column_slice", NA + "from_row_slice", NA + "from_row_iterator", NA + "from_vec")
def _fromiter(c):
    r, k = shape_of(c)
    segs = to_segs(c.ip, c.st, c.v(0))
    if not all(s[0] == "i" and s[1] is T for s in segs) or len(segs) < r * k:
        # element values from an abstract iterator
        raise U("matrix from abstract iterator")
    vs = [c.ip.strip(c.st, s[2]) for s in segs[:r * k]]
    if "row" in c.name.split("::")[-1]:
        return Mat(r, k, [vs[i * k + j] for j in range(k) for i in range(r)])
    return Mat(r, k, vs)


@model(NA + "from_fn", "nalgebra::base::construction::from_fn")
def _fromfn(c):
    r, k = shape_of(c)
    return Mat(r, k, [c.ip.strip(c.st, c.ip.call_value(c.st, c.args[0], [num(i), num(j)])) for j in range(k) for i in range(r)])


@model("core::convert::From::from", "core::convert::Into::into")
def _from(c):
    # identity-like conversions between transparent wrappers
    v = c.v(0)
    if c.f.get("key"):
        return NotImplemented
    if c.name.endswith("into"):
        # resolved to the blanket impl: find the From impl of the target type
        via = c.f.get("via")
        if via is not None:
            return c.ip.call(c.st, via, c.args, c.fr, c.t)
    if (c.f.get("rpath") or "").startswith("<T as core::convert::From<T>>"):
        return c.args[0]
    if isinstance(v, Mat) and c.rty is not None:
        s = c.ip.shape(c.rty)
        if s == (v.r, v.c):
            return v
        if c.rty.k == "array":
            return arr(v.e) if v.c == 1 else NotImplemented
        if s == (4, 4) and (v.r, v.c) == (3, 3):
            return homog(v, zeros(3, 1))
    rp = c.f.get("rpath") or ""
    if isinstance(v, Lst) and (rp.startswith(("<arrayvec::arrayvec::ArrayVec<", "<alloc::vec::Vec<")) or (c.rty is not None and c.rty.j.get("path") in ("arrayvec::arrayvec::ArrayVec", "alloc::vec::Vec"))):
        return v        # an array as a collection
    if isinstance(v, Lst) and c.rty is not None and c.rty.k == "adt":
        s = c.ip.shape(c.rty)
        it = v.items()
        if s and it and s[0] * s[1] == len(it):
            return Mat(s[0], s[1], [c.ip.strip(c.st, x) for x in it])
    if isinstance(v, N) and c.rty is not None and c.rty.k in ("float", "int", "uint"):
        return v
    if isiso(v) and c.rty is not None and c.rty.k == "adt" and c.ip.shape(c.rty) == (4, 4):
        return homog(v.f[0], v.f[1])
    from .interp import Ty
    if c.t is not None and Ty(c.fr.dump, c.t["at"][0]).s == (c.rty.s if c.rty else None):
        return c.args[0]
    return NotImplemented


@model("core::clone::Clone::clone", NA + "clone_owned", NA + "into_owned", "core::borrow::ToOwned::to_owned", NA + "clone",
       "nalgebra::base::unit::Unit::into_inner", "nalgebra::base::unit::Unit::as_ref", "nalgebra::base::unit::Unit::new_unchecked",
       "nalgebra::base::unit::Unit::unwrap", "nalgebra::base::unit::Unit::as_mut_unchecked", "nalgebra::base::unit::Unit::from_ref_unchecked",
       "nalgebra::geometry::rotation::Rotation::from_matrix_unchecked", "nalgebra::geometry::rotation::Rotation::into_inner",
       "nalgebra::base::matrix::Matrix::as_view", NA + "column_view", "core::hint::must_use")
def _clone(c):
    if c.f.get("key") and c.name == "core::clone::Clone::clone":
        return NotImplemented
    v = c.v(0)
    return v


@model("nalgebra::geometry::rotation::Rotation::matrix", "nalgebra::geometry::point::OPoint::coords")
def _matrix(c):
    return Ref(c.v(0))


@model("nalgebra::base::unit::Unit::new_normalize")
def _newnorm(c):
    v = c.v(0)
    n = norm(v)
    logdiv(c, v, n)
    return unscale(v, n)


@model("nalgebra::base::unit::Unit::new_and_get")
def _newnormget(c):
    v = c.v(0)
    n = norm(v)
    logdiv(c, v, n)
    return Agg("tuple", [unscale(v, n), n])


@model("nalgebra::base::unit::Unit::try_new")
def _trynew(c):
    v, mn = c.v(0), c.v(1)
    n = norm(v)
    return opt(alg.lt(mn, n), unscale(v, n))


@model(NA + "normalize")
def _normalize(c):
    v = c.v(0)
    n = norm(v)
    logdiv(c, v, n)
    return unscale(v, n)


@model(NA + "try_normalize")
def _trynormalize(c):
    v, mn = c.v(0), c.v(1)
    n = norm(v)
    return opt(bnot(alg.le(n, mn)), unscale(v, n))


@model(NA + "normalize_mut")
def _normmut(c):
    a, v = mut_base(c, c.args[0])
    n = norm(v)
    logdiv(c, v, n)
    c.ip.write_ref(c.st, a, unscale(v, n))
    return n


@model(NA + "norm", NA + "magnitude")
def _norm(c):
    return norm(c.v(0))


@model(NA + "norm_squared", NA + "magnitude_squared")
def _normsq(c):
    return nsq(c.v(0))


@model(NA + "dot")
def _dot(c):
    a, b = c.v(0), c.v(1)
    return nsq(a) if a == b else dot(a, b)


@model(NA + "tr_dot")
def _trdot(c):
    return dot(transpose(c.v(0)), c.v(1))


def rot_angle(R):
    t = alg.add(alg.add(R.at(0, 0), R.at(1, 1)), R.at(2, 2))
    return alg.fn("acos", alg.div(alg.sub(t, alg.ONE), alg.num(2)), nonneg=True)


@model("nalgebra::geometry::rotation_specialization::<Rotation>::angle", "nalgebra::geometry::rotation::Rotation::angle")
def _rotangle(c):
    R = c.v(0)
    return rot_angle(R) if R.r == 3 else NotImplemented


@model("nalgebra::geometry::rotation::Rotation::rotation_to")
def _rotto(c):
    return matmul(c.v(1), transpose(c.v(0)))


@model("nalgebra::geometry::rotation::Rotation::angle_to")
def _angleto(c):
    R = matmul(c.v(1), transpose(c.v(0)))
    return rot_angle(R) if R.r == 3 else NotImplemented


@model(NA + "cap_magnitude")
def _capmag(c):
    v, m = c.v(0), c.v(1)
    n = norm(v)
    f = ite(alg.lt(m, n), alg.div(m, n), alg.ONE)
    return scale(v, f)


@model(NA + "angle")
def _angle(c):
    a, b = c.v(0), c.v(1)
    return alg.fn("acos", alg.div(dot(a, b), alg.mul(norm(a), norm(b))))


@model(NA + "metric_distance")
def _mdist(c):
    return norm(mzip(alg.sub, c.v(0), c.v(1)))


@model("nalgebra::base::ops::distance", "nalgebra::geometry::point::distance", "nalgebra::distance")
def _dist(c):
    return norm(mzip(alg.sub, c.v(0), c.v(1)))


@model("nalgebra::distance_squared")
def _dist2(c):
    return nsq(mzip(alg.sub, c.v(0), c.v(1)))


@model(NA + "cross")
def _cross(c):
    return cross(c.v(0), c.v(1))


@model(NA + "cross_matrix")
def _crossm(c):
    return hat(c.v(0))


@model(NA + "perp")
def _perp(c):
    a, b = c.v(0), c.v(1)
    return alg.sub(alg.mul(a.e[0], b.e[1]), alg.mul(a.e[1], b.e[0]))


@model(NA + "scale")
def _scale(c):
    return scale(c.v(0), c.v(1))


@model(NA + "unscale")
def _unscale(c):
    v, k = c.v(0), c.v(1)
    logdiv(c, v, k)
    return unscale(v, k)


@model(NA + "scale_mut", NA + "unscale_mut")
def _scalemut(c):
    a, v = mut_base(c, c.args[0])
    k = c.v(1)
    if "unscale" in c.name:
        logdiv(c, v, k)
    c.ip.write_ref(c.st, a, unscale(v, k) if "unscale" in c.name else scale(v, k))
    return UNIT


@model(NA + "neg_mut")
def _negmut(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, mmap(alg.neg, v))
    return UNIT


@model(NA + "add_scalar")
def _adds(c):
    return mmap(lambda x: alg.add(x, c.v(1)), c.v(0))


@model(NA + "add_scalar_mut")
def _addsm(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, mmap(lambda x: alg.add(x, c.v(1)), v))
    return UNIT


@model(NA + "component_mul")
def _cmul(c):
    return mzip(alg.mul, c.v(0), c.v(1))


@model(NA + "component_div")
def _cdiv(c):
    return mzip(alg.div, c.v(0), c.v(1))


@model(NA + "component_mul_assign", NA + "component_mul_mut")
def _cmula(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, mzip(alg.mul, v, c.v(1)))
    return UNIT


@model(NA + "lerp", "nalgebra::geometry::point::OPoint::lerp")
def _lerp(c):
    a, b, t = c.v(0), c.v(1), c.v(2)
    return mzip(lambda x, y: alg.add(alg.mul(x, alg.sub(ONE, t)), alg.mul(y, t)), a, b)


@model(NA + "abs")
def _mabs(c):
    return mmap(alg.absv, c.v(0))


@model(NA + "transpose")
def _transpose(c):
    return transpose(c.v(0))


@model(NA + "tr_mul", NA + "ad_mul")
def _trmul(c):
    return matmul(transpose(c.v(0)), c.v(1))


@model(NA + "adjoint")
def _adjoint(c):
    return transpose(c.v(0))


@model(NA + "trace")
def _trace(c):
    v = c.v(0)
    s = ZERO
    for i in range(v.r):
        s = alg.add(s, v.at(i, i))
    return s


@model(NA + "sum")
def _msum(c):
    s = ZERO
    for e in c.v(0).e:
        s = alg.add(s, e)
    return s


@model(NA + "mean")
def _mmean(c):
    s = ZERO
    for e in c.v(0).e:
        s = alg.add(s, e)
    return alg.div(s, num(len(c.v(0).e)))


@model(NA + "row_sum")
def _rsum(c):
    v = c.v(0)
    out = []
    for j in range(v.c):
        s = ZERO
        for i in range(v.r):
            s = alg.add(s, v.at(i, j))
        out.append(s)
    return Mat(1, v.c, out)


@model(NA + "column_sum")
def _csum(c):
    v = c.v(0)
    out = []
    for i in range(v.r):
        s = ZERO
        for j in range(v.c):
            s = alg.add(s, v.at(i, j))
        out.append(s)
    return Mat(v.r, 1, out)


@model(NA + "diagonal")
def _diag(c):
    v = c.v(0)
    return Mat(v.r, 1, [v.at(i, i) for i in range(v.r)])


@model(NA + "determinant")
def _det(c):
    return det(c.v(0))


@model(NA + "try_inverse")
def _tryinv(c):
    v = c.v(0)
    if v.r > 4:
        return NotImplemented
    d = det(v)
    c.ip.event("try_inverse", m=v, pc=c.st.pc, span=c.span)
    ad = adjugate(v)
    return opt(bnot(alg.eq0(d)), Mat(v.r, v.r, [alg.div(x, d) for x in ad.e]))


@model(NA + "map", "nalgebra::geometry::point::OPoint::map", NA + "map_with_location", NA + "zip_map", "<[T;N]>::map")
def _map(c):
    v = c.v(0)
    if isinstance(v, Lst):
        items = v.items()
        if items is None:
            return NotImplemented
        return arr([c.ip.call_value(c.st, c.args[1], [x]) for x in items])
    if c.name.endswith("zip_map"):
        b = c.v(1)
        return Mat(v.r, v.c, [c.ip.strip(c.st, c.ip.call_value(c.st, c.args[2], [x, y])) for x, y in zip(v.e, b.e)])
    return Mat(v.r, v.c, [c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [x])) for x in v.e])


@model(NA + "apply")
def _apply(c):
    a, v = mut_base(c, c.args[0])
    for i in range(len(v.e)):
        c.ip.call_value(c.st, c.args[1], [ext(a, ("mi", i))])
    return UNIT


@model(NA + "fold")
def _mfold(c):
    v, acc = c.v(0), c.args[1]
    for e in v.e:
        acc = c.ip.call_value(c.st, c.args[2], [acc, e])
    return acc


@model(NA + "fill")
def _fill(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, Mat(v.r, v.c, [c.v(1)] * len(v.e)))
    return UNIT


@model(NA + "copy_from")
def _copy(c):
    a, v = mut_base(c, c.args[0])
    b = c.v(1)
    if (v.r, v.c) != (b.r, b.c):
        return None
    c.ip.write_ref(c.st, a, b)
    return UNIT


@model(NA + "set_row", NA + "set_column")
def _setrow(c):
    a, v = mut_base(c, c.args[0])
    k, b = cint(c.v(1)), c.v(2)
    if not isinstance(v, Mat) or not isinstance(b, Mat):
        return NotImplemented
    row = c.name.endswith("row")
    if len(b.e) != (v.c if row else v.r) or not 0 <= k < (v.r if row else v.c):
        return None
    c.ip.write_ref(c.st, ext(a, ("mb", k, 0, 1, v.c) if row else ("mb", 0, k, v.r, 1)), Mat(1, v.c, b.e) if row else Mat(v.r, 1, b.e))
    return UNIT


@model(NA + "tr_copy_from")
def _trcopy(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, transpose(c.v(1)))
    return UNIT


@model(NA + "swap_rows")
def _swr(c):
    a, v = mut_base(c, c.args[0])
    i, j = cint(c.v(1)), cint(c.v(2))
    p = list(range(v.r))
    p[i], p[j] = p[j], p[i]
    c.ip.write_ref(c.st, a, Mat(v.r, v.c, [v.at(p[r], k) for k in range(v.c) for r in range(v.r)]))
    return UNIT


@model(NA + "swap_columns")
def _swc(c):
    a, v = mut_base(c, c.args[0])
    i, j = cint(c.v(1)), cint(c.v(2))
    p = list(range(v.c))
    p[i], p[j] = p[j], p[i]
    c.ip.write_ref(c.st, a, Mat(v.r, v.c, [v.at(r, p[k]) for k in range(v.c) for r in range(v.r)]))
    return UNIT


# views
SYM = [None]


def symcol(i, cols):
    return SYM[0].index(None, arr(cols), i)


def colrow(v, i, col):
    if i.is_leaf() and i.v.const() is not None:
        k = int(i.v.const())
        if not 0 <= k < (v.c if col else v.r):
            return None
        return block(v, 0, k, v.r, 1) if col else block(v, k, 0, 1, v.c)
    n = v.c if col else v.r

    return symcol(i, [colrow(v, num(k), col) for k in range(n)])


@model(NA + "column", NA + "row")
def _column(c):
    v, i = c.v(0), c.v(1)
    return colrow(v, i, c.name.endswith("column"))


@model(NA + "column_mut", NA + "row_mut")
def _column_mut(c):
    a, v = mut_base(c, c.args[0])
    k = cint(c.v(1))
    if c.name.endswith("column_mut"):
        return ext(a, ("mb", 0, k, v.r, 1)) if k < v.c else None
    return ext(a, ("mb", k, 0, 1, v.c)) if k < v.r else None


def generic_dims(c):
    """const generic size arguments of view functions"""
    out = []
    a = c.f.get("rargs") or c.f["args"]
    for x in a:
        if isinstance(x, dict):
            try:
                out.append(int(x["c"]))
            except ValueError:
                raise U("symbolic view size")
    return out


@model(NA + "fixed_rows", NA + "fixed_rows_mut", NA + "fixed_columns", NA + "fixed_columns_mut", NA + "fixed_slice", NA + "fixed_slice_mut", NA + "fixed_view", NA + "fixed_view_mut")
def _fixed(c):
    n = c.name.split("::")[-1]
    d = generic_dims(c)
    mut = n.endswith("_mut")
    a, v = mut_base(c, c.args[0]) if mut else (None, c.v(0))
    if "rows" in n:
        b = ("mb", cint(c.v(1)), 0, d[-1], v.c)
    elif "columns" in n:
        b = ("mb", 0, cint(c.v(1)), v.r, d[-1])
    else:
        b = ("mb", cint(c.v(1)), cint(c.v(2)), d[-2], d[-1])
    if b[1] + b[3] > v.r or b[2] + b[4] > v.c:
        return None
    return ext(a, b) if mut else block(v, *b[1:])


@model(NA + "rows", NA + "columns", NA + "rows_mut", NA + "columns_mut", NA + "slice", NA + "view", NA + "slice_mut", NA + "view_mut")
def _dynview(c):
    n = c.name.split("::")[-1]
    mut = n.endswith("_mut")
    a, v = mut_base(c, c.args[0]) if mut else (None, c.v(0))
    if not isinstance(v, Mat):
        return NotImplemented
    if n.startswith("rows"):
        b = ("mb", cint(c.v(1)), 0, cint(c.v(2)), v.c)
    elif n.startswith("columns"):
        b = ("mb", 0, cint(c.v(1)), v.r, cint(c.v(2)))
    else:
        s, z = c.v(1), c.v(2)
        b = ("mb", cint(s.f[0]), cint(s.f[1]), cint(z.f[0]), cint(z.f[1]))
    if b[1] + b[3] > v.r or b[2] + b[4] > v.c:
        return None
    return ext(a, b) if mut else block(v, *b[1:])


@model(NA + "rows_generic")
def _rowsg(c):
    s = shape_of(c)
    v = c.v(0)
    k = cint(c.v(1))
    if k + s[0] > v.r:
        return None
    return block(v, k, 0, s[0], v.c)


@model(NA + "row_iter", NA + "column_iter")
def _rowiter(c):
    v = c.v(0)
    if c.name.endswith("row_iter"):
        return Lst([("i", T, block(v, i, 0, 1, v.c)) for i in range(v.r)], "it")
    return Lst([("i", T, block(v, 0, i, v.r, 1)) for i in range(v.c)], "it")


@model(NA + "column_iter_mut", NA + "row_iter_mut")
def _coliterm(c):
    a, v = mut_base(c, c.args[0])
    if "column" in c.name:
        return Lst([("i", T, ext(a, ("mb", 0, i, v.r, 1))) for i in range(v.c)], "it")
    return Lst([("i", T, ext(a, ("mb", i, 0, 1, v.c))) for i in range(v.r)], "it")


@model(NA + "xy", NA + "xyz", NA + "yz", NA + "xx", NA + "zx", NA + "yx", NA + "zy", NA + "xz", NA + "zyx", "nalgebra::geometry::point::OPoint::xy", "nalgebra::geometry::point::OPoint::xyz", "nalgebra::geometry::point::OPoint::xz", "nalgebra::geometry::point::OPoint::yz")
def _swz(c):
    v = c.v(0)
    w = c.name.split("::")[-1]
    return Mat(len(w), 1, [v.e["xyzw".index(k)] for k in w])


@model(NA + "push")
def _push(c):
    v = c.v(0)
    return Mat(v.r + 1, 1, list(v.e) + [c.v(1)])


@model(NA + "insert_row", NA + "insert_fixed_rows")
def _insr(c):
    return NotImplemented


@model(NA + "remove_row")
def _remr(c):
    v = c.v(0)
    k = cint(c.v(1))
    return Mat(v.r - 1, v.c, [v.at(i, j) for j in range(v.c) for i in range(v.r) if i != k])


@model(NA + "remove_column")
def _remc(c):
    v = c.v(0)
    k = cint(c.v(1))
    return Mat(v.r, v.c - 1, [v.at(i, j) for j in range(v.c) if j != k for i in range(v.r)])


@model(NA + "to_homogeneous")
def _tohom(c):
    v = c.v(0)
    if v.c == 1:
        return Mat(v.r + 1, 1, list(v.e) + [ZERO])
    s = c.ip.shape(c.rty) if c.rty is not None else (v.r + 1, v.c + 1)
    es = []
    for j in range(v.c):
        es += [v.at(i, j) for i in range(v.r)] + [ZERO]
    es += [ZERO] * v.r + [ONE]
    return Mat(v.r + 1, v.c + 1, es)


@model("nalgebra::geometry::rotation::Rotation::to_homogeneous")
def _rtohom(c):
    v = c.v(0)
    return homog(v, zeros(v.r, 1))


@model("nalgebra::geometry::translation::Translation::to_homogeneous")
def _ttohom(c):
    v = c.v(0)
    return homog(eye(v.r), v)


@model("nalgebra::geometry::isometry::Isometry::to_homogeneous", "nalgebra::geometry::isometry::Isometry::to_matrix")
def _itohom(c):
    v = c.v(0)
    return homog(v.f[0], v.f[1])


@model("nalgebra::geometry::point::OPoint::to_homogeneous")
def _ptohom(c):
    v = c.v(0)
    return Mat(v.r + 1, 1, list(v.e) + [ONE])


@model("nalgebra::geometry::point::OPoint::from_homogeneous")
def _pfromhom(c):
    v = c.v(0)
    w = v.e[-1]
    return opt(bnot(alg.eq0(w)), Mat(v.r - 1, 1, [alg.div(x, w) for x in v.e[:-1]]))


@model(NA + "from_homogeneous")
def _vfromhom(c):
    v = c.v(0)
    if v.c != 1:
        return NotImplemented
    return opt(alg.eq0(v.e[-1]), Mat(v.r - 1, 1, v.e[:-1]))


@model("nalgebra::geometry::isometry::Isometry::from_parts")
def _fromparts(c):
    return Agg("iso", [c.v(1), c.v(0)])


@model("nalgebra::geometry::isometry::Isometry::inverse")
def _iinv(c):
    return iso_inv(c.v(0))


@model("nalgebra::geometry::isometry::Isometry::inverse_mut")
def _iinvm(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, iso_inv(v))
    return UNIT


@model("nalgebra::geometry::isometry::Isometry::inv_mul")
def _iinvmul(c):
    return iso_mul(iso_inv(c.v(0)), c.v(1))


@model("nalgebra::geometry::rotation::Rotation::inverse", "nalgebra::geometry::rotation::Rotation::transpose")
def _rinv(c):
    return transpose(c.v(0))


@model("nalgebra::geometry::translation::Translation::inverse")
def _tinv(c):
    return mmap(alg.neg, c.v(0))


@model("nalgebra::geometry::isometry::Isometry::transform_point")
def _itp(c):
    a, b = c.v(0), c.v(1)
    return mzip(alg.add, matmul(a.f[0], b), a.f[1])


@model("nalgebra::geometry::isometry::Isometry::transform_vector", "nalgebra::geometry::rotation::Rotation::transform_vector", "nalgebra::geometry::rotation::Rotation::transform_point")
def _itv(c):
    a, b = c.v(0), c.v(1)
    return matmul(a.f[0] if isiso(a) else a, b)


@model("nalgebra::geometry::isometry::Isometry::inverse_transform_point")
def _iitp(c):
    a, b = iso_inv(c.v(0)), c.v(1)
    return mzip(alg.add, matmul(a.f[0], b), a.f[1])


@model("nalgebra::geometry::isometry::Isometry::inverse_transform_vector", "nalgebra::geometry::rotation::Rotation::inverse_transform_vector")
def _iitv(c):
    a = c.v(0)
    return matmul(transpose(a.f[0] if isiso(a) else a), c.v(1))


@model("nalgebra::geometry::isometry::Isometry::translation", "nalgebra::geometry::isometry::Isometry::rotation")
def _ipart(c):
    return NotImplemented


@model("nalgebra::geometry::rotation::Rotation::from_scaled_axis", "nalgebra::geometry::rotation::Rotation::new")
def _expmap(c):
    return opaque_rot(c, "exp", c.v(0))


def opaque_rot(c, kind, *args):
    k = kid((kind,) + args)
    ix = frozenset()
    for a in args:
        ix |= idx_of_value(a)
    return Mat(3, 3, [leaf(alg.ra(alg.atom(("el", k, i, j), False, ix))) for j in range(3) for i in range(3)])


@model("nalgebra::geometry::rotation::Rotation::from_axis_angle")
def _faa(c):
    ax, an = c.v(0), c.v(1)
    # Rotation by `an` about unit axis: the exponential of an*ax
    return opaque_rot(c, "exp", scale(ax, an))


@model("nalgebra::geometry::rotation::Rotation::scaled_axis")
def _scaledaxis(c):
    v = c.v(0)
    k = kid(("log", v))
    return Mat(3, 1, [leaf(alg.ra(alg.atom(("el", k, i), False, idx_of_value(v)))) for i in range(3)])


@model("nalgebra::geometry::rotation::Rotation::from_matrix_eps", "nalgebra::geometry::rotation::Rotation::from_matrix")
def _frommatrix(c):
    vs = [c.v(i) for i in range(len(c.args))]
    c.ip.event("solver", what=c.name.split("::")[-1], args=vs, pc=c.st.pc, span=c.span, fn=c.fr.body.j["path"])
    return opaque_rot(c, "nearest_rotation", vs[0])


# ---------------------------------------------------------------- decompositions
def solver_event(c, what, **kw):
    c.ip.event("solver", what=what, pc=c.st.pc, span=c.span, fn=c.fr.body.j["path"], **kw)


@model(NA + "try_symmetric_eigen", NA + "symmetric_eigen", "nalgebra::linalg::symmetric_eigen::SymmetricEigen::try_new", "nalgebra::linalg::symmetric_eigen::SymmetricEigen::new")
def _eigen(c):
    v = c.v(0)
    rest = [c.v(i) for i in range(1, len(c.args))]
    k = kid(("symeig", v))
    ix = idx_of_value(v)
    solver_event(c, "symmetric_eigen", m=v, args=rest, ok=alg.bvar(("ok", k), ix))
    n = v.r
    vals = Mat(n, 1, [leaf(alg.ra(alg.atom(("el", k, "val", i), False, ix))) for i in range(n)])
    vecs = Mat(n, n, [leaf(alg.ra(alg.atom(("el", k, "vec", i, j), False, ix))) for j in range(n) for i in range(n)])
    e = Agg("nalgebra::linalg::symmetric_eigen::SymmetricEigen", [vecs, vals])
    last = c.name.split("::")[-1]
    if last.startswith("try"):
        return opt(alg.bvar(("ok", k), ix), e)
    return e


@model(NA + "symmetric_eigenvalues")
def _eigvals(c):
    v = c.v(0)
    solver_event(c, "symmetric_eigenvalues", m=v, args=[])
    k = kid(("symeig", v))
    ix = idx_of_value(v)
    return Mat(v.r, 1, [leaf(alg.ra(alg.atom(("el", k, "val", i), False, ix))) for i in range(v.r)])


@model(NA + "try_svd", NA + "svd", "nalgebra::linalg::svd::SVD::try_new", "nalgebra::linalg::svd::SVD::new", NA + "svd_unordered", NA + "try_svd_unordered", "nalgebra::linalg::svd::SVD::new_unordered", "nalgebra::linalg::svd::SVD::try_new_unordered")
def _svd(c):
    v = c.v(0)
    rest = [c.v(i) for i in range(1, len(c.args))]
    solver_event(c, "svd", m=v, args=rest, ordered="unordered" not in c.name)
    k = kid(("svd", v) if "unordered" not in c.name else ("svdu", v))
    ix = idx_of_value(v)
    n = min(v.r, v.c)
    cu, cv = rest[0], rest[1]
    Um = Mat(v.r, n, [leaf(alg.ra(alg.atom(("el", k, "u", i, j), False, ix))) for j in range(n) for i in range(v.r)])
    Vt = Mat(n, v.c, [leaf(alg.ra(alg.atom(("el", k, "vt", i, j), False, ix))) for j in range(v.c) for i in range(n)])
    S = Mat(n, 1, [leaf(alg.ra(alg.atom(("el", k, "s", i), True, ix))) for i in range(n)])
    e = Agg("nalgebra::linalg::svd::SVD", [opt(cu, Um), opt(cv, Vt), S])
    last = c.name.split("::")[-1]
    if last.startswith("try"):
        return opt(svd_ok(v), e)
    return e


def svd_ok(v):
    """the decomposition converges (ordered or not); nalgebra decomposes 3x3 matrices through the eigenvectors of the gram matrix"""
    k = kid(("symeig", matmul(transpose(v), v)) if v.r == v.c == 3 else ("svd", v))
    return alg.bvar(("ok", k), idx_of_value(v))


@model("nalgebra::linalg::svd::SVD::sort_by_singular_values")
def _svdsort(c):
    """the sorted components of an unordered decomposition are those of the ordered one"""
    a, v = mut_base(c, c.args[0])
    if not (isinstance(v, Agg) and len(v.f) == 3):
        return NotImplemented
    ks = [alg.ATOMS[next(iter(x.v.n.atoms()))] if x.is_leaf() and isinstance(x.v, Rat) and len(x.v.n.atoms()) == 1 else None for x in v.f[2].e]
    if any(k is None or k[0] != "el" or k[2] != "s" or k[3] != i for i, k in enumerate(ks)) or len({k[1] for k in ks}) != 1:
        return NotImplemented
    src = KEYL[ks[0][1]]
    c.ip.event("svdsort", m=src[1], values=list(v.f[2].e), pc=c.st.pc, span=c.span)
    k0, k1 = ks[0][1], kid(("svd", src[1]))
    ix = idx_of_value(src[1])

    def again(x):
        if not isinstance(x, N):
            return x
        k = alg.ATOMS[next(iter(x.v.n.atoms()))]
        return leaf(alg.ra(alg.atom((k[0], k1) + k[2:], k[2] == "s", ix)))

    def each(o):
        return Enum(o.path, o.discr, {d: tuple(mmap(again, x) if isinstance(x, Mat) else x for x in p) for d, p in o.payd().items()}) if isinstance(o, Enum) else o
    c.ip.write_ref(c.st, a, Agg(v.tag, [each(v.f[0]), each(v.f[1]), mmap(again, v.f[2])]))
    return UNIT


@model("nalgebra::linalg::svd::SVD::recompose")
def _recompose(c):
    v = c.v(0)
    u, vt, s = v.f
    um, vm = u.payd().get(1, (None,))[0], vt.payd().get(1, (None,))[0]
    if um is None or vm is None:
        return Enum(RESULT, ONE, {1: (Ref(Str("SVD recomposition: U and V^t have not been computed.")),)})
    S = Mat(len(s.e), len(s.e), [s.e[i] if i == j else ZERO for j in range(len(s.e)) for i in range(len(s.e))])
    r = matmul(matmul(um, S), vm)
    okc = band(is_variant(u, 1), is_variant(vt, 1))
    return Enum(RESULT, ite(okc, ZERO, ONE), {0: (r,), 1: (Ref(Str("SVD recomposition: U and V^t have not been computed.")),)})


@model(NA + "full_piv_lu", NA + "lu", "nalgebra::linalg::full_piv_lu::FullPivLU::new", "nalgebra::linalg::lu::LU::new", NA + "qr", NA + "cholesky")
def _lu(c):
    v = c.v(0)
    solver_event(c, c.name.split("::")[-1], m=v, args=[])
    return Agg("decomp:" + c.name.split("::")[-1], [v])


@model("nalgebra::linalg::full_piv_lu::FullPivLU::solve", "nalgebra::linalg::lu::LU::solve")
def _lusolve(c):
    d, b = c.v(0), c.v(1)
    if not (isinstance(d, Agg) and d.tag.startswith("decomp:")):
        return NotImplemented
    a = d.f[0]
    k = kid(("solve", a, b))
    ix = idx_of_value(a) | idx_of_value(b)
    c.ip.event("solve", a=a, b=b, pc=c.st.pc, span=c.span)
    x = Mat(a.c, b.c, [leaf(alg.ra(alg.atom(("el", k, i, j), False, ix))) for j in range(b.c) for i in range(a.c)])
    return opt(alg.bvar(("ok", k), ix), x)


@model("nalgebra::linalg::full_piv_lu::FullPivLU::is_invertible", "nalgebra::linalg::lu::LU::is_invertible")
def _luinv(c):
    d = c.v(0)
    return bnot(alg.eq0(det(d.f[0]))) if d.f[0].r <= 4 else NotImplemented


@model(NA + "complex_eigenvalues", NA + "eigenvalues", NA + "schur", NA + "try_schur", "nalgebra::linalg::schur::Schur::try_new", "nalgebra::linalg::schur::Schur::new")
def _ceig(c):
    v = c.v(0)
    rest = [c.v(i) for i in range(1, len(c.args))]
    solver_event(c, c.name.split("::")[-1], m=v, args=rest)
    last = c.name.split("::")[-1]
    k = kid(("ceig", v))
    if "schur" in c.name.lower():
        e = Agg("decomp:schur", [v])
        return opt(alg.bvar(("okschur", k)), e) if last.startswith("try") else e
    if last == "eigenvalues":
        n = v.r
        return opt(alg.bvar(("allreal", k)), Mat(n, 1, [leaf(alg.ra(alg.atom(("el", k, "re", i)))) for i in range(n)]))
    return Mat(v.r, 1, [ONE] * 0 or [leaf(alg.ra(alg.atom(("cplx", k, i)))) for i in range(v.r)]) if False else CMat(v, k)


def CMat(v, k):
    return arr([Agg("num_complex::Complex", [leaf(alg.ra(alg.atom(("el", k, "re", i)))), leaf(alg.ra(alg.atom(("el", k, "im", i))))]) for i in range(v.r)])


@model("nalgebra::linalg::schur::Schur::complex_eigenvalues")
def _sceig(c):
    v = c.v(0).f[0]
    return CMat(v, kid(("ceig", v)))


@model("nalgebra::linalg::schur::Schur::eigenvalues")
def _seig(c):
    v = c.v(0).f[0]
    k = kid(("ceig", v))
    n = v.r
    return opt(alg.bvar(("allreal", k)), Mat(n, 1, [leaf(alg.ra(alg.atom(("el", k, "re", i)))) for i in range(n)]))


# ---------------------------------------------------------------- floats
def f1(name, f):
    def g(c):
        v = c.v(0)
        return f(v) if isinstance(v, N) else NotImplemented
    for p in ("<f64>::", "num_traits::float::Float::", "std::f64::", "<f32>::", "core::f64::", "simba::scalar::complex::ComplexField::", "nalgebra::ComplexField::", "num_traits::real::Real::", "simba::scalar::real::RealField::", "num_traits::sign::Signed::", "<i32>::", "<i64>::", "<isize>::"):
        M.setdefault(p + name, g)


f1("abs", alg.absv)
f1("sqrt", alg.sqrt)
f1("recip", lambda v: alg.div(ONE, v))
f1("is_nan", alg.isnan)
f1("is_finite", alg.isfin)
f1("is_sign_negative", alg.lt0)
f1("is_sign_positive", lambda v: bnot(alg.lt0(v)))
f1("signum", lambda v: ite(alg.lt0(v), num(-1), ONE))
f1("is_infinite", lambda v: band(bnot(alg.isfin(v)), bnot(alg.isnan(v))))
for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "floor", "ceil", "round", "trunc", "cbrt", "fract"):
    f1(_n, (lambda n: lambda v: alg.fn(n, v))(_n))


@model("<f64>::recip", "num_traits::float::Float::recip")
def _recip(c):
    v = c.v(0)
    logdiv(c, ONE, v)
    return alg.div(ONE, v)


@model("<f64>::powi", "num_traits::float::Float::powi", "std::f64::<impl f64>::powi")
def _powi(c):
    v, k = c.v(0), c.v(1)
    n = cint(k)
    r = ONE
    for _ in range(abs(n)):
        r = alg.mul(r, v)
    return r if n >= 0 else alg.div(ONE, r)


@model("<f64>::powf")
def _powf(c):
    v, k = c.v(0), c.v(1)
    if k.is_leaf() and k.v.const() is not None:
        x = k.v.const()
        if x == int(x) and abs(x) < 10:
            r = ONE
            for _ in range(abs(int(x))):
                r = alg.mul(r, v)
            return r if x >= 0 else alg.div(ONE, r)
        from fractions import Fraction
        if x == Fraction(1, 2):
            return alg.sqrt(v)
    return alg.fn("powf", v, k)


@model("<f64>::mul_add", "num_traits::float::Float::mul_add")
def _muladd(c):
    return alg.add(alg.mul(c.v(0), c.v(1)), c.v(2))


@model("<f64>::hypot", "num_traits::float::Float::hypot")
def _hypot(c):
    a, b = c.v(0), c.v(1)
    return alg.sqrt(alg.add(alg.mul(a, a), alg.mul(b, b)))


@model("<f64>::max", "num_traits::float::Float::max", "core::cmp::Ord::max", "core::cmp::max")
def _max(c):
    a, b = c.v(0), c.v(1)
    return ite(alg.lt(a, b), b, a)


@model("<f64>::min", "num_traits::float::Float::min", "core::cmp::Ord::min", "core::cmp::min")
def _min(c):
    a, b = c.v(0), c.v(1)
    return ite(alg.lt(b, a), b, a)


@model("<f64>::clamp", "core::cmp::Ord::clamp")
def _clamp(c):
    x, a, b = c.v(0), c.v(1), c.v(2)
    return ite(alg.lt(x, a), a, ite(alg.lt(b, x), b, x))


@model("<f64>::atan2", "<f64>::powf2", "<f64>::copysign", "<f64>::rem_euclid")
def _fn2(c):
    return alg.fn(c.name.split("::")[-1], c.v(0), c.v(1))


@model("<f64>::sin_cos")
def _sincos(c):
    return Agg("tuple", [alg.fn("sin", c.v(0)), alg.fn("cos", c.v(0))])


@model("<f64>::to_bits", "num_traits::float::FloatCore::to_bits")
def _tobits(c):
    v = c.v(0)
    # order preserving on non-negative floats: identity there, above all of those for negative numbers, opaque elsewhere
    def neg(r):
        k = r.const()
        return num(2 ** 1100 - k) if k is not None and k < 0 else None
    return alg.map1("bits", lambda r: leaf(r) if alg.rat_nonneg(r) else neg(r) or leaf(alg.ra(alg.atom(("fn", "bits", r), True, alg.idx_of(r)))), v)


@model("num_traits::float::Float::epsilon", "<f64>::epsilon", "simba::scalar::real::RealField::default_epsilon", "approx::abs_diff_eq::AbsDiffEq::default_epsilon")
def _eps(c):
    from fractions import Fraction
    return num(Fraction(1, 2 ** 52))


@model("<usize>::wrapping_add", "<usize>::wrapping_sub", "<usize>::saturating_sub")
def _wrap(c):
    a, b = c.v(0), c.v(1)
    r = alg.add(a, b) if "add" in c.name else alg.sub(a, b)
    if "saturating" in c.name:
        return ite(alg.lt0(r), ZERO, r)
    return r


@model("<usize>::pow", "<i32>::pow", "<u32>::pow")
def _ipow(c):
    return _powi(c)


# ---------------------------------------------------------------- sequences
def segs_of(v):
    return list(v.segs)


def to_segs(ip, st, v):
    from .interp import Unsupported
    while isinstance(v, (MRef, MSel, Ref)):
        v = ip.deref(st, v)
    if isinstance(v, Lst):
        return list(v.segs)
    if isinstance(v, Mat):
        return [("i", T, e) for e in v.e]
    if isinstance(v, Enum) and v.path in (OPTION,):
        p = v.payd().get(1)
        return [("i", is_variant(v, 1), p[0])] if p else []
    if isinstance(v, Enum) and v.path in (RESULT,):
        p = v.payd().get(0)
        return [("i", is_variant(v, 0), p[0])] if p else []
    if isinstance(v, Agg) and v.tag in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        a, b = v.f[0], v.f[1]
        inc = 1 if v.tag.endswith("Inclusive") else 0
        n = alg.sub(b, a)
        if n.is_leaf() and n.v.const() is not None:
            k = int(n.v.const()) + inc
            if k > ip.unroll:
                src = "range(%s..%s)" % (alg.show(a), k)
                ip.ranges[src] = num(k)
                return [("a", T, src, alg.add(a, leaf(alg.ra(alg.atom(("idx", src), True, (src,))))))]
            return [("i", T, alg.add(a, num(i))) for i in range(max(0, k))]
        if n.is_leaf() or True:
            m = alg.add(n, num(inc))
            src = "range(%s)" % alg.show(m)
            ip.ranges[src] = m
            ia = leaf(alg.ra(alg.atom(("idx", src), True, (src,))))
            return [("a", T, src, alg.add(a, ia))]
    if isinstance(v, Lazy):
        return lazy_segs(ip, st, v)
    if isinstance(v, Opq):
        src = "opq:%s" % kid(v)
        return [("a", T, src, Opq(("elem", v, src)))]
    raise Unsupported("iterate over %r" % (v,))


def guard_call(ip, st, g, f):
    """run f in a state whose side effects are kept under guard g"""
    if g is T:
        return f(st)
    s2 = st.copy(band(st.pc, g))
    r = f(s2)
    for cell, x in s2.m.items():
        o = st.m.get(cell)
        if o is not x:
            st.m[cell] = vite(g, x, o)
    return r


def lazy_segs(ip, st, v):
    from .interp import Unsupported
    op = v.op
    if op in ("map", "inspect"):
        out = []
        for s in to_segs(ip, st, v.a[0]):
            if s[0] == "i":
                x = guard_call(ip, st, s[1], lambda z: ip.call_value(z, v.a[1], [s[2] if op == "map" else Ref(s[2])]))
                out.append(("i", s[1], x if op == "map" else s[2]))
            elif s[0] == "a":
                x = pure_call(ip, st, v.a[1], [s[3] if op == "map" else Ref(s[3])])
                out.append(("a", s[1], s[2], x if op == "map" else s[3]))
            else:
                raise Unsupported("map over %s" % s[0])
        return out
    if op == "enumerate":
        out = []
        n = ZERO
        for s in to_segs(ip, st, v.a[0]):
            if s[0] == "i":
                out.append(("i", s[1], Agg("tuple", [n, s[2]])))
                n = alg.add(n, ite(s[1], ONE, ZERO))
            else:
                ia = leaf(alg.ra(alg.atom(("idx", s[2]), True, (s[2],))))
                out.append(("a", s[1], s[2], Agg("tuple", [alg.add(n, ia), s[3]])))
                n = alg.add(n, alg.seqsum(s[2], ite(s[1], ONE, ZERO)))
        return out
    if op == "zip":
        a, b = to_segs(ip, st, v.a[0]), to_segs(ip, st, v.a[1])
        out = []
        i = 0
        while i < len(a) and i < len(b):
            x, y = a[i], b[i]
            if x[0] == "i" and y[0] == "i" and x[1] is T and y[1] is T:
                out.append(("i", T, Agg("tuple", [x[2], y[2]])))
            elif x[0] == "a" and y[0] == "a" and x[2] == y[2] and x[1] is y[1]:
                out.append(("a", x[1], x[2], Agg("tuple", [x[3], y[3]])))
            elif x[0] == "a" and y[0] == "a":
                raise Unsupported("zip of different sequences")
            elif x[0] == "a" and y[0] == "i" or x[0] == "i" and y[0] == "a":
                # finite vs abstract: treat abstract as its first elements when all of the other side is concrete
                ab, co = (x, b) if x[0] == "a" else (y, a)
                if ab[2].startswith("count"):
                    k = 0
                    for z in co[i:]:
                        e = alg.num(k)
                        out.append(("i", z[1], Agg("tuple", [z[2], e] if x[0] == "i" else [e, z[2]])))
                        k += 1
                    return out
                if ab[1] is not T or any(z[0] != "i" or z[1] is not T for z in co[i:]) or len(a if x[0] == "a" else b) != i + 1:
                    raise Unsupported("zip of abstract and concrete sequence")
                for k, z in enumerate(co[i:]):
                    e = ip.first_of(ab, num(k))
                    g = alg.bvar(("has", ab[2], k), (ab[2],))
                    out.append(("i", band(g, out[-1][1] if k else T), Agg("tuple", [z[2], e] if x[0] == "i" else [e, z[2]])))
                return out
            elif all(z[0] == "i" for z in a[i:] + b[i:]) and len(a) - i <= 12 and len(b) - i <= 12:
                for x, y in zip(compact(a[i:]), compact(b[i:])):
                    out.append(("i", band(x[1], y[1]), Agg("tuple", [x[2], y[2]])))
                return out
            else:
                raise Unsupported("zip of guarded sequence")
            i += 1
        return out
    if op == "chain":
        return to_segs(ip, st, v.a[0]) + to_segs(ip, st, v.a[1])
    if op in ("filter", "filter_map", "flat_map", "flatten", "map_while", "take_while"):
        out = []
        go = T
        for s in to_segs(ip, st, v.a[0]):
            ab = s[0] == "a"
            e = s[3] if ab else s[2]
            arg = [Ref(e)] if op in ("filter", "take_while") else [e]
            if op == "flatten":
                r = e
            elif ab:
                r = pure_call(ip, st, v.a[1], arg)
            elif op in ("map_while", "take_while"):
                r = guard_call(ip, st, band(s[1], go), lambda z: ip.call_value(z, v.a[1], arg))
                if op == "take_while":
                    go = band(go, bor(bnot(s[1]), r))
                    out.append(("i", band(s[1], go), s[2]))
                else:
                    r = ip.strip(st, r)
                    if not isinstance(r, Enum):
                        raise Unsupported("map_while result")
                    go = band(go, bor(bnot(s[1]), is_variant(r, 1)))
                    if 1 in r.payd():
                        out.append(("i", band(s[1], go), r.payd()[1][0]))
                continue
            else:
                r = guard_call(ip, st, s[1], lambda z: ip.call_value(z, v.a[1], arg))
            if op == "filter":
                out.append((s[0], band(s[1], r)) + tuple(s[2:]))
            elif op == "filter_map":
                r = ip.strip(st, r)
                if not isinstance(r, Enum):
                    raise Unsupported("filter_map result")
                p = r.payd().get(1)
                if p:
                    out.append((s[0], band(s[1], is_variant(r, 1))) + ((s[2], p[0]) if ab else (p[0],)))
            elif op in ("flat_map", "flatten"):
                inner = to_segs(ip, st, r)
                for z in inner:
                    if ab:
                        if z[0] == "i":
                            out.append(("a", band(s[1], z[1]), s[2], z[2]))
                        else:
                            raise Unsupported("nested abstract flat_map")
                    else:
                        out.append((z[0], band(s[1], z[1])) + tuple(z[2:]))
                if ab and len(inner) > 1:
                    # order is interleaved; keep one compound marker per element
                    pass
            else:
                raise Unsupported(op)
        return out
    if op == "take":
        segs = to_segs(ip, st, v.a[0])
        n = v.a[1]
        if n.is_leaf() and n.v.const() is not None:
            k = int(n.v.const())
            cut_event(ip, segs, "take")
            out = []
            for s in segs:
                if len(out) == k:
                    break
                if s[0] == "a":
                    out2 = [("i", bnot(short_var(s[2], j)), ip.first_of(s, j)) for j in range(k - len(out))]
                    return out + out2
                if s[1] is not T:
                    return guarded_window(segs, k, True)
                out.append(s)
            return out
        raise Unsupported("take symbolic")
    if op == "skip":
        segs = to_segs(ip, st, v.a[0])
        k = cint(v.a[1])
        if k:
            cut_event(ip, segs, "skip")
        while k and segs and segs[0][0] == "i" and segs[0][1] is T:
            segs = segs[1:]
            k -= 1
        if k and segs and all(x[0] == "i" for x in segs):
            return guarded_window(segs, k, False)
        if k:
            if segs and segs[0][0] == "a" and len(segs) == 1:
                s = segs[0]
                from .interp import subst_src
                return [("a", s[1], "%s[%d..]" % (s[2], k), subst_src(s[3], s[2], "%s[%d..][i]" % (s[2], k)))] if False else [("a", s[1], s[2] + "+%d" % k, s[3])]
            raise Unsupported("skip")
        return segs
    if op == "rev":
        return list(reversed(to_segs(ip, st, v.a[0])))
    if op == "step_by":
        segs = to_segs(ip, st, v.a[0])
        k = cint(v.a[1])
        if k > 1:
            cut_event(ip, segs, "step_by")
        if all(s[0] == "i" and s[1] is T for s in segs):
            return segs[::k]
        raise Unsupported("step_by")
    if op == "copied":
        return [(s[0], s[1]) + ((ip.strip(st, s[2]),) if s[0] == "i" else (s[2], ip.strip(st, s[3]))) for s in to_segs(ip, st, v.a[0])]
    if op == "chunks" or op == "chunks_exact":
        segs = to_segs(ip, st, v.a[0])
        k = cint(v.a[1])
        if not all(s[0] == "i" and s[1] is T for s in segs):
            raise Unsupported("chunks of abstract sequence")
        out = []
        for i in range(0, len(segs), k):
            if op == "chunks_exact" and i + k > len(segs):
                break
            out.append(("i", T, Ref(Lst(segs[i:i + k]))))
        return out
    if op == "windows":
        segs = to_segs(ip, st, v.a[0])
        k = cint(v.a[1])
        return [("i", T, Ref(Lst(segs[i:i + k]))) for i in range(0, len(segs) - k + 1)]
    if op == "cycle":
        raise Unsupported("cycle")
    raise Unsupported("lazy " + op)


def compact(segs):
    """the same sequence with its present items first: position k holds the k-th item that is present"""
    out = []
    for s in reversed(segs):
        g, x = s[1], s[2]
        if g is T:
            out = [("i", T, x)] + out
            continue
        new = []
        for k in range(len(out) + 1):
            p, v = (T, x) if k == 0 else out[k - 1][1:]
            q, w = out[k][1:] if k < len(out) else (F, v)
            new.append(("i", ite(g, p, q), vite(g, v, w)))
        out = new
    return out


def guarded_window(segs, k, first):
    """the first k present items, or all but those"""
    from .interp import Unsupported
    if any(x[0] != "i" for x in segs):
        raise Unsupported("take or skip on a mixed sequence")
    cnt = [T] + [F] * (k - 1) if k else []      # exactly j items present so far
    out = []
    for s in segs:
        early = bor(*cnt) if cnt else F
        out.append(("i", band(s[1], early if first else bnot(early)), s[2]))
        cnt = [bor(band(c, bnot(s[1])), band(cnt[j - 1], s[1]) if j else F) for j, c in enumerate(cnt)]
    return [s for s in out if s[1] is not F]


def short_var(src, j):
    """the sequence has at most j elements"""
    if j == 0:
        return alg.bvar(("empty", src))
    return alg.bvar(("shorter", src, j))


def pure_call(ip, st, f, args):
    """call a closure on a generic element; side effects on the state are not allowed"""
    s2 = st.copy()
    r = ip.call_value(s2, f, args)
    for cell, x in s2.m.items():
        o = st.m.get(cell)
        if o is not None and o is not x and cell in st.m and not (isinstance(o, V) and o == x):
            raise U("side effect in an abstract map closure")
    # keep fresh cells (temporaries) so that references stay valid
    for cell, x in s2.m.items():
        if cell not in st.m:
            st.m[cell] = x
    return r


IT = "core::iter::traits::iterator::Iterator::"


def lazy1(op):
    def g(c):
        return Lazy(op, *[c.args[i] for i in range(len(c.args))])
    return g


for _op in ("map", "filter", "filter_map", "flat_map", "zip", "chain", "enumerate", "take", "skip", "rev", "step_by", "inspect", "map_while", "take_while", "cycle", "flatten"):
    M[IT + _op] = lazy1(_op)
for _op in ("copied", "cloned"):
    M[IT + _op] = lazy1("copied")
for _op in ("fuse", "by_ref", "peekable"):
    M[IT + _op] = lambda c: c.args[0]


@model("core::iter::traits::collect::IntoIterator::into_iter")
def _intoiter(c):
    if c.f.get("key"):
        return NotImplemented
    a = c.args[0]
    if isinstance(a, (MRef, MSel)):
        b, v = mut_base(c, a)
        tn = arg_ty(c, 0)
        if isinstance(v, Lst) and v.kind == "arr":
            return iter_mut(b, v)
        if isinstance(v, Mat):
            return iter_mut(b, v)
        return a
    v = c.v(0)
    if isinstance(a, Ref):
        if isinstance(v, Lst):
            return Lst([(s[0], s[1], Ref(s[2])) if s[0] == "i" else (s[0], s[1], s[2], Ref(s[3])) for s in v.segs], "it")
        if isinstance(v, Mat):
            return Lst([("i", T, Ref(e)) for e in v.e], "it")
        if isinstance(v, Enum) and v.path == OPTION:
            p = v.payd().get(1)
            return Lst([("i", is_variant(v, 1), Ref(p[0]))] if p else [], "it")
    if isinstance(v, Lst):
        return Lst(v.segs, "it")
    if isinstance(v, Mat):
        return Lst([("i", T, e) for e in v.e], "it")
    if isinstance(v, Enum):
        return Lst(to_segs(c.ip, c.st, v), "it")
    return v


def iter_mut(b, v):
    if isinstance(v, Mat):
        return Lst([("i", T, ext(b, ("mi", i))) for i in range(len(v.e))], "it")
    if v.items() is None:
        raise U("iter_mut over abstract sequence")
    return Lst([("i", T, ext(b, ("li", i))) for i in range(len(v.segs))], "it")


@model("<[T]>::iter", NA + "iter", "nalgebra::geometry::point::OPoint::iter", "arrayvec::arrayvec::ArrayVec::iter", "alloc::vec::Vec::iter", "core::option::Option::iter")
def _iter(c):
    v = c.v(0)
    if isinstance(v, Mat):
        return Lst([("i", T, Ref(e)) for e in v.e], "it")
    if isinstance(v, Lst):
        return Lst([(s[0], s[1], Ref(s[2])) if s[0] == "i" else (s[0], s[1], s[2], Ref(s[3])) for s in v.segs], "it")
    if isinstance(v, Enum):
        p = v.payd().get(1)
        return Lst([("i", is_variant(v, 1), Ref(p[0]))] if p else [], "it")
    return NotImplemented


@model("<[T]>::iter_mut", NA + "iter_mut", "nalgebra::geometry::point::OPoint::iter_mut", "arrayvec::arrayvec::ArrayVec::iter_mut")
def _itermut(c):
    b, v = mut_base(c, c.args[0])
    if isinstance(v, (Mat, Lst)):
        return iter_mut(b, v)
    return NotImplemented


@model("core::iter::sources::once::once")
def _once(c):
    return Lst([("i", T, c.args[0])], "it")


@model("core::iter::sources::empty::empty")
def _empty(c):
    return Lst([], "it")


@model("core::iter::sources::repeat::repeat", "core::iter::sources::repeat_n::repeat_n")
def _repeat(c):
    if c.name.endswith("repeat_n"):
        return Lst([("i", T, c.args[0])] * cint(c.v(1)), "it")
    return NotImplemented


@model("core::iter::adapters::zip::zip", "core::iter::zip")
def _zipf(c):
    return Lazy("zip", c.args[0], c.args[1])


@model("<[T]>::chunks", "<[T]>::chunks_exact", "<[T]>::windows")
def _chunks(c):
    return Lazy(c.name.split("::")[-1], c.args[0], c.v(1))


@model("<[T]>::is_empty", "arrayvec::arrayvec::ArrayVec::is_empty", NA + "is_empty")
def _isempty(c):
    v = c.v(0)
    if isinstance(v, Mat):
        return T if not v.e else F
    if isinstance(v, Lst):
        return seq_empty(c.ip, v.segs)
    return NotImplemented


def seq_empty(ip, segs):
    r = T
    for s in segs:
        if s[0] == "i":
            r = band(r, bnot(s[1]))
        elif s[0] == "a":
            if s[1] is T:
                r = band(r, alg.bvar(("empty", s[2])))
            else:
                r = band(r, alg.seqall(s[2], bnot(s[1])))
        else:
            r = band(r, alg.bvar(("emptymu", s)))
    return r


@model("<[T]>::len", NA + "len", "arrayvec::arrayvec::ArrayVec::len", "core::iter::traits::exact_size::ExactSizeIterator::len", "<[T;N]>::len", "alloc::vec::Vec::len")
def _len(c):
    v = c.v(0)
    if isinstance(v, (Mat, Lst)):
        return c.ip.length(v)
    if isinstance(v, Lazy):
        return c.ip.length(Lst(to_segs(c.ip, c.st, v)))
    return NotImplemented


@model(NA + "nrows", NA + "ncols", NA + "shape")
def _dims(c):
    v = c.v(0)
    n = c.name.split("::")[-1]
    return num(v.r) if n == "nrows" else num(v.c) if n == "ncols" else Agg("tuple", [num(v.r), num(v.c)])


@model("nalgebra::base::dimension::DimName::dim")
def _dimname(c):
    from .interp import Ty
    n = c.ip.dimof(c.targ(0)) if not isinstance(c.targ(0), str) else int(c.targ(0))
    if n is None:
        raise U("dimension")
    return num(n)


@model("<[T]>::first", "<[T]>::last")
def _firstlast(c):
    v = c.v(0)
    it = v.items() if isinstance(v, Lst) else None
    if it is not None:
        if not it:
            return NONE
        return Some(Ref(it[0] if c.name.endswith("first") else it[-1]))
    if isinstance(v, Lst) and len(v.segs) == 1 and c.name.endswith("first"):
        s = v.segs[0]
        if s[0] == "a":
            return opt(bnot(short_var(s[2], 0)), Ref(c.ip.first_of(s, 0)))
    return NotImplemented


@model(IT + "count")
def _count(c):
    return c.ip.length(Lst(to_segs(c.ip, c.st, c.v(0))))


@model(IT + "all", IT + "any")
def _all(c):
    a = c.args[0]
    isall = c.name.endswith("all")
    it = c.v(0)
    segs = to_segs(c.ip, c.st, it)
    r = T if isall else F
    for s in segs:
        if s[0] == "i":
            p = guard_call(c.ip, c.st, s[1], lambda z: c.ip.call_value(z, c.args[1], [s[2]]))
            p = c.ip.strip(c.st, p)
            r = band(r, bor(bnot(s[1]), p)) if isall else bor(r, band(s[1], p))
        elif s[0] == "a":
            p = pure_call(c.ip, c.st, c.args[1], [s[3]])
            if isall:
                r = band(r, alg.seqall(s[2], bor(bnot(s[1]), p)))
            else:
                r = bor(r, bnot(alg.seqall(s[2], bnot(band(s[1], p)))))
        else:
            raise U("all")
    if isinstance(a, (MRef, MSel)):
        c.ip.write_ref(c.st, a, Lst([], "it"))
    return r


@model(IT + "sum")
def _sum(c):
    if c.f.get("key"):
        return NotImplemented
    segs = to_segs(c.ip, c.st, c.v(0))
    # user-defined Sum impl?
    via = c.f.get("via")
    if via is not None and via.get("key"):
        bd = c.ip.body(via["key"])
        if bd is not None:
            return c.ip.call_body(c.st, bd, [Lst(segs, "it")])
    tot = None
    for s in segs:
        x = c.ip.strip(c.st, s[2] if s[0] == "i" else s[3])

        def lift(n):
            n = ite(s[1], n, ZERO)
            return n if s[0] == "i" else alg.seqsum(s[2], n)
        if isinstance(x, N):
            y = lift(x)
            tot = y if tot is None else alg.add(tot, y)
        elif isinstance(x, Mat):
            y = mmap(lift, x)
            tot = y if tot is None else mzip(alg.add, tot, y)
        else:
            return NotImplemented
    if tot is None:
        return ZERO if c.rty is None or c.rty.k != "adt" else zeros(*shape_of(c))
    return tot


@model(IT + "product")
def _product(c):
    segs = to_segs(c.ip, c.st, c.v(0))
    tot = ONE
    for s in segs:
        if s[0] != "i":
            return NotImplemented
        tot = alg.mul(tot, ite(s[1], c.ip.strip(c.st, s[2]), ONE))
    return tot


@model(IT + "fold", IT + "for_each", IT + "try_for_each", IT + "try_fold", IT + "reduce")
def _fold(c):
    name = c.name.split("::")[-1]
    if name.startswith("try"):
        return NotImplemented
    segs = to_segs(c.ip, c.st, c.v(0))
    if name == "reduce":
        acc = NONE
        if any(s[0] != "i" or s[1] is not T for s in segs):
            return NotImplemented
        if not segs:
            return NONE
        acc = segs[0][2]
        for s in segs[1:]:
            acc = c.ip.call_value(c.st, c.args[1], [acc, s[2]])
        return Some(acc)
    acc = c.args[1] if name == "fold" else UNIT
    f = c.args[2] if name == "fold" else c.args[1]
    for s in segs:
        if s[0] == "i":
            r = guard_call(c.ip, c.st, s[1], lambda z: c.ip.call_value(z, f, [acc, s[2]] if name == "fold" else [s[2]]))
            if name == "fold":
                acc = vite(s[1], r, acc)
        elif s[0] == "a":
            acc = abstract_fold(c, s, acc, f, name == "fold")
        else:
            raise U("fold")
    return acc


def abstract_fold(c, s, acc, f, isfold):
    """summarise a fold over an abstract sequence the same way as an explicit loop"""
    from . import interp as I
    ip, st = c.ip, c.st
    src, g, elem = s[2], s[1], s[3]
    ip.loopdepth += 1
    lid = "μ%d" % ip.loopdepth
    try:
        cell = ("fold", ip.loopdepth, c.fr.body.key)
        st.m[cell] = acc
        changed = {}
        for rnd in range(8):
            s2 = st.copy()
            mu = {}
            for ce in changed:
                s2.m[ce] = ip.havoc(st.m[ce], changed[ce], (lid, c.fr.body.key, repr(ce[1:])), mu)
            start = dict(s2.m)
            ip.quiet += 1
            try:
                r = ip.call_value(s2, f, [s2.m[cell], elem] if isfold else [elem])
            finally:
                ip.quiet -= 1
            if isfold:
                s2.m[cell] = r
            new = False
            for ce, v in st.m.items():
                v2 = s2.m.get(ce)
                if v is None or v2 is None:
                    continue
                ch = I.diff_paths(start[ce], v2)
                if ch - changed.get(ce, frozenset()):
                    changed[ce] = changed.get(ce, frozenset()) | ch
                    new = True
            if not new:
                break
        else:
            raise U("fold does not stabilise")
        s2 = st.copy()
        mu = {}
        for ce in changed:
            s2.m[ce] = ip.havoc(st.m[ce], changed[ce], (lid, c.fr.body.key, repr(ce[1:])), mu)
        start = dict(s2.m)
        r = ip.call_value(s2, f, [s2.m[cell], elem] if isfold else [elem])
        if isfold:
            s2.m[cell] = r
        muset = set()
        for n_ in mu.values():
            muset |= I._muids(n_)
        allkey = kid(("loop", src, g, tuple(st.m[ce] for ce in changed), tuple(s2.m[ce] for ce in changed)))
        rec = dict(fn=c.fr.body.j["path"], src=src, header=None, elem=elem, guard=g, cells=[], exits=[], pc=st.pc)
        fin = {}
        for ce in changed:
            fin[ce] = ip.close(st.m[ce], start[ce], s2.m[ce], src, g, muset, allkey, (c.fr.body.key, repr(ce[1:])))
            rec["cells"].append(dict(cell=ce, name="acc" if ce == cell else repr(ce), init=st.m[ce], mu=start[ce], step=s2.m[ce], final=fin[ce]))
        if not ip.quiet:
            ip.loops.append(rec)
        for ce, v in fin.items():
            st.m[ce] = v
        return st.m.pop(cell)
    finally:
        ip.loopdepth -= 1


@model(IT + "min_by_key", IT + "max_by_key", IT + "min_by", IT + "max_by", IT + "min", IT + "max")
def _minby(c):
    name = c.name.split("::")[-1]
    segs = [s for s in to_segs(c.ip, c.st, c.v(0)) if s[1] is not F]
    if not all(s[0] == "i" for s in segs):
        return NotImplemented
    if not segs:
        return NONE
    items = [s[2] for s in segs]
    ismin = name.startswith("min")
    if not all(s[1] is T for s in segs):
        return guarded_min(c, name, segs, ismin)
    if name.endswith("key"):
        keys = [c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [Ref(x)])) for x in items]
    elif name in ("min", "max"):
        keys = [c.ip.strip(c.st, x) for x in items]
    else:
        keys = comparator_keys(c, items)
    if keys is not None:
        keys = [plain_key(k) for k in keys]
        if any(k is None for k in keys):
            keys = None
    if keys is not None and len(items) > 2:
        cs = [k.v.const() if k.is_leaf() and isinstance(k.v, Rat) else None for k in keys]
        if all(x is not None for x in cs):
            # min keeps the first of equals, max keeps the last
            return Some(items[min(range(len(cs)), key=lambda i: cs[i]) if ismin else max(range(len(cs)), key=lambda i: (cs[i], i))])
        return Some(c.ip.symsel(items, argsel(keys, ismin)))
    best, bk = items[0], keys[0] if keys else None
    for j in range(1, len(items)):
        if keys:
            # min keeps the first of equals, max keeps the last
            cnd = alg.lt(keys[j], bk) if ismin else bnot(alg.lt(keys[j], bk))
        else:
            if name.endswith("key") or name in ("min", "max"):
                return NotImplemented
            o = c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [Ref(best), Ref(items[j])]))
            if not isinstance(o, Enum):
                return NotImplemented
            gt = alg.gt0(o.discr)
            cnd = gt if ismin else bnot(gt)
        best = vite(cnd, items[j], best)
        if keys:
            bk = ite(cnd, keys[j], bk)
    return Some(best)


def guarded_min(c, name, segs, ismin):
    """the best of items that may be absent"""
    if len(segs) > 4 or not (name.endswith("key") or name in ("min", "max")):
        return NotImplemented
    have, best, bk = F, None, None
    for _, g, x in segs:
        k = c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [Ref(x)]) if name.endswith("key") else x)
        k = plain_key(k)
        if k is None:
            return NotImplemented
        if best is None:
            have, best, bk = g, x, k
            continue
        better = alg.lt(k, bk) if ismin else bnot(alg.lt(k, bk))
        take = band(g, bor(bnot(have), better))
        best, bk, have = vite(take, x, best), ite(take, k, bk), bor(have, g)
    return opt(have, best)


def plain_key(k):
    """scalar sort key: wrappers that only totalise the order of floats are dropped"""
    neg = False
    while isinstance(k, Agg) and len(k.f) == 1:
        if k.tag.endswith("cmp::Reverse"):
            neg = not neg
        k = k.f[0]
        while isinstance(k, Ref):
            k = k.v
    if not isinstance(k, N):
        return None
    if k.is_leaf() and isinstance(k.v, Rat) and not k.v.d and len(k.v.n.t) == 1:
        (m, co), = k.v.n.t.items()
        if len(m) == 1 and m[0][1] == 1 and co == 1:
            ak = alg.ATOMS[m[0][0]]
            # bit patterns order nonnegative floats as their values
            if ak[0] == "fn" and ak[1] == "to_bits" and alg.lt0(leaf(ak[2])) is F:
                k = leaf(ak[2])
    return alg.neg(k) if neg else k


def argsel(keys, ismin):
    """position of the least (greatest) key as an opaque index"""
    ks = tuple(k if ismin else alg.neg(k) for k in keys)
    key = ("argmin", ks)
    ix = frozenset()
    for k in ks:
        ix |= alg.idx_of_add(k)
    return leaf(alg.ra(alg.atom(key, True, ix)))


def comparator_keys(c, items):
    """recognise a comparator closure |a, b| cmp(k(a), k(b)) for a scalar component k"""
    if len(items) < 2:
        return None
    items = [c.ip.strip(c.st, x) for x in items]
    res = [c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [Ref(items[i]), Ref(items[i + 1])])) for i in range(len(items) - 1)]
    if not all(isinstance(r, Enum) for r in res):
        return None
    cand = [scalars(x) for x in items]
    n = len(cand[0])
    if any(len(x) != n for x in cand):
        return None
    for j in range(n):
        for f in (lambda x: x, alg.absv, alg.neg):
            ks = [f(x[j][1]) for x in cand]
            if any(not (k.is_leaf() and isinstance(k.v, Rat)) for k in ks):
                continue
            if all(r.discr is ordering(ks[i], ks[i + 1]).discr for i, r in enumerate(res)):
                return ks
    return None


@model(NA + "imin", NA + "imax", NA + "iamin", NA + "iamax", NA + "argmin", NA + "argmax")
def _imin(c):
    v = c.v(0)
    n = c.name.split("::")[-1]
    ks = [alg.absv(x) for x in v.e] if n.startswith("ia") else list(v.e)
    i = argsel(ks, n.endswith("min"))
    if n.startswith("arg"):
        return Agg("tuple", [i, c.ip.symsel(list(v.e), i)])
    return i


@model(IT + "find", IT + "find_map", IT + "position")
def _find(c):
    name = c.name.split("::")[-1]
    a = c.args[0]
    segs = to_segs(c.ip, c.st, c.v(0))
    res = NONE
    if len(segs) == 1 and segs[0][0] == "a":
        s = segs[0]
        e = s[3]
        r = c.ip.strip(c.st, pure_call(c.ip, c.st, c.args[1], [Ref(e) if name == "find" else e]))
        if name == "find":
            cond, val = band(s[1], r), e
        elif name == "find_map":
            if not isinstance(r, Enum):
                return NotImplemented
            cond, val = band(s[1], is_variant(r, 1)), r.payd().get(1, (UNIT,))[0]
        else:
            return NotImplemented
        X = bnot(alg.seqall(s[2], bnot(cond)))
        from .interp import subst_src
        return opt(X, subst_src(val, s[2], "%s[first:%d]" % (s[2], kid(cond))))
    for k, s in reversed(list(enumerate(segs))):
        if s[0] != "i":
            return NotImplemented
        e = s[2]
        r = guard_call(c.ip, c.st, s[1], lambda z: c.ip.call_value(z, c.args[1], [Ref(e) if name == "find" else e]))
        r = c.ip.strip(c.st, r)
        if name == "find":
            res = vite(band(s[1], r), Some(e), res)
        elif name == "find_map":
            res = vite(band(s[1], is_variant(r, 1)), r, res)
        else:
            res = vite(band(s[1], r), Some(num(k)), res)
    if isinstance(a, (MRef, MSel)):
        c.ip.write_ref(c.st, a, Lst([], "it"))
    return res


@model(IT + "nth")
def _nth(c):
    segs = to_segs(c.ip, c.st, c.v(0))
    k = cint(c.v(1))
    a = c.args[0]
    if all(s[0] == "i" and s[1] is T for s in segs[:k + 1]):
        if isinstance(a, (MRef, MSel)):
            c.ip.write_ref(c.st, a, Lst(segs[k + 1:], "it"))
        return Some(segs[k][2]) if k < len(segs) else NONE
    return NotImplemented


@model(IT + "last")
def _last(c):
    segs = to_segs(c.ip, c.st, c.v(0))
    v = NONE
    for s in segs:
        if s[0] != "i":
            return NotImplemented
        v = vite(s[1], Some(s[2]), v)
    return v


@model(IT + "collect", "core::iter::traits::collect::FromIterator::from_iter", "core::iter::traits::collect::Extend::extend", "arrayvec::arrayvec::ArrayVec::from_iter")
def _collect(c):
    if c.name.endswith("extend"):
        a, v = mut_base(c, c.args[0])
        segs = to_segs(c.ip, c.st, c.v(1))
        if not isinstance(v, Lst):
            return NotImplemented
        room = cap_of(c)
        if isinstance(room, int):
            c.ip.event("fill", pc=c.st.pc, span=c.span, segs=list(v.segs) + segs, cap=room)
        c.ip.write_ref(c.st, a, Lst(list(v.segs) + segs))
        return UNIT
    segs = to_segs(c.ip, c.st, c.args[0] if not isinstance(c.args[0], (MRef, MSel)) else c.v(0))
    p = c.rty.j.get("path", "") if c.rty is not None else ""
    if p in (OPTION, RESULT):
        # collect of options: Some(all) or None
        okc = T
        out = []
        good = 1 if p == OPTION else 0
        for s in segs:
            x = s[2] if s[0] == "i" else s[3]
            if not isinstance(x, Enum):
                return NotImplemented
            ok = is_variant(x, good)
            pv = x.payd().get(good, (None,))[0]
            if s[0] == "i":
                okc = band(okc, bor(bnot(s[1]), ok))
                out.append(("i", s[1], pv))
            else:
                okc = band(okc, alg.seqall(s[2], bor(bnot(s[1]), ok)))
                out.append(("a", s[1], s[2], pv))
        l = Lst(out)
        if p == OPTION:
            return opt(okc, l)
        return NotImplemented
    if p.endswith("ArrayVec"):
        room = [x["c"] for x in c.rty.j.get("args", ()) if isinstance(x, dict)]
        if len(room) == 1 and str(room[0]).isdigit():
            c.ip.event("fill", pc=c.st.pc, span=c.span, segs=list(segs), cap=int(room[0]))
    return Lst(segs)


@model("arrayvec::arrayvec::ArrayVec::new", "alloc::vec::Vec::new", "alloc::vec::Vec::with_capacity")
def _avnew(c):
    return Lst([])


@model("core::default::Default::default")
def _default(c):
    if c.f.get("key"):
        return NotImplemented
    t = c.rty
    if t is None:
        return NotImplemented
    if t.k in ("float", "uint", "int"):
        return ZERO
    if t.k == "bool":
        return F
    if t.k == "adt" and t.j["path"] in ("arrayvec::arrayvec::ArrayVec", "alloc::vec::Vec"):
        return Lst([])
    if t.k == "adt" and t.j["path"] == OPTION:
        return NONE
    s = c.ip.shape(t)
    if s:
        return zeros(*s) if "Rotation" not in t.s else eye(*s)
    return NotImplemented


@model("arrayvec::arrayvec::ArrayVec::push", "alloc::vec::Vec::push", "arrayvec::arrayvec::ArrayVec::try_push", "arrayvec::arrayvec::ArrayVec::push_unchecked")
def _avpush(c):
    a, v = mut_base(c, c.args[0])
    if not isinstance(v, Lst):
        return NotImplemented
    c.ip.event("push", pc=c.st.pc, span=c.span, len=len(v.segs), segs=list(v.segs) + [("i", T, None)], fn=c.fr.body.j["path"], cap=cap_of(c))
    c.ip.write_ref(c.st, a, Lst(list(v.segs) + [("i", T, c.args[1])], v.kind))
    if c.name.endswith("try_push"):
        return Ok(UNIT)
    return UNIT


def atleast(segs, k):
    """condition that at least k of the listed elements are there; None when a whole slice is among them"""
    if any(s[0] != "i" for s in segs):
        return None
    row = [T] + [F] * k
    for s in segs:
        row = [T] + [bor(row[j], band(row[j - 1], s[1])) for j in range(1, k + 1)]
    return row[k]


def cap_of(c):
    a = c.f.get("rargs") or c.f["args"]
    for x in a:
        if isinstance(x, dict):
            return int(x["c"]) if str(x["c"]).isdigit() else None
    return None


@model("arrayvec::arrayvec::ArrayVec::clear", "alloc::vec::Vec::clear")
def _avclear(c):
    a, v = mut_base(c, c.args[0])
    c.ip.write_ref(c.st, a, Lst([]))
    return UNIT


@model("arrayvec::arrayvec::ArrayVec::into_inner")
def _avinner(c):
    return NotImplemented


@model("<[T]>::swap")
def _swap(c):
    a, v = mut_base(c, c.args[0])
    i, j = cint(c.v(1)), cint(c.v(2))
    it = v.items()
    if it is None:
        return NotImplemented
    it = list(it)
    if not (0 <= i < len(it) and 0 <= j < len(it)):
        return None
    it[i], it[j] = it[j], it[i]
    c.ip.write_ref(c.st, a, arr(it))
    return UNIT


@model("<[T]>::sort_unstable_by_key", "<[T]>::sort_by_key", "<[T]>::sort_unstable_by", "<[T]>::sort_by", "<[T]>::sort", "<[T]>::sort_unstable", "alloc::slice::<impl [T]>::sort_by_key", "alloc::slice::<impl [T]>::sort_by")
def _sort(c):
    a, v = mut_base(c, c.args[0])
    it = v.items() if isinstance(v, Lst) else None
    if it is None:
        return NotImplemented
    nm = c.name.split("::")[-1]
    if "key" in nm:
        keys = [c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [Ref(x)])) for x in it]
    elif nm.endswith("_by"):
        keys = comparator_keys(c, it)
        if keys is None or all(isinstance(k, N) and k.is_leaf() and isinstance(k.v, Rat) and k.v.const() is not None for k in keys):
            import functools

            def cmp(i, j):
                o = c.ip.strip(c.st, c.ip.call_value(c.st, c.args[1], [Ref(it[i]), Ref(it[j])]))
                d = o.discr.v.const() if isinstance(o, Enum) and o.discr.is_leaf() and isinstance(o.discr.v, Rat) else None
                if d is None:
                    raise ValueError()
                return int(d)
            try:
                order = sorted(range(len(it)), key=functools.cmp_to_key(cmp))
                c.ip.write_ref(c.st, a, arr([it[i] for i in order]))
                return UNIT
            except ValueError:
                pass
    else:
        keys = [c.ip.strip(c.st, x) for x in it]
    if keys is None:
        return NotImplemented
    # normalise core::cmp::Reverse
    rev = False
    if all(isinstance(k, Agg) and k.tag.endswith("cmp::Reverse") for k in keys):
        rev = True
        keys = [k.f[0] for k in keys]
    keys = [plain_key(k) for k in keys]
    if any(k is None for k in keys):
        return NotImplemented
    cs = [x.v.const() if x.is_leaf() and isinstance(x.v, Rat) else None for x in keys]
    if all(x is not None for x in cs):
        c.ip.event("sort", keys=keys, items=it, rev=rev, pc=c.st.pc, span=c.span, perm=None)
        c.ip.write_ref(c.st, a, arr([it[i] for i in sorted(range(len(it)), key=lambda i: cs[i], reverse=rev)]))
        return UNIT
    k = kid(("sortby", rev, tuple(keys)))
    c.ip.event("sort", keys=keys, items=it, rev=rev, pc=c.st.pc, span=c.span, perm=k)
    # opaque permutation; element j of the result is item perm(j)
    out = []
    const = all(isinstance(x, N) and x.is_leaf() and x.v.const() == i for i, x in enumerate(it))
    ix = frozenset()
    for x in keys:
        ix |= idx_of_value(x)
    for j in range(len(it)):
        pj = leaf(alg.ra(alg.atom(("perm", k, j), True, ix)))
        out.append(pj if const else c.ip.symsel(it, pj))
    c.ip.write_ref(c.st, a, arr(out))
    return UNIT


@model("core::mem::swap")
def _mswap(c):
    a, b = c.args
    x, y = c.ip.deref(c.st, a), c.ip.deref(c.st, b)
    c.ip.write_ref(c.st, a, y)
    c.ip.write_ref(c.st, b, x)
    return UNIT


@model("core::mem::replace")
def _mreplace(c):
    a = c.args[0]
    x = c.ip.deref(c.st, a)
    c.ip.write_ref(c.st, a, c.args[1])
    return x


@model("core::clone::Clone::clone_from")
def _clonefrom(c):
    if c.f.get("key"):
        return NotImplemented
    c.ip.write_ref(c.st, c.args[0], c.v(1))
    return UNIT


@model("core::mem::take")
def _mtake(c):
    return NotImplemented


# Option helpers are interpreted from their own MIR when available; Try is modelled here
@model("core::ops::try_trait::Try::branch")
def _branch(c):
    v = c.v(0)
    CF = "core::ops::control_flow::ControlFlow"
    if not isinstance(v, Enum):
        return NotImplemented
    p = v.payd()
    if v.path == OPTION:
        some_ = is_variant(v, 1)
        return Enum(CF, ite(some_, ZERO, ONE), {0: p.get(1, (None,)), 1: (NONE,)})
    if v.path == RESULT:
        okc = is_variant(v, 0)
        return Enum(CF, ite(okc, ZERO, ONE), {0: p.get(0, (None,)), 1: (Enum(RESULT, ONE, {1: p.get(1, (None,))}),)})
    return NotImplemented


@model("core::ops::try_trait::FromResidual::from_residual")
def _residual(c):
    v = c.v(0)
    if c.rty is not None and c.rty.k == "adt" and c.rty.j["path"] == OPTION:
        return NONE
    if isinstance(v, Enum) and v.path == RESULT:
        return v
    return NotImplemented


@model("core::ops::try_trait::Try::from_output")
def _from_output(c):
    if c.rty is not None and c.rty.k == "adt" and c.rty.j["path"] == OPTION:
        return Some(c.args[0])
    return NotImplemented


@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def _callfn(c):
    args = c.v(1)
    return c.ip.call_value(c.st, c.args[0], list(args.f))


# logging and formatting have no effect on results
def _noop(c):
    if c.t is not None and c.t["t"] is None:
        return None
    if c.rty is not None:
        if c.rty.k == "tuple" and not c.rty.j["es"]:
            return UNIT
        return Opq(("log",), c.rty)
    return UNIT


for _n in ("log::__private_api::log", "log::__private_api::loc", "core::fmt::rt::Argument::new_display", "core::fmt::rt::Argument::new_debug",
           "core::fmt::Arguments::new", "core::fmt::Arguments::from_str", "core::fmt::Arguments::new_const", "core::fmt::Arguments::new_v1",
           "core::fmt::rt::Argument::new_lower_exp", "log::__private_api::enabled"):
    M[_n] = _noop


@model("log::max_level")
def _maxlevel(c):
    # logging disabled: the guarded blocks only format and log
    return Enum("log::LevelFilter", num(0), {})

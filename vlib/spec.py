"""Building blocks of the specifications, as abstract values."""
from . import alg
from .alg import N, T, F, ite, band, bor, bnot, num, ZERO, ONE, add, sub, mul, div, neg
from .values import *
from .models import (matmul, transpose, eye, zeros, dot, nsq, norm, scale, unscale, cross, hat, det, adjugate, block, iso_mul, iso_inv, homog, mmap, mzip, opaque_rot, svd_ok)

CAM, WORLD = "cv_core::point::CameraPoint", "cv_core::point::WorldPoint"
PROJ = "cv_core::point::Projective"
POSE = "cv_core::pose::Pose"
POSES = [("cv_core::pose::WorldToCamera", WORLD, CAM), ("cv_core::pose::CameraToWorld", CAM, WORLD),
         ("cv_core::pose::CameraToCamera", CAM, CAM), ("cv_core::pose::WorldToWorld", WORLD, WORLD)]
INV = {"cv_core::pose::WorldToCamera": "cv_core::pose::CameraToWorld", "cv_core::pose::CameraToWorld": "cv_core::pose::WorldToCamera",
       "cv_core::pose::CameraToCamera": "cv_core::pose::CameraToCamera", "cv_core::pose::WorldToWorld": "cv_core::pose::WorldToWorld"}


def m(ty, tr, name):
    return "<%s as %s>::%s" % (ty, tr, name)


def vec(*es):
    return Mat(len(es), 1, es)


def xyz(h):
    return Mat(3, 1, h.e[:3])


def rows(*rs):
    r, c = len(rs), len(rs[0])
    return Mat(r, c, [rs[i][j] for j in range(c) for i in range(r)])


def canon(h):
    """the canonical homogeneous vector: sign so that w >= 0, then xyz of unit length"""
    n = norm(xyz(h))
    s = ite(alg.lt0(h.e[3]), num(-1), ONE)
    return mmap(lambda e: div(mul(s, e), n), h)


def vadd(*vs):
    a = vs[0]
    for b in vs[1:]:
        a = mzip(add, a, b)
    return a


def vsub(a, b):
    return mzip(sub, a, b)


def vneg(a):
    return mmap(neg, a)


def unref(v):
    while isinstance(v, Ref):
        v = v.v
    return v


def iso_of(pose):
    """isometry inside a pose value"""
    pose = unref(pose)
    while isinstance(pose, Agg) and pose.tag != "iso":
        pose = unref(pose.f[0])
    return pose


def hom_of(p):
    """stored vector of a point value"""
    p = unref(p)
    while isinstance(p, Agg):
        p = unref(p.f[0])
    return p


def apply_iso(iso, h):
    R, t = iso.f
    return Mat(4, 1, list(vadd(matmul(R, xyz(h)), scale(t, h.e[3])).e) + [h.e[3]])


def nonzero_xyz(h):
    return bnot(alg.eq0(nsq(xyz(h))))


# ---------------------------------------------------------------- observations
def fresh_iso(ip, name):
    R = [alg.var("%s.R%d%d" % (name, r, c), tag="R") for c in range(3) for r in range(3)]
    ip.declare_rot(R)
    return Agg("iso", [Mat(3, 3, R), Mat(3, 1, [alg.var("%s.t%s" % (name, c)) for c in "xyz"])])


def fresh_unit(name):
    b = [alg.var("%s%s" % (name, c), tag="u") for c in "xyz"]
    at = [next(iter(e.v.n.atoms())) for e in b]
    if at[2] not in alg.SQ:
        alg.declare_unit(*at)
    return Mat(3, 1, b)


def observations(ip, n, pose="cv_core::pose::WorldToCamera", start=0):
    """(iterator value, [(iso, bearing)])"""
    out = [(fresh_iso(ip, "o%d" % i), fresh_unit("o%d.b" % i)) for i in range(start, start + n)]
    return Lst([("i", T, Agg("tuple", [Agg(pose, [i]), b])) for i, b in out], "it"), out


def known_unit(i):
    """rational unit vectors, different ones for different i"""
    a, b = alg.Fraction(i % 7 - 3, 5 + i % 3), alg.Fraction((3 * i) % 11 - 5, 7 + i // 77)
    d = 1 + a * a + b * b
    return vec(*[num(x) for x in (2 * a / d, 2 * b / d, (1 - a * a - b * b) / d)])


def known_observations(n, pose="cv_core::pose::WorldToCamera"):
    """observations with rational poses and bearings, all different: (iterator value, [(iso, bearing)])"""
    out = []
    for i in range(n):
        q = [alg.Fraction(i % 3 - 1, 3), alg.Fraction(i % 5 - 2, 7), alg.Fraction(1, 2 + i)]
        K = hat(vec(*[num(x) for x in q]))
        R = vadd(eye(3), scale(vadd(K, matmul(K, K)), num(alg.Fraction(2) / (1 + sum(x * x for x in q)))))
        t = vec(num(alg.Fraction(i, 3)), num(alg.Fraction(5 - i * i, 4)), num(alg.Fraction(1 + 2 * i, 6)))
        out.append((Agg("iso", [R, t]), known_unit(i)))
    return Lst([("i", T, Agg("tuple", [Agg(pose, [i]), b])) for i, b in out], "it"), out


def cut_points(caller):
    """hooks: a point built inside functions whose path contains `caller` is an arbitrary canonical point"""
    made = []

    def mkhook(kind):
        def hk(ip, st, f, args, fr, t):
            for g in reversed(ip.stack):
                pth = g.body.j["path"].lstrip("<")
                if not pth.startswith(("core::", "alloc::", "std::")):
                    break
            if caller not in pth:
                return NotImplemented
            ty = fr.dump["types"][t["dt"] if t is not None else f["out"]]
            if ty.get("path") not in (CAM, WORLD):
                return NotImplemented
            v = ip.strip(st, args[0])
            k = kid(("hom", kind, v))
            ix = idx_of_value(v)
            h = Mat(4, 1, [leaf(alg.ra(alg.atom(("el", k, i), i == 3, ix))) for i in range(4)])
            made.append((kind, v, h))
            return Agg(ty["path"], [h])
        return hk
    hooks = {PROJ + "::from_homogeneous": mkhook("h"), PROJ + "::from_point": mkhook("p")}
    for ty in (CAM, WORLD):
        for n in ("from_homogeneous", "from_point"):
            hooks[m(ty, PROJ, n)] = hooks[PROJ + "::" + n]
    return hooks, made


def cayley(name):
    """a rotation matrix whose orthogonality is visible to the algebra: rational in three free parameters (all rotations but the half turns)"""
    q = Mat(3, 1, [alg.var("%s%s" % (name, c)) for c in "xyz"])
    K = hat(q)
    return vadd(eye(3), scale(vadd(K, matmul(K, K)), div(num(2), add(ONE, nsq(q)))))


def seen_from(ip, n, pose="cv_core::pose::WorldToCamera", tag="k"):
    """observations given by camera centre p_i and world direction u_i of the ray: pose (R_i, -R_i p_i), bearing R_i u_i with R_i by cayley.
    (iterator, [(iso, bearing, p_i, u_i)])"""
    out = []
    for i in range(n):
        R = cayley("%s%d.q" % (tag, i))
        p = Mat(3, 1, [alg.var("%s%d.p%s" % (tag, i, c)) for c in "xyz"])
        u = fresh_unit("%s%d.u" % (tag, i))
        out.append((Agg("iso", [R, vneg(matmul(R, p))]), matmul(R, u), p, u))
    return Lst([("i", T, Agg("tuple", [Agg(pose, [i]), b])) for i, b, _, _ in out], "it"), out


def known_eigen(n, vals, tag="v"):
    """hooks that give every n x n symmetric eigen decomposition these eigenvalues and free eigenvectors; returns (hooks, converged, eigenvectors)"""
    vecs = Mat(n, n, [alg.var("%s%d%d" % (tag, i, j)) for j in range(n) for i in range(n)])
    okv = alg.bvar(("sym", "eig.ok"), ())

    def hk(ip, st, f, args, fr, t):
        m_ = ip.strip(st, args[0])
        if (m_.r, m_.c) != (n, n):
            return NotImplemented
        return opt(okv, Agg("nalgebra::linalg::symmetric_eigen::SymmetricEigen", [vecs, Mat(n, 1, [num(alg.Fraction(x)) for x in vals])]))
    return {"nalgebra::base::matrix::Matrix::try_symmetric_eigen": hk, "nalgebra::linalg::symmetric_eigen::SymmetricEigen::try_new": hk}, okv, vecs


def least_cases(n):
    """eigenvalues of a semidefinite matrix with a null direction, as a numerical solver may give them: the zero has either sign, or is exact"""
    for p in range(n):
        for tiny in (1e-17, -1e-17, 0.0):
            vals = [0.5 + 0.25 * i for i in range(n)]
            vals[p] = tiny
            yield p, tiny, vals


def near(tiny):
    return "just below zero" if tiny < 0 else "just above zero" if tiny > 0 else "exactly zero"

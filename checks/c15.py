"""C15: linear triangulators solve the exact projection constraints."""
from vlib.spec import *
from vlib.models import argsel
from checks.c13 import G, TO, TR

TECHNIQUE = "abstract interpretation of the compiled MIR over opaque eigen / singular decompositions keyed by the matrix they are given, compared with the specification"
RULE = ("linear eigen: X = eigenvector of the least eigenvalue of sum_i ([R_i|t_i])^T (I - b_i b_i^T)^2 [R_i|t_i] in canonical form, absent below two observations; DLT: X = right singular "
        "vector of the least singular value of the four rows z_a X - x_a Z, z_a Y - y_a Z, and the same through the pose for b; returned whenever the decomposition succeeds, X is finite and "
        "strictly in front of every camera")
FLOOR = 6
MANY = 300
LE, DLT = G + "LinearEigenTriangulator", G + "RelativeDltTriangulator"


def system(obs):
    A = zeros(4, 4)
    for iso, b in obs:
        R, t = iso.f
        P = Mat(3, 4, list(R.e) + list(t.e))
        Q = matmul(vsub(eye(3), matmul(b, transpose(b))), P)
        A = vadd(A, matmul(transpose(Q), Q))
    return A


def least_eigvec(ip, A, mag=False):
    """mag: chosen by magnitude, which is the same for the semidefinite systems used here"""
    k = kid(("symeig", A))
    ix = idx_of_value(A)
    n = A.r
    vals = [leaf(alg.ra(alg.atom(("el", k, "val", i), False, ix))) for i in range(n)]
    cols = [Mat(n, 1, [leaf(alg.ra(alg.atom(("el", k, "vec", i, j), False, ix))) for i in range(n)]) for j in range(n)]
    return alg.bvar(("ok", k), ix), ip.symsel(cols, argsel([alg.absv(v) for v in vals] if mag else vals, True))


def least_right(A):
    k = kid(("svd", A))
    ix = idx_of_value(A)
    n = A.c
    good = svd_ok(A)
    for key in (k, kid(("svdu", A))):   # the singular values, before and after they are put in order
        for i in range(n):
            good = band(good, bnot(alg.isnan(leaf(alg.ra(alg.atom(("el", key, "s", i), True, ix))))))
    return good, Mat(n, 1, [leaf(alg.ra(alg.atom(("el", k, "vt", n - 1, i), False, ix))) for i in range(n)])


def dlt_rows(iso, a, b):
    H = homog(*iso.f)
    o = eye(4)

    def row(M, i):
        return Mat(1, 4, [M.at(i, j) for j in range(4)])
    ax, ay, az = a.e
    bx, by, bz = b.e
    rs = [vsub(scale(row(o, 2), ax), scale(row(o, 0), az)), vsub(scale(row(o, 2), ay), scale(row(o, 1), az)),
          vsub(scale(row(H, 2), bx), scale(row(H, 0), bz)), vsub(scale(row(H, 2), by), scale(row(H, 1), bz))]
    return Mat(4, 4, [rs[i].e[j] for j in range(4) for i in range(4)])


def compare(ctx, nm, r, ok, x, obs):
    sp = r.root["span"]
    o = unref(r.value)
    C = is_variant(o, 1)
    h = canon(x)
    if C is F:
        ctx.violate("%s: finds a point" % nm, "%s never returns a point" % nm, sp)
        return
    ctx.eq("%s: the point minimises the projection constraints" % nm, hom_of(o.payd()[1][0]), h, sp, under=C)
    front = ok
    for e in h.e:
        front = band(front, alg.isfin(e))
    for iso, b in obs:
        front = band(front, alg.gt0(dot(b, xyz(apply_iso(iso, h)))))
    ctx.eq("%s: a finite point in front of every camera is returned" % nm, C, T, sp, under=front)


def watch(hooks, seen):
    """the same hooks, noting the matrices they are given"""
    def wrap(h):
        def hk(ip, st, f, args, fr, t):
            seen.append(ip.strip(st, args[0]))
            return h(ip, st, f, args, fr, t)
        return hk
    return {k: wrap(h) for k, h in hooks.items()}


def check(ctx):
    path = m(LE, TO, "triangulate_observations")
    ctx.anchor("cv_geom", path)
    for n in (0, 1, 2, 3) if ctx.tier == "quick" else range(0, 7):
        nm = "linear eigen with %d observations" % n
        with ctx.part(nm):
            ip = ctx.interp("cv_geom")
            L, obs = observations(ip, n)
            r = ctx.run("cv_geom", path, over={1: L}, ip=ip)
            if not r:
                continue
            if n < 2:
                ctx.eq("%s: nothing is returned" % nm, is_variant(unref(r.value), 1), F, r.root["span"])
                continue
            o = unref(r.value)
            got = hom_of(o.payd()[1][0]) if is_variant(o, 1) is not F else None
            for mag in (True, False):
                ok, x = least_eigvec(ip, system(obs), mag)
                if got is not None and any(alg.same(g, e) for g, e in zip(got.e, canon(x).e)):
                    break
            compare(ctx, nm, r, ok, x, obs)
    nm = "linear eigen with %d known observations" % MANY
    with ctx.part(nm):
        ip = ctx.interp("cv_geom", hooks=known_eigen(4, [1, 2, 3, 4])[0])
        L, obs = known_observations(MANY)
        seen = []
        ip.hooks.update(watch(ip.hooks, seen))
        r = ctx.run("cv_geom", path, over={1: L}, ip=ip, limit=120)
        if r and r.value is not None:
            if len(seen) == 1 and (seen[0].r, seen[0].c) == (4, 4):
                ctx.eq("%s: every one has its part in the system" % nm, seen[0], system(obs), r.root["span"])
            elif not seen and is_variant(unref(r.value), 1) is F:
                ctx.violate("%s: a point can be found" % nm, "no point is ever returned for that many observations", r.root["span"])
            else:
                ctx.undecided(nm, "not one symmetric eigen decomposition of a 4x4 matrix")
    for q, tiny, vals in least_cases(4):
        nm = "linear eigen, null direction in place %d with eigenvalue %s" % (q, near(tiny))
        with ctx.part(nm):
            hooks, okv, vecs = known_eigen(4, vals)
            ip = ctx.interp("cv_geom", hooks)
            L, obs = observations(ip, 2)
            r = ctx.run("cv_geom", path, over={1: L}, ip=ip)
            o = unref(r.value) if r else None
            if o is None or is_variant(o, 1) is F:
                continue
            ctx.eq("%s: it is the one chosen" % nm, hom_of(o.payd()[1][0]), canon(Mat(4, 1, [vecs.at(i, q) for i in range(4)])), r.root["span"], under=is_variant(o, 1))
    with ctx.part("DLT"):
        r = ctx.run("cv_geom", m(DLT, TR, "triangulate_relative"))
        if r:
            iso, a, b = iso_of(r.args[1]), r.args[2], r.args[3]
            ok, x = least_right(dlt_rows(iso, a, b))
            compare(ctx, "DLT", r, ok, x, [(Agg("iso", [eye(3), zeros(3, 1)]), a), (iso, b)])

"""C16: angular, mean-mean and sine-L1 triangulators."""
from vlib.spec import *
from vlib.models import NA
from checks.c13 import G, TO, TR

TECHNIQUE = "abstract interpretation of the compiled MIR on symbolic exact geometry (rational rotations, free ray directions and depths), compared with the specification"
RULE = ("AngularL1/LInfinity on rays meeting at depth alpha along a and beta along b (alpha, beta > 0, not parallel) give exactly alpha*a, under every relative rotation and translation; "
        "MeanMean = mean centre + mean closest distance along the normalised sum of bearings; SineL1 with k rounds = k steps of rate * mean_i of the component of (p_i - X) orthogonal to ray i "
        "from the linear-eigen point obtained with its own epsilon and max_iterations, a point at infinity being returned as it is")
FLOOR = 12
MANY = 11
ANG = [G + "AngularL1Triangulator", G + "AngularLInfinityTriangulator"]
MM, SL, LE = G + "MeanMeanTriangulator", G + "SineL1Triangulator", G + "LinearEigenTriangulator"


def angular(ctx, t):
    nm = t.split("::")[-1]
    ip = ctx.interp("cv_geom")
    a, b = fresh_unit("a"), fresh_unit("b")
    al, be = alg.var("alpha", True), alg.var("beta", True)
    R = cayley("q")
    c = vsub(scale(b, be), scale(a, al))            # X = alpha a, X + c = beta b, so B sees R b
    pose = Agg("cv_core::pose::CameraToCamera", [Agg("iso", [R, matmul(R, c)])])
    r = ctx.run("cv_geom", m(t, TR, "triangulate_relative"), over={1: pose, 2: a, 3: matmul(R, b)}, ip=ip)
    if not r:
        return
    sp = r.root["span"]
    o = unref(r.value)
    C = is_variant(o, 1)
    if C is F:
        ctx.violate("%s: finds a point" % nm, "%s never returns a point" % nm, sp)
        return
    dom = band(alg.gt0(al), alg.gt0(be), bnot(alg.eq0(nsq(cross(a, b)))))
    X = canon(Mat(4, 1, list(scale(a, al).e) + [ONE]))
    ctx.eq("%s: exact intersection is reproduced" % nm, hom_of(o.payd()[1][0]), X, sp, under=band(dom, C))
    fin = dom
    for e in X.e:
        fin = band(fin, alg.isfin(e))
    ctx.eq("%s: exact intersection in front of both cameras is returned" % nm, C, T, sp, under=fin)


def meanmean(ctx, n):
    nm = "MeanMean with %d observations" % n
    hooks, made = cut_points("cv_geom::")
    dirs = []

    def normalize(ip, st, f, args, fr, t):
        # the direction of a vector is named, and the vector compared below
        v = ip.strip(st, args[0])
        if not isinstance(v, Mat) or v.c != 1 or v.r != 3:
            return NotImplemented
        for w, u in dirs:
            if w == v:
                return u
        u = fresh_unit("dir%d" % len(dirs))
        dirs.append((v, u))
        return u
    hooks[NA + "normalize"] = normalize
    hooks["nalgebra::base::unit::Unit::new_normalize"] = normalize
    ip = ctx.interp("cv_geom", hooks)
    L, obs = seen_from(ip, n) if n < MANY else known_seen(n)
    r = ctx.run("cv_geom", m(MM, TO, "triangulate_observations"), over={1: L}, ip=ip)
    if not r:
        return
    sp = r.root["span"]
    o = unref(r.value)
    if is_variant(o, 1) is F:
        ctx.violate("%s: finds a point" % nm, "%s never returns a point" % nm, sp)
        return
    h = hom_of(o.payd()[1][0])
    src = [(k, v) for k, v, g in made if g == h]
    if len(src) != 1:
        ctx.undecided(nm, "the returned point is not built in one place")
        return
    k, v = src[0]
    v = v if k == "h" else Mat(4, 1, list(v.e) + [ONE])
    cbar = scale(vadd(*[p for _, _, p, _ in obs]), div(ONE, num(n)))
    s = vadd(*[u for _, _, _, u in obs])
    ub = None
    for w, u in dirs:
        for kk in (ONE, num(n), div(ONE, num(n))):
            if ub is None and all(alg.same(mul(kk, x), y) for x, y in zip(s.e, w.e)):
                ub = u
    if ub is None:
        if dirs:
            ctx.eq("%s: the direction is that of the sum of the bearings" % nm, cross(dirs[0][0], s), zeros(3, 1), sp)
        ub = unscale(s, norm(s))
    d = ZERO
    for _, _, p, u in obs:
        q = cross(ub, u)
        d = add(d, div(dot(cross(vsub(p, cbar), u), q), nsq(q)))
    d = div(d, num(n))
    ctx.eq("%s: on the mean bearing from the mean centre at the mean closest distance" % nm, vsub(scale(xyz(v), d), scale(vadd(scale(ub, d), cbar), mul(v.e[3], d))), zeros(3, 1), sp)


def known_seen(n):
    L, obs = known_observations(n)
    return L, [(iso, b, vneg(matmul(transpose(iso.f[0]), iso.f[1])), matmul(transpose(iso.f[0]), b)) for iso, b in obs]


def sine(ctx, n, k):
    nm = "SineL1 with %d observations and %d rounds" % (n, k)
    calls = []

    def le(ip, st, f, args, fr, t):
        h = Mat(4, 1, list(fresh_unit("le").e) + [alg.var("le.w", True)])
        segs = ip.to_segs(st, args[1])
        v = opt(alg.bvar(("sym", "le.some"), ()), Agg(WORLD, [h]))
        calls.append((ip.strip(st, args[0]), [s[2] for s in segs], h, v))
        return v
    hooks, made = cut_points("cv_geom::")
    hooks[m(LE, TO, "triangulate_observations")] = le
    ip = ctx.interp("cv_geom", hooks)
    L, obs = seen_from(ip, n) if n < MANY else known_seen(n)
    eps, rate = (ZERO if k > 1 else alg.var("eps")), alg.var("rate")
    me = ctx.mk(SL, epsilon=eps, max_iterations=num(k), optimization_rate=rate)
    r = ctx.run("cv_geom", m(SL, TO, "triangulate_observations"), over={0: Ref(me), 1: L}, ip=ip)
    if not r:
        return
    sp = r.root["span"]
    if len(calls) != 1:
        ctx.undecided(nm, "%d initial guesses" % len(calls))
        return
    slf, its, h0, v0 = calls[0]
    ctx.eq("%s: initial guess with its own epsilon" % nm, ctx.fld(slf, "epsilon"), eps, sp)
    ctx.eq("%s: initial guess with its own cap" % nm, ctx.fld(slf, "max_iterations"), num(k), sp)
    if ctx.holds("%s: initial guess from every observation" % nm, len(its) == n, "%s hands %d of %d observations to the initial guess" % (nm, len(its), n), sp):
        for i, it in enumerate(its):
            p, b = unref(it).f
            ctx.eq("%s: initial guess from observation %d" % (nm, i), Agg("tuple", [iso_of(p), b]), Agg("tuple", [obs[i][0], obs[i][1]]), sp)
    o = unref(r.value)
    C = is_variant(o, 1)
    if C is F:
        ctx.violate("%s: finds a point" % nm, "%s never returns a point" % nm, sp)
        return
    h = hom_of(o.payd()[1][0])
    some0 = is_variant(v0, 1)
    inf = alg.eq0(h0.e[3])
    ctx.eq("%s: a guess at infinity is returned as it is" % nm, h, h0, sp, under=band(some0, inf))
    X = unscale(xyz(h0), h0.e[3])
    for _ in range(k):
        g = zeros(3, 1)
        for _, _, p, u in obs:
            d = vsub(p, X)
            g = vadd(g, vsub(d, scale(u, dot(u, d))))
        X = vadd(X, scale(g, div(rate, num(n))))
    src = [(kk, v) for kk, v, g in made]
    if len(src) != 1:
        ctx.undecided("%s: steps" % nm, "the returned point is built in %d places" % len(src))
        return
    kk, v = src[0]
    v = v if kk == "p" and v.r == 3 else unscale(xyz(v), v.e[3])
    ctx.eq("%s: steps towards the rays" % nm, v, X, sp, under=band(some0, bnot(inf)))


def check(ctx):
    for t in ANG:
        with ctx.part(t.split("::")[-1]):
            angular(ctx, t)
    for n in (2, 3) if ctx.tier == "quick" else (2, 3, 4, 5):
        with ctx.part("MeanMean with %d observations" % n):
            meanmean(ctx, n)
    for n, k in ((2, 0), (2, 1), (3, 1), (2, 2), (MANY, 1)) if ctx.tier == "quick" else ((2, 0), (2, 1), (3, 1), (2, 2), (3, 2), (4, 1), (2, 3), (MANY, 1)):
        with ctx.part("SineL1 with %d observations and %d rounds" % (n, k)):
            sine(ctx, n, k)

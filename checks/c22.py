"""C22: epipolar gradients."""
from vlib.spec import *
from vlib.interp import Ty, subst_value

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms compared with the specification; the pairwise rotation and triangulation steps are decided on their own and then composed"
RULE = ("point gradient = t - (t.b)b; world-pose gradient = ((t.b)b - t, unit(t) x b); loss = |sine| between a bearing and the other's epipolar plane, 1 when undefined or opposed; three-view gradients: "
        "rotation 2/3 own edge with the centre + 1/3 shared edge (opposite signs), translation 2/3 towards the point triangulated by the centre and the other camera + 1/3 away from the centre's own error; a pair's point is there exactly when finite and in front")
FLOOR = 4
E = "cv_geom::epipolar::"
ROT, TRI = E + "two_view_rotation_gradient", E + "two_view_same_space_triangulate_sine_l1"
SE3 = "cv_core::so3::Se3TangentSpace"


def scene():
    """baseline and two bearings up to a rotation; the bearings' lengths are left free (only their directions enter)"""
    t = vec(alg.var("d", True), ZERO, ZERO)
    a = vec(alg.var("ax"), alg.var("ay"), ZERO)
    b = vec(alg.var("bx"), alg.var("by"), alg.var("bz"))
    return t, a, b


def bit(c):
    return ite(c, ONE, ZERO)


def whole(*vs):
    """none of the components is NaN"""
    return band(*[bnot(alg.isnan(e)) for v in vs for e in v.e])


def parts(ctx, v):
    v = unref(v)
    return ctx.fld(v, "translation"), ctx.fld(v, "rotation")


def simple(ctx):
    r = ctx.run("cv_geom", E + "point_gradient")
    if r:
        t, b = r.args
        ctx.eq("point gradient", r.value, vsub(t, scale(b, dot(t, b))), r.root["span"])
    r = ctx.run("cv_geom", E + "world_pose_gradient")
    if r:
        t, b = r.args
        gt, gr = parts(ctx, r.value)
        wt, wr = vsub(scale(b, dot(t, b)), t), cross(unscale(t, norm(t)), b)
        ctx.eq("world-pose gradient: translation", gt, wt, r.root["span"], under=whole(wt))
        ctx.eq("world-pose gradient: rotation", gr, wr, r.root["span"], under=band(bnot(alg.eq0(nsq(t))), whole(wr)))
    t, a, b = scene()
    r = ctx.run("cv_geom", E + "loss", over={0: t, 1: a, 2: b})
    if r:
        ca, cb = cross(a, t), cross(b, t)
        first, agree, _, _ = corrected(t, a, b)
        w = ite(first, alg.absv(div(dot(a, cb), norm(cb))), alg.absv(div(dot(b, ca), norm(ca))))
        ok = band(agree, alg.gt0(nsq(ca)), alg.gt0(nsq(cb)), bnot(alg.isnan(w)))
        ctx.eq("loss: sine to the epipolar plane", r.value, w, r.root["span"], under=band(ok, alg.gt0(dot(a, b))))
        ctx.eq("loss: opposed bearings", r.value, ONE, r.root["span"], under=band(ok, alg.lt0(dot(a, b))))


def pair_rotation(ctx):
    root = ctx.find("cv_geom", ROT)
    if root is None or len(root["inputs"]) != 3:
        ctx.undecided("pairwise rotation gradient", "not a separate function of translation and two bearings")
        return 1
    r = ctx.run("cv_geom", ROT)
    if r:
        t, a, b = r.args
        ca, cb = cross(a, t), cross(b, t)
        want = cross(unscale(cb, norm(cb)), unscale(ca, norm(ca)))
        ok = band(alg.gt0(nsq(ca)), alg.gt0(nsq(cb)))
        # an internal step: either orientation is fine when its callers use it accordingly
        if isinstance(r.value, Mat) and r.value.r == 3 and all(alg.same(x, y, ok) for x, y in zip(r.value.e, vneg(want).e)):
            ctx.ok("pairwise rotation gradient")
            return -1
        ctx.eq("pairwise rotation gradient", r.value, want, root["span"], under=ok)
    return 1


def corrected(t, a, b):
    ca, cb = cross(a, t), cross(b, t)
    # compared squared or not: the same decision
    first, again = alg.lt0(sub(nsq(ca), nsq(cb))), alg.lt0(sub(norm(ca), norm(cb)))
    agree = bor(band(first, again), band(bnot(first), bnot(again)))
    na = vsub(a, scale(cb, div(dot(a, cb), nsq(cb))))
    nb = vsub(b, scale(ca, div(dot(b, ca), nsq(ca))))
    return first, agree, na, nb


def pair_point(ctx):
    """checks the helper; returns +1/-1: the sign of its baseline convention (None unknown)"""
    root = ctx.find("cv_geom", TRI)
    if root is None or len(root["inputs"]) != 3:
        ctx.undecided("pairwise triangulation", "not a separate function of translation and two bearings")
        return None
    hooks, made = cut_points("cv_geom::epipolar")
    t, a, b = scene()
    r = ctx.run("cv_geom", TRI, over={0: t, 1: a, 2: b}, hooks=hooks)
    if not r:
        return None
    ok = band(alg.gt0(nsq(cross(a, t))), alg.gt0(nsq(cross(b, t))))
    sign = None
    hs = [v for k, v, h in made if k == "h"]
    if len(hs) != 1:
        ctx.undecided("pairwise triangulation", "%d points are built" % len(hs))
        return None
    v = hs[0]
    # the point lies on the first ray, and from the second camera on the second one
    first, agree, na, nb = corrected(t, a, b)
    ok = band(ok, agree)
    X, w = xyz(v), v.e[3]
    ctx.eq("pairwise triangulation: first bearing kept, second moved into its plane", cross(X, a), zeros(3, 1), root["span"], under=band(ok, bnot(first)))
    ctx.eq("pairwise triangulation: first bearing moved into the plane of the second", cross(X, na), zeros(3, 1), root["span"], under=band(ok, first))
    for s, T_ in ((1, t), (-1, vneg(t))):
        Y = vsub(X, scale(T_, w))
        if all(ctx.same(ite(band(ok, first), x, ZERO), ZERO) for x in cross(Y, b).e) and all(ctx.same(ite(band(ok, bnot(first)), x, ZERO), ZERO) for x in cross(Y, nb).e):
            sign = s
            # towards the camera's front: the second bearing direction
            ctx.ok("pairwise triangulation: second bearing meets the point")
            break
    else:
        ctx.eq("pairwise triangulation: second bearing meets the point", cross(vsub(X, scale(t, w)), b), zeros(3, 1), root["span"], under=band(ok, first))
        ctx.eq("pairwise triangulation: moved second bearing meets the point", cross(vsub(X, scale(t, w)), nb), zeros(3, 1), root["span"], under=band(ok, bnot(first)))
    # what is returned is that point
    h = [h for k, _, h in made if k == "h"][0]
    o = unref(r.value)
    C = is_variant(o, 1)
    p = o.payd().get(1)
    if C is F or not p:
        ctx.violate("pairwise triangulation: finds a point", "no point is ever returned", root["span"])
    else:
        ctx.eq("pairwise triangulation: returns that point", hom_of(p[0]), unscale(xyz(h), h.e[3]), root["span"], under=band(C, bnot(alg.eq0(h.e[3]))))
        # found whenever it is there: finite, and strictly in front of both along the bearings it was built from
        front = [ite(first, dot(xyz(h), na), dot(xyz(h), a)), ite(first, dot(xyz(h), b), dot(xyz(h), nb))]
        there = band(ok, alg.gt0(front[0]), alg.gt0(front[1]), bnot(alg.eq0(h.e[3])), *[alg.isfin(e) for e in h.e])
        ctx.eq("pairwise triangulation: found whenever it is in front of both", bit(C), ONE, root["span"], under=band(there, *[alg.isfin(e) for e in v.e]), uf=True, tries=300, text="the point is dropped although it is finite and in front of both cameras")
        for nm, d in (("first", ite(first, dot(xyz(h), na), dot(xyz(h), a))), ("second", ite(first, dot(xyz(h), b), dot(xyz(h), nb)))):
            ctx.eq("pairwise triangulation: in front along the %s bearing" % nm, band(C, alg.lt0(d)), F, root["span"], under=ok, uf=True, text="a point behind a camera is used")
    return sign


def three(ctx, sign, rsign):
    ip = ctx.interp("cv_geom")
    c, f, s = [fresh_unit(k) for k in ("c", "f", "s")]
    ft, st_ = [Mat(3, 1, [alg.var("%s%s" % (k, x)) for x in "xyz"]) for k in ("tf", "ts")]
    fs = vsub(st_, ft)
    edges = {"cf": (ft, c, f), "cs": (st_, c, s), "fs": (fs, f, s)}
    sym = {k: Mat(3, 1, [alg.var("rot.%s.%s" % (k, x)) for x in "xyz"]) for k in edges}
    pts = {k: Mat(3, 1, [alg.var("pt.%s.%s" % (k, x)) for x in "xyz"]) for k in edges}
    some = {k: alg.bvar(("sym", "pt.%s" % k), ()) for k in edges}
    calls = []

    def eqv(x, y):
        return isinstance(x, Mat) and isinstance(y, Mat) and len(x.e) == len(y.e) and all(alg.same(p, q) for p, q in zip(x.e, y.e))

    def rot(ip, st, fn, args, fr, t):
        v = [ip.strip(st, x) for x in args]
        if len(v) != 3:
            return NotImplemented
        for k, (tt, a, b) in edges.items():
            for sg, (p, q) in ((1, (a, b)), (-1, (b, a))):
                if eqv(v[1], p) and eqv(v[2], q) and all(alg.same(e, ZERO) for e in cross(v[0], tt).e):
                    calls.append(k)
                    return sym[k] if sg == rsign else vneg(sym[k])
        return NotImplemented

    def tri(ip, st, fn, args, fr, t):
        v = [ip.strip(st, x) for x in args]
        if len(v) != 3 or sign is None:
            return NotImplemented
        tv = v[0] if sign == 1 else vneg(v[0])
        for k, (tt, a, b) in edges.items():
            if eqv(v[1], a) and eqv(v[2], b):
                good = eqv(tv, tt)
                p = pts[k]
            elif eqv(v[1], b) and eqv(v[2], a):
                good = eqv(tv, vneg(tt))
                p = vsub(pts[k], tt)
            else:
                continue
            calls.append("pt." + k)
            if not good:
                calls.append("bad." + k)
                bad.append((k, t))
                p = Mat(3, 1, [alg.var("wrong.%s.%s" % (k, x)) for x in "xyz"])
            return opt(some[k], p)
        return NotImplemented
    bad = []
    r = ctx.run("cv_geom", E + "three_view_gradients", over={0: c, 1: f, 2: ft, 3: s, 4: st_}, hooks={ROT: rot, TRI: tri}, ip=None, limit=200)
    if not r:
        return
    sp = r.root["span"]
    if not set(edges) <= set(calls) or not {"pt." + k for k in edges} <= set(calls):
        ctx.undecided("three-view gradients", "the pairwise steps are not separate functions (%s)" % sorted(set(calls)))
        return
    o = unref(r.value)
    segs = r.ip.to_segs(r.state, o)
    g = [parts(ctx, x[2]) for x in segs]
    t1, t2, r1, r2 = g[0][0], g[1][0], g[0][1], g[1][1]
    two, one = div(num(2), num(3)), div(ONE, num(3))
    w1, w2 = vsub(scale(sym["cf"], two), scale(sym["fs"], one)), vadd(scale(sym["cs"], two), scale(sym["fs"], one))
    ctx.eq("three-view gradients: rotation of the first camera", r1, w1, sp, under=whole(w1))
    ctx.eq("three-view gradients: rotation of the second camera", r2, w2, sp, under=whole(w2))

    def orth(p, b):
        return vsub(p, scale(b, dot(p, b)))

    def when(k, v):
        return Mat(3, 1, [ite(some[k], e, ZERO) for e in v.e])
    # points of the pairs (c, .) are given from c, those of (f, s) from f
    tf = when("cs", orth(vsub(pts["cs"], ft), f))
    ts = when("cf", orth(vsub(pts["cf"], st_), s))
    tc = when("fs", vneg(orth(vadd(pts["fs"], ft), c)))
    w1, w2 = vadd(scale(tf, two), scale(tc, one)), vadd(scale(ts, two), scale(tc, one))
    ctx.eq("three-view gradients: translation of the first camera", t1, w1, sp, under=whole(w1))
    ctx.eq("three-view gradients: translation of the second camera", t2, w2, sp, under=whole(w2))
    for k, t in bad:
        ctx.violate("three-view gradients: baseline of pair %s" % k, "the point of the bearings %s is triangulated with a baseline that is not the one between these cameras" % k, sp)


def check(ctx):
    for p in ("point_gradient", "world_pose_gradient", "three_view_gradients", "loss"):
        ctx.anchor("cv_geom", E + p)
    with ctx.part("single gradients"):
        simple(ctx)
    rsign = 1
    with ctx.part("pairwise rotation gradient"):
        rsign = pair_rotation(ctx)
    sign = None
    with ctx.part("pairwise triangulation"):
        sign = pair_point(ctx)
    with ctx.part("three-view gradients"):
        three(ctx, sign, rsign)

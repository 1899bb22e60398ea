"""C23: pose optimizers."""
from vlib.spec import *
from vlib.interp import Ty, subst, subst_value

TECHNIQUE = ("abstract interpretation of the compiled MIR with the gradients as uninterpreted operations whose arguments are recorded; rounds compared with the specification for the first, the second and (as a "
             "loop step) an arbitrary round")
RULE = ("no landmarks or no rounds: the poses come back; a round replaces P by exp(rate * weighted mean of the gradients) * P, every finite landmark's gradient taken at the current P and added once, "
        "L1 with unit gradients over the sums of reciprocal (length + tolerance); three-view: on the inverses, gradients given the centre's and both outer bearings turned into the centre frame, camera by camera")
FLOOR = 8
O = "cv_optimize::"
S1, S2 = O + "single_view_optimizer::single_view_simple_optimize_l1", O + "single_view_optimizer::single_view_simple_optimize_l2"
T1, T2, T3 = [O + "three_view_optimizer::three_view_" + k for k in ("simple_optimize_l1", "simple_optimize_l2", "adaptive_optimize_l2")]
W2C, C2C = "cv_core::pose::WorldToCamera", "cv_core::pose::CameraToCamera"
SE3 = "cv_core::so3::Se3TangentSpace"
FWM = "cv_core::matches::FeatureWorldMatch"
WPG, TVG = "cv_geom::epipolar::world_pose_gradient", "cv_geom::epipolar::three_view_gradients"


def tangent(name, simple=False):
    if simple:
        return Agg(SE3, [vec(alg.var("%s.%s" % (name, k), True), ZERO, ZERO) for k in "tr"])
    return Agg(SE3, [Mat(3, 1, [alg.var("%s.%s%s" % (name, k, c)) for c in "xyz"]) for k in "tr"])


def slice_of(items):
    return Ref(("val",), Lst([("i", T, x) for x in items], "slice"))


class Rounds:
    """the building blocks of a round as uninterpreted operations"""

    def __init__(self, simple=False, inf=()):
        self.inf = inf
        self.tf, self.grad, self.l1, self.exp = [], [], [], []
        self.hooks = {WPG: self.mk(self.grad, lambda k: tangent("g%d" % k, simple)),
                      TVG: self.mk(self.grad, lambda k: arr([tangent("g%d.0" % k, simple), tangent("g%d.1" % k, simple)])),
                      SE3 + "::l1": self.mk(self.l1, lambda k: tangent("u%d" % k)),
                      SE3 + "::isometry": self.mk(self.exp, self.turn)}
        for k in (m(W2C, POSE, "transform"), POSE + "::transform"):
            self.hooks[k] = self.transform

    def mk(self, log, val):
        def hk(ip, st, f, args, fr, t):
            a = [ip.strip(st, x) for x in args]
            # the operations are functions of their arguments
            v = next((q[2] for q in log if q[0] == a), None)
            if v is None:
                v = val(len(log)) if val != self.turn else self.turn(len(log), ip)
            log.append((a, st.pc, v))
            return v
        return hk

    def turn(self, k, ip=None):
        return fresh_iso(ip, "E%d" % k)

    def transform(self, ip, st, f, args, fr, t):
        a = [ip.strip(st, x) for x in args]
        k = len(self.tf)
        h = Mat(4, 1, [alg.var("c%d.%s" % (k, c)) for c in "xyz"] + [ZERO if k in self.inf else alg.var("c%d.w" % k, True)])
        self.tf.append((a, st.pc, h))
        return Agg(CAM, [h])


def tr(ctx, v):
    v = unref(v)
    return ctx.fld(v, "translation"), ctx.fld(v, "rotation")


def total(vs):
    """sum of (guard, vector)"""
    s = zeros(3, 1)
    for g, v in vs:
        s = vadd(s, mmap(lambda e: ite(g, e, ZERO), v))
    return s


def tot(vs):
    s = ZERO
    for g, v in vs:
        s = add(s, ite(g, v, ZERO))
    return s


def single_names(path):
    return ("pose", "eps", "rate", "its", "lms") if path == S1 else ("pose", "rate", "its", "lms")


def three_names(path):
    return {T1: ("poses", "eps", "rate", "its", "lms"), T2: ("poses", "rate", "its", "lms"), T3: ("poses", "its", "lms")}[path]


# ---------------------------------------------------------------- single view
def landmark(k):
    b, h = fresh_unit("b%d" % k), Mat(4, 1, [alg.var("x%d.%s" % (k, c)) for c in "xyz"] + [alg.var("x%d.w" % k, True)])
    return Agg(FWM, [b, Agg(WORLD, [h])]), b, h


def single(ctx, path, l1):
    nm = path.split("_")[-1].upper() + " single view"
    names = single_names(path)
    at = {k: i for i, k in enumerate(names)}
    root = ctx.anchor("cv_optimize", path)
    if root is None:
        return
    sp = root["span"]
    base = {at["rate"]: alg.var("rate")}
    eps = alg.var("eps", True)
    if l1:
        base[at["eps"]] = eps
    rate = base[at["rate"]]

    def go(n, its, simple=False, inf=(), ip=None):
        R = Rounds(simple, inf)
        if ip is not None:
            ip.hooks.update(R.hooks)
        lms = [landmark(k) for k in range(n)] if n is not None else None
        ov = dict(base)
        if its is not None:
            ov[at["its"]] = num(its)
        if lms is not None:
            ov[at["lms"]] = Ref(arr([x[0] for x in lms]))
        if simple:
            ov[0] = Agg(W2C, [Agg("iso", [eye(3), vec(alg.var("d", True), ZERO, ZERO)])])
        r = ctx.run("cv_optimize", path, over=ov, hooks=R.hooks, ip=ip)
        return R, lms, r
    # empty problems
    for what, n, its in (("no landmarks", 0, None), ("no rounds", None, 0)):
        with ctx.part("%s: %s" % (nm, what)):
            R, _, r = go(n, its)
            if r:
                ctx.eq("%s: %s leave the pose alone" % (nm, what), iso_of(r.value), iso_of(r.args[0]), sp, uf=True)
                ctx.eq("%s: %s is no panic" % (nm, what), r.pc, T, sp, uf=True)
    # with gradients and pose translation along one axis, lengths are plain variables: a round in which something contributes is not skipped
    for n in (1, 2):
        w = "%s, %d landmarks: a round with a contribution is taken" % (nm, n)
        with ctx.part(w):
            R, lms, r = go(n, 1, True)
            if r and len(R.exp) == 1 and len(R.tf) == n:
                some = bor(*[alg.gt0(c[2].e[3]) for c in R.tf])
                pos = band(*[alg.gt0(nsq(v)) for q in R.grad for v in tr(ctx, q[2])])
                ctx.eq(w, R.exp[0][1], T, sp, under=band(some, pos), uf=True)
            elif r:
                ctx.undecided(w, "the steps of a round are not separate operations")
    # any number of landmarks (all alike, as far as the uninterpreted gradient tells): each enters once with the same weight
    w = "%s, any number of landmarks" % nm
    with ctx.part(w):
        ip = ctx.interp("cv_optimize")
        R, _, r = go(None, 1, ip=ip)
        if not cut(ctx, w, ip, "a%d" % at["lms"], sp) and r and len(R.exp) == 1 and R.grad:
            h = R.tf[-1][2]
            wt, wr = weigh(ctx, [(alg.gt0(h.e[3]), R.grad[-1][2])], R, norm(iso_of(r.args[0]).f[1]), rate, eps, 1, l1)
            dt, dr = tr(ctx, R.exp[0][0][0])
            ok = band(whole(wt, wr), alg.gt0(h.e[3]), R.exp[0][1])
            ctx.eq("%s: translation update" % w, dt, wt, sp, under=ok)
            ctx.eq("%s: rotation update" % w, dr, wr, sp, under=ok)
    # a landmark without a position is left out
    for i in (0, 1):
        w = "%s: landmark at infinity" % nm
        with ctx.part(w):
            R, lms, r = go(2, 1, False, (i,))
            if r and len(R.tf) == 2 and len(R.exp) == 1 and len(R.grad) in (1, 2):
                ctx.holds(w, len(R.grad) == 1, "a gradient is taken for a landmark that has no Euclidean position", sp)
                if len(R.grad) == 1:
                    h = R.tf[1 - i][2]
                    wt, wr = weigh(ctx, [(alg.gt0(h.e[3]), R.grad[0][2])], R, norm(iso_of(r.args[0]).f[1]), rate, eps, 2, l1)
                    dt, dr = tr(ctx, R.exp[0][0][0])
                    ok = band(whole(wt, wr), alg.gt0(h.e[3]))
                    ctx.eq("%s %d: translation update" % (w, i), dt, wt, sp, under=ok)
                    ctx.eq("%s %d: rotation update" % (w, i), dr, wr, sp, under=ok)
            elif r:
                ctx.undecided(w, "the steps of a round are not separate operations")
    for n, its in ((1, 1), (2, 1), (2, 2)):
        w = "%s, %d landmarks, round %d" % (nm, n, its)
        with ctx.part(w):
            R, lms, r = go(n, its)
            if not r:
                continue
            if its == 1 and not R.exp and ctx.same(iso_of(r.value), iso_of(r.args[0])):
                ctx.violate("%s: is run" % w, "the pose comes back as it was although there are landmarks and rounds", sp)
                continue
            if its == 1 and 0 < len(R.grad) < n:
                ctx.violate("%s: uses every landmark" % w, "the gradients of only %d of %d landmarks enter a round" % (len(R.grad), n), sp)
                continue
            if len(R.tf) != n * its or len(R.grad) != n * its or len(R.exp) != its:
                ctx.undecided(w, "the steps of a round are not separate operations (%d transforms, %d gradients, %d updates)" % (len(R.tf), len(R.grad), len(R.exp)))
                continue
            P = iso_of(r.args[0])
            alive = T
            for k in range(its):
                first = k * n
                seen = {}
                some = bor(*[alg.gt0(c[2].e[3]) for c in R.tf[first:first + n]])
                alive = band(alive, some)
                gs = []
                for j in range(n):
                    (pose, pt), pc, h = R.tf[first + j]
                    i = next((i for i, x in enumerate(lms) if i not in seen and ctx.same(hom_of(pt), x[2])), None)
                    if not ctx.holds("%s: point %d is that of a landmark not used yet" % (w, j), i is not None, "a round transforms a point that is not the next landmark's own world point", sp):
                        continue
                    seen[i] = True
                    ctx.eq("%s: landmark %d seen from the current pose" % (w, i), iso_of(pose), P, sp, under=alive)
                    g = next((q for q in R.grad[first:first + n] if ctx.same(q[0][0], unscale(xyz(h), h.e[3]))), None)
                    if g is None:
                        ctx.eq("%s: gradient at the camera point of landmark %d" % (w, i), R.grad[first + j][0][0], unscale(xyz(h), h.e[3]), sp, under=band(alive, alg.gt0(h.e[3])))
                        continue
                    ctx.eq("%s: gradient towards the bearing of landmark %d" % (w, i), g[0][1], lms[i][1], sp, under=alive)
                    gs.append((alg.gt0(h.e[3]), g[2]))
                (d,), pc, E = R.exp[k]
                dt, dr = tr(ctx, d)
                if len(gs) == n:
                    wt, wr = weigh(ctx, gs, R, norm(P.f[1]), rate, eps, n, l1)
                    ok = band(alive, whole(wt, wr))
                    ctx.eq("%s: translation update" % w, dt, wt, sp, under=ok)
                    ctx.eq("%s: rotation update" % w, dr, wr, sp, under=ok)
                P = iso_mul(E, P)
            ctx.eq("%s: the update multiplies the pose from the left" % w, iso_of(r.value), P, sp, under=band(alive, R.exp[-1][1]))


def whole(*vs):
    return band(*[bnot(alg.isnan(e)) for v in vs for e in v.e])


def weigh(ctx, gs, R, tscale, rate, eps, n, l1):
    """gs: (guard, gradient)"""
    if not l1:
        return [scale(total([(g, tr(ctx, v)[i]) for g, v in gs]), div(rate, num(n))) for i in (0, 1)]
    out = []
    for i, ep in ((0, mul(tscale, eps)), (1, eps)):
        us = []
        for g, v in gs:
            u = next((q[2] for q in R.l1 if ctx.same(q[0][0], v)), None)
            us.append((g, tr(ctx, u)[i] if u is not None else unscale(tr(ctx, v)[i], norm(tr(ctx, v)[i]))))
        den = tot([(g, div(ONE, add(norm(tr(ctx, v)[i]), ep))) for g, v in gs])
        out.append(unscale(scale(total(us), rate), den))
    return out


def cut(ctx, w, ip, src, sp):
    """some landmarks are left out whatever they are"""
    evs = [e for e in ip.events if e["kind"] == "truncate" and e["src"].startswith(src)]
    for e in evs:
        ctx.violate("%s: all are used" % w, "the landmarks are cut down (%s), the rest of them never enters" % e["what"], sp)
    return bool(evs)


# ---------------------------------------------------------------- three views
def triple(k, simple=False):
    bs = [fresh_unit("o%d.%d" % (k, i)) for i in range(3)]
    return arr(bs), bs


def isos(r, v):
    segs = r.ip.to_segs(r.state, unref(v))
    return [iso_of(x[2]) for x in segs]


def three(ctx, path, kind):
    nm = {"l1": "L1", "l2": "L2", "ad": "adaptive"}[kind] + " three-view"
    names = three_names(path)
    at = {k: i for i, k in enumerate(names)}
    root = ctx.anchor("cv_optimize", path)
    if root is None:
        return
    sp = root["span"]
    eps, rate = alg.var("eps", True), alg.var("rate")

    def go(n, its, simple=False, ip=None):
        """simple: False, True (axis-aligned), 'cayley' (rotations whose orthogonality the algebra sees)"""
        R = Rounds(simple is True)
        ip = ip or ctx.interp("cv_optimize")
        ip.hooks.update(R.hooks)
        lms = [triple(k) for k in range(n)] if n is not None else None
        if simple == "cayley":
            G = [Agg("iso", [cayley("D%d.q" % k), vec(*[alg.var("D%d.t%s" % (k, c)) for c in "xyz"])]) for k in range(2)]
        else:
            G = [Agg("iso", [eye(3), vec(alg.var("d%d" % k, True), ZERO, ZERO)]) if simple else fresh_iso(ip, "D%d" % k) for k in range(2)]
        D = [iso_inv(g) for g in G]
        ov = {0: arr([Agg(C2C, [g]) for g in G])}
        if "eps" in at:
            ov[at["eps"]] = eps
        if "rate" in at:
            ov[at["rate"]] = rate
        if its is not None:
            ov[at["its"]] = num(its)
        if lms is not None:
            ov[at["lms"]] = Ref(arr([x[0] for x in lms]))
        return R, lms, D, ctx.run("cv_optimize", path, over=ov, ip=ip, limit=120)
    for what, n, its in (("no landmarks", 0, None), ("no rounds", None, 0)):
        with ctx.part("%s: %s" % (nm, what)):
            R, _, D, r = go(n, its, "cayley")
            if r:
                given = isos(r, r.args[0])
                ctx.eq("%s: %s is no panic" % (nm, what), r.pc, T, sp, uf=True)
                for c, o in enumerate(isos(r, r.value)):
                    ctx.eq("%s: %s leave pose %d alone" % (nm, what, c), o, given[c], sp, uf=True)
    for n, its in ((1, 1), (2, 1), (2, 2)):
        w = "%s, %d landmarks, round %d" % (nm, n, its)
        with ctx.part(w):
            R, lms, Q, r = go(n, its)
            if not r:
                continue
            if its == 1:
                kept = [c for c, (a, b) in enumerate(zip(isos(r, r.value), Q)) if ctx.same(a, iso_inv(b)) or ctx.same(a, isos(r, r.args[0])[c])]
                if kept and len(R.exp) < 2:
                    ctx.violate("%s: moves both cameras" % w, "pose %s comes back as it was although there are landmarks and rounds" % kept, sp)
                    continue
                if 0 < len(R.grad) < n:
                    ctx.violate("%s: uses every landmark" % w, "the gradients of only %d of %d landmarks enter a round" % (len(R.grad), n), sp)
                    continue
            if len(R.grad) != n * its or len(R.exp) != 2 * its:
                ctx.undecided(w, "the steps of a round are not separate operations (%d gradients, %d updates)" % (len(R.grad), len(R.exp)))
                continue
            alive = T
            for k in range(its):
                gs = R.grad[k * n:(k + 1) * n]
                seen = {}
                for j, (a, pc, v) in enumerate(gs):
                    i = next((i for i, x in enumerate(lms) if i not in seen and ctx.same(a[0], x[1][0])), j)
                    seen[i] = True
                    bs = lms[i][1]
                    want = [bs[0], matmul(Q[0].f[0], bs[1]), Q[0].f[1], matmul(Q[1].f[0], bs[2]), Q[1].f[1]]
                    for q, wh in enumerate(("centre bearing", "first bearing in the centre frame", "first position", "second bearing in the centre frame", "second position")):
                        ctx.eq("%s: landmark %d, %s" % (w, i, wh), a[q], want[q], sp, under=alive)
                wants = [weigh3(ctx, [unref(g[2]).items()[c] for g in gs], R, add(norm(Q[0].f[1]), norm(Q[1].f[1])), rate, eps, n, kind) for c in (0, 1)]
                es = R.exp[2 * k:2 * k + 2]
                got = [tr(ctx, e[0][0]) for e in es]
                if all(ctx.same(got[0][i], wants[1][i]) for i in (0, 1)) and all(ctx.same(got[1][i], wants[0][i]) for i in (0, 1)):
                    got, es = got[::-1], es[::-1]
                for c in (0, 1):
                    ok = band(alive, whole(*wants[c]))
                    if kind == "ad":
                        ok = band(ok, *[alg.isfin(q) for q in ratios([unref(g[2]).items()[c] for g in gs], ctx, n)])
                    ctx.eq("%s: translation update of camera %d" % (w, c), got[c][0], wants[c][0], sp, under=ok)
                    ctx.eq("%s: rotation update of camera %d" % (w, c), got[c][1], wants[c][1], sp, under=ok)
                    alive = band(alive, es[c][1])
                Q = [iso_mul(e[2], q) for e, q in zip(es, Q)]
            for c, o in enumerate(isos(r, r.value)):
                ctx.eq("%s: the update multiplies the inverse of pose %d from the left and is inverted back" % (w, c), o, iso_inv(Q[c]), sp, under=alive)
    w = "%s, any number of landmarks" % nm
    with ctx.part(w):
        ip = ctx.interp("cv_optimize")
        R, _, Q, r = go(None, 1, ip=ip)
        if not cut(ctx, w, ip, "a%d" % at["lms"], sp) and r and len(R.exp) == 2 and R.grad:
            for c in (0, 1):
                g = unref(R.grad[-1][2]).items()[c]
                wt, wr = weigh3(ctx, [g], R, add(norm(Q[0].f[1]), norm(Q[1].f[1])), rate, eps, 1, kind)
                dt, dr = tr(ctx, R.exp[c][0][0])
                ok = band(whole(wt, wr), R.exp[c][1])
                if kind == "ad":
                    ok = band(ok, *[alg.gt0(nsq(x)) for x in tr(ctx, g)])
                ctx.eq("%s: translation update of camera %d" % (w, c), dt, wt, sp, under=ok)
                ctx.eq("%s: rotation update of camera %d" % (w, c), dr, wr, sp, under=ok)
    # a round in which every gradient is nonzero is taken
    for n in (1, 2):
        w = "%s, %d landmarks: a round with contributions is taken" % (nm, n)
        with ctx.part(w):
            R, lms, D, r = go(n, 1, True)
            if r and len(R.exp) == 2 and len(R.grad) == n:
                pos = band(*[alg.gt0(nsq(v)) for q in R.grad for g in unref(q[2]).items() for v in tr(ctx, g)])
                ctx.eq(w, band(R.exp[0][1], R.exp[1][1]), T, sp, under=pos, uf=True)
            elif r:
                ctx.undecided(w, "the steps of a round are not separate operations")


def ratios(vs, ctx, n):
    """length of the mean over mean of the lengths, translation and rotation"""
    return [div(norm(unscale(total([(T, tr(ctx, v)[i]) for v in vs]), num(n))), div(tot([(T, norm(tr(ctx, v)[i])) for v in vs]), num(n))) for i in (0, 1)]


def weigh3(ctx, vs, R, tscale, rate, eps, n, kind):
    if kind == "ad":
        return [scale(unscale(total([(T, tr(ctx, v)[i]) for v in vs]), num(n)), q) for i, q in enumerate(ratios(vs, ctx, n))]
    return weigh(ctx, [(T, v) for v in vs], R, tscale, rate, eps, n, kind == "l1")


def check(ctx):
    for p in (S1, S2, T1, T2, T3):
        ctx.anchor("cv_optimize", p)
    single(ctx, S2, False)
    single(ctx, S1, True)
    three(ctx, T2, "l2")
    three(ctx, T1, "l1")
    three(ctx, T3, "ad")

"""C18: pose residuals."""
from vlib.spec import *
from checks.c11 import match_of
from checks.c15 import least_eigvec, system

TECHNIQUE = "abstract interpretation of the compiled MIR over opaque eigen decompositions keyed by their matrix, compared with the specification"
RULE = ("world pose: 1 - b.bearing(R*X.xyz + t*X.w); relative pose: mean of 1 - a.bearing(X) and 1 - b.bearing(R*X.xyz + t*X.w) with X the least eigenvector of the linear triangulation "
        "system of a (identity pose) and b (the pose); exactly 2 when the decomposition fails or X is not finite")
FLOOR = 3
W2C, C2C = "cv_core::pose::WorldToCamera", "cv_core::pose::CameraToCamera"
MODEL = "sample_consensus::Model<%s>"
FWM, FM = "cv_core::matches::FeatureWorldMatch", "cv_core::matches::FeatureMatch"


def cosdist(b, v):
    return sub(ONE, div(dot(b, v), norm(v)))


def check(ctx):
    with ctx.part("world pose"):
        X = Agg(WORLD, [Mat(4, 1, list(fresh_unit("X").e) + [alg.var("X.w", True)])])
        p = m(W2C, MODEL % FWM, "residual")
        b = fresh_unit("b")
        r = ctx.run("cv_core", p, over={1: Ref(Agg(FWM, [b, X]))})
        if r:
            sp = r.root["span"]
            iso, h = iso_of(r.args[0]), hom_of(X)
            y = xyz(apply_iso(iso, h))
            ctx.eq("world pose residual", r.value, cosdist(b, y), sp, under=bnot(alg.eq0(nsq(y))))
    with ctx.part("relative pose"):
        r = ctx.run("cv_core", m(C2C, MODEL % FM, "residual"))
        if not r:
            return
        sp = r.root["span"]
        iso = iso_of(r.args[0])
        a, b = match_of(r.args[1])
        ident = Agg("iso", [eye(3), zeros(3, 1)])
        A = system([(ident, a), (iso, b)])
        forms = []
        for mag in (False, True):
            ok, x = least_eigvec(r.ip, A, mag)
            h = canon(x)
            fin = ok
            for e in h.e:
                fin = band(fin, alg.isfin(e))
            mean = div(add(cosdist(a, xyz(h)), cosdist(b, xyz(apply_iso(iso, h)))), num(2))
            forms.append(ite(fin, mean, num(2)))
        ctx.eq("worst value when triangulation fails", r.value, num(2), sp, under=bnot(ok))
        for q, tiny, vals in least_cases(4):
            nm = "null direction in place %d with eigenvalue %s" % (q, near(tiny))
            hooks, okv, vecs = known_eigen(4, vals)
            r2 = ctx.run("cv_core", m(C2C, MODEL % FM, "residual"), hooks=hooks, over={0: r.args[0], 1: r.args[1]})
            if not r2:
                continue
            h = canon(Mat(4, 1, [vecs.at(i, q) for i in range(4)]))
            fin = okv
            for e in h.e:
                fin = band(fin, alg.isfin(e))
            mean = div(add(cosdist(a, xyz(h)), cosdist(b, xyz(apply_iso(iso, h)))), num(2))
            ctx.eq("%s: the match is scored at that point" % nm, r2.value, mean, sp, under=fin)
        ctx.eq_any("mean of the two cosine distances, 2 when not finite", r.value, forms, sp)

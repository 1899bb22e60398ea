"""C05: se(3) vector order and so(3) exp/log."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms (matrix exponential and logarithm as atoms), compared with the specification"
RULE = "se3() = (t, log R); from_se3(v) = (v[0..3], exp v[3..6]); exp = rotation by |w| about w/|w| except |w|^2 <= machine epsilon; log = scaled axis with NaN -> 0"
FLOOR = 8
EPS = num(alg.Fraction(1, 2 ** 52))


def exp_spec(w):
    near = alg.le(nsq(w), EPS)
    a = opaque_rot(None, "nearest_rotation", vadd(eye(3), hat(w)))
    b = opaque_rot(None, "exp", w)
    return vite(near, a, b)


def log_spec(R):
    k = kid(("log", R))
    es = [leaf(alg.ra(alg.atom(("el", k, i), False, idx_of_value(R)))) for i in range(3)]
    bad = bor(*[alg.isnan(e) for e in es])
    return Mat(3, 1, [ite(bad, ZERO, e) for e in es])


def check(ctx):
    for P, I, O in POSES:
        nm = P.split("::")[-1]
        r = ctx.run("cv_core", m(P, POSE, "from_se3"))
        if r:
            v = r.args[0]
            ctx.eq("%s from_se3 translation" % nm, iso_of(r.value).f[1], vec(*v.e[:3]), r.root["span"])
            ctx.eq("%s from_se3 rotation" % nm, iso_of(r.value).f[0], exp_spec(vec(*v.e[3:])), r.root["span"])
        r = ctx.run("cv_core", m(P, POSE, "se3"))
        if r:
            R, t = iso_of(r.args[0]).f
            ctx.eq("%s se3" % nm, r.value, Mat(6, 1, list(t.e) + list(log_spec(R).e)), r.root["span"])
    for c, q in ctx.roots("cv_core", lambda q: q["name"] == "from" and len(q["inputs"]) == 1):
        a, b = ctx.tj(c, q["inputs"][0]).get("path", ""), ctx.tj(c, q["output"]).get("path", "")
        if a.endswith("Skew3") and b.endswith("rotation::Rotation"):
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq("exponential map", r.value, exp_spec(hom_of(r.args[0])), q["span"])
                guard_div(ctx, r, q)
        if b.endswith("Skew3") and a.endswith("rotation::Rotation"):
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq("logarithm map", hom_of(r.value), log_spec(r.args[0]), q["span"])


def guard_div(ctx, r, q):
    """no division by the length of a vector whose length may be zero"""
    n = 0
    for e in r.ip.events:
        if e["kind"] == "div":
            n += 1
            z = band(e["pc"], alg.eq0(e["den"]))
            if z is F or alg.same(z, F):
                continue
            ctx.eq("exponential divides only by non-zero lengths", z, F, e.get("span") or q["span"])
    ctx.count("divisions examined", n)

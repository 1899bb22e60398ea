"""C02: every pose entry point applies the same rigid transform."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification"
RULE = "transform, transform_jacobians, transform_jacobian_input, transform_jacobian_self of all four pose kinds return canon(R*xyz + t*w, w)"
FLOOR = 12
NAMES = ("transform", "transform_jacobians", "transform_jacobian_input", "transform_jacobian_self")


def check(ctx):
    for P, I, O in POSES:
        for n in NAMES:
            path = m(P, POSE, n)
            r = ctx.run("cv_core", path)
            if not r:
                continue
            iso, h = iso_of(r.args[0]), hom_of(r.args[1])
            want = canon(apply_iso(iso, h))
            got = r.value if n == "transform" else r.value.f[0]
            u = band(bnot(alg.lt0(h.e[3])), nonzero_xyz(apply_iso(iso, h)))
            ctx.eq("%s::%s" % (P.split("::")[-1], n), hom_of(got), want, r.root["span"], u)
            ctx.true("%s::%s returns" % (P.split("::")[-1], n), r.pc, r.root["span"], u)

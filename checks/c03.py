"""C03: pose Jacobians."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms; symbolic comparison with the derivative of the extracted transform"
RULE = "input Jacobian = 4x4 homogeneous matrix of the pose; pose Jacobian = [w*I | -hat(R*xyz); 0 | 0]; combined entry point returns the same two"
FLOOR = 10


def jac_self(iso, h):
    R, t = iso.f
    H = hat(matmul(R, xyz(h)))
    cols = []
    for j in range(3):
        cols += [h.e[3] if i == j else ZERO for i in range(3)] + [ZERO]
    for j in range(3):
        cols += [neg(H.at(i, j)) for i in range(3)] + [ZERO]
    return Mat(4, 6, cols)


def check(ctx):
    for P, I, O in POSES:
        nm = P.split("::")[-1]
        r = ctx.run("cv_core", m(P, POSE, "transform_jacobian_input"))
        if r:
            ctx.eq("%s input Jacobian" % nm, r.value.f[1], homog(*iso_of(r.args[0]).f), r.root["span"])
        r = ctx.run("cv_core", m(P, POSE, "transform_jacobian_self"))
        if r:
            ctx.eq("%s pose Jacobian" % nm, r.value.f[1], jac_self(iso_of(r.args[0]), hom_of(r.args[1])), r.root["span"])
        r = ctx.run("cv_core", m(P, POSE, "transform_jacobians"))
        if r:
            ctx.eq("%s both: input Jacobian" % nm, r.value.f[1], homog(*iso_of(r.args[0]).f), r.root["span"])
            ctx.eq("%s both: pose Jacobian" % nm, r.value.f[2], jac_self(iso_of(r.args[0]), hom_of(r.args[1])), r.root["span"])

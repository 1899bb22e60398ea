"""C07: so(3) operators."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification"
RULE = "hat(w)v = w x v; vee(hat(w)) = w; hat2 = hat*hat; bracket = cross; jacobian_input = homogeneous exp; jacobian_self(y) = -hat(y); small rotation from I+hat(w)"
FLOOR = 6
S = "cv_core::so3::Skew3::"


def check(ctx):
    def run(n, **kw):
        return ctx.run("cv_core", S + n, **kw)
    r = run("hat")
    if r:
        w = hom_of(r.args[0])
        ctx.eq("hat", r.value, hat(w), r.root["span"])
        v = run("vee", over={0: hat(w)})
        if v:
            ctx.eq("vee inverts hat", hom_of(v.value), w, v.root["span"])
    r = run("hat2")
    if r:
        w = hom_of(r.args[0])
        ctx.eq("hat2 is hat squared", r.value, matmul(hat(w), hat(w)), r.root["span"])
    r = run("bracket")
    if r:
        ctx.eq("bracket is the cross product", hom_of(r.value), cross(hom_of(r.args[0]), hom_of(r.args[1])), r.root["span"])
    r = run("jacobian_self")
    if r:
        ctx.eq("jacobian_self is -hat(y)", r.value, vneg(hat(r.args[0])), r.root["span"])
    r = run("rotation")
    e = run("jacobian_input", over={0: r.args[0]} if r else None)
    if r and e:
        ctx.eq("jacobian_input is the homogeneous rotation", e.value, homog(r.value, zeros(3, 1)), e.root["span"])
    r = run("rotation_small")
    if r:
        w = hom_of(r.args[0])
        want = opaque_rot(None, "nearest_rotation", vadd(eye(3), hat(w)))
        ctx.eq("rotation_small is built from I + hat(w)", r.value, want, r.root["span"])
    ctx.accessors("cv_core", "cv_core::so3::Skew3")

"""C09: K1 distortion."""
from vlib.spec import *
from checks.c08 import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification; degenerate cases by partial evaluation of the formulas"
RULE = ("calibrate(p) = unit(d/(1+k1|d|^2), 1) with d the pinhole coordinate of p; uncalibrate(b) = matrix*(u*2/(1+sqrt(1-4 k1 |u|^2)), 1) with u = xy/z; "
        "with k1 = 0 or on the optical axis both equal the plain pinhole formulas and no division by zero remains")
FLOOR = 4
K1 = "cv_pinhole::CameraIntrinsicsK1Distortion"


def check(ctx):
    px, hooks = pixel_hook()
    ip = ctx.interp("cv_pinhole")
    r0 = ctx.anchor("cv_pinhole", m(K1, CM, "calibrate"))
    if not r0:
        return
    s0 = unref(ctx.fresh_args(ip, "cv_pinhole", r0)[0])
    si, k1 = ctx.fld(s0, "simple_intrinsics"), ctx.fld(s0, "k1")

    def cal_want(k):
        x, y = normalised(ctx, si, px)
        d = add(ONE, mul(k, add(mul(x, x), mul(y, y))))
        return unit(vec(div(x, d), div(y, d), ONE))
    with ctx.part("new"):
        r = ctx.run("cv_pinhole", K1 + "::new")
        if r:
            ctx.eq("new", r.value, ctx.mk(K1, simple_intrinsics=r.args[0], k1=r.args[1]), r.root["span"])
    for nm, k in (("", k1), (" without distortion", ZERO)):
        s = ctx.upd(s0, k1=k)
        with ctx.part("calibrate" + nm):
            r = ctx.run("cv_pinhole", m(K1, CM, "calibrate"), over={0: Ref(s)}, hooks=hooks)
            if r:
                ctx.eq("calibrate" + nm, r.value, cal_want(k), r.root["span"])
        with ctx.part("uncalibrate" + nm):
            r = ctx.run("cv_pinhole", m(K1, CM, "uncalibrate"), over={0: Ref(s)})
            if r:
                b = r.args[1]
                u = [div(b.e[0], b.e[2]), div(b.e[1], b.e[2])]
                u2 = add(mul(u[0], u[0]), mul(u[1], u[1]))
                f = div(num(2), add(ONE, alg.sqrt(sub(ONE, mul(num(4), mul(k, u2))))))
                h = matmul(kmat(ctx, si), vec(mul(u[0], f), mul(u[1], f), ONE))
                uncal_checks(ctx, "uncalibrate" + nm, r, xy(h), b)
    with ctx.part("optical axis"):
        r = ctx.run("cv_pinhole", m(K1, CM, "uncalibrate"), over={0: Ref(s0), 1: vec(ZERO, ZERO, ONE)})
        if r:
            fx, fy, cx, cy, sk = parts(ctx, si)
            ctx.eq("uncalibrate on the optical axis", some_pay(unref(r.value)), vec(cx, cy), r.root["span"])


def xy(h):
    return Mat(2, 1, h.e[:2])

"""C08: pinhole calibrate/uncalibrate."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification; inverse property by composing the two extracted formulas"
RULE = ("matrix = [[fx,s,cx],[0,fy,cy],[0,0,1]]; calibrate(p) = unit(matrix^-1 (p,1)); uncalibrate(b) = (matrix*b)/b.z when b.z >= 0, none when b.z < 0; "
        "uncalibrate after calibrate is the identity")
FLOOR = 4
CI = "cv_pinhole::CameraIntrinsics"
CM = "cv_core::camera::CameraModel"
IP = "cv_core::keypoint::ImagePoint::image_point"
OPT = "core::option::Option"


def parts(ctx, v):
    f, p, s = ctx.fld(v, "focals"), ctx.fld(v, "principal_point"), ctx.fld(v, "skew")
    return f.e[0], f.e[1], hom2(p)[0], hom2(p)[1], s


def hom2(p):
    p = unref(p)
    while isinstance(p, Agg):
        p = unref(p.f[0])
    return p.e


def kmat(ctx, v):
    fx, fy, cx, cy, s = parts(ctx, v)
    return rows([fx, s, cx], [ZERO, fy, cy], [ZERO, ZERO, ONE])


def pixel_hook():
    px = vec(alg.var("pixel.x"), alg.var("pixel.y"))

    def hk(ip, st, f, args, fr, t):
        return px
    return px, {IP: hk}


def normalised(ctx, v, px):
    """the (x, y) that the intrinsic matrix maps to the pixel"""
    fx, fy, cx, cy, s = parts(ctx, v)
    y = div(sub(px.e[1], cy), fy)
    x = div(sub(sub(px.e[0], cx), mul(s, y)), fx)
    return x, y


def unit(v):
    return unscale(v, norm(v))


def some_pay(o):
    """payload of an Option value"""
    p = o.payd()[1][0]
    while isinstance(p, Agg):
        p = unref(p.f[0])
    return p


def uncal_checks(ctx, name, r, want, b):
    """present unless z < 0, and the pixel is `want`"""
    o = unref(r.value)
    z = b.e[2]
    present = is_variant(o, 1)
    ctx.eq("%s gives nothing behind the camera" % name, present, F, r.root["span"], under=alg.lt0(z))
    ctx.eq("%s gives a pixel in front of the camera" % name, present, T, r.root["span"], under=alg.gt0(z))
    ctx.eq("%s pixel" % name, some_pay(o), want, r.root["span"], under=alg.gt0(z))


def check(ctx):
    with ctx.part("matrix"):
        r = ctx.run("cv_pinhole", CI + "::matrix")
        if r:
            ctx.eq("intrinsic matrix", r.value, kmat(ctx, r.args[0]), r.root["span"])
    px, hooks = pixel_hook()
    cal = None
    with ctx.part("calibrate"):
        r = cal = ctx.run("cv_pinhole", m(CI, CM, "calibrate"), hooks=hooks)
        if r:
            x, y = normalised(ctx, r.args[0], px)
            ctx.eq("calibrate", r.value, unit(vec(x, y, ONE)), r.root["span"])
    with ctx.part("uncalibrate"):
        r = ctx.run("cv_pinhole", m(CI, CM, "uncalibrate"))
        if r:
            b = r.args[1]
            h = matmul(kmat(ctx, r.args[0]), b)
            uncal_checks(ctx, "uncalibrate", r, vec(div(h.e[0], h.e[2]), div(h.e[1], h.e[2])), b)
    with ctx.part("round trip"):
        if cal:
            r = ctx.run("cv_pinhole", m(CI, CM, "uncalibrate"), over={0: cal.args[0], 1: cal.value})
            if r:
                ctx.eq("uncalibrate after calibrate", some_pay(unref(r.value)), px, r.root["span"])
    with ctx.part("image points"):
        for c, q in ctx.roots("cv_core", lambda q: q["name"] == "image_point" and "ImagePoint" in q["path"]):
            r = ctx.run(c, q["path"])
            if r:
                ctx.eq("image_point of %s" % q["path"].split(" as ")[0].split("::")[-1], Mat(2, 1, hom2(r.value)), Mat(2, 1, hom2(r.args[0])), q["span"])

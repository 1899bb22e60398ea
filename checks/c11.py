"""C11: essential matrix and residual."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification; epipolar constraint by composing the extracted formulas"
RULE = "E(pose) = hat(t)*R; residual(a,b) = |(b/b.z)^T E (a/a.z)|; residual of (p, R*p+t) under E(R,t) is identically zero; wrapper accessors are transparent"
FLOOR = 3
EM = "cv_pinhole::essential::EssentialMatrix"
FM = "cv_core::matches::FeatureMatch"
FROM = "<%s as core::convert::From<cv_core::pose::CameraToCamera>>::from" % EM
RES = "<%s as sample_consensus::Model<%s>>::residual" % (EM, FM)


def mat_of(v):
    v = unref(v)
    while isinstance(v, Agg):
        v = unref(v.f[0])
    return v


def match_of(v):
    v = unref(v)
    return [unref(x) for x in v.f]


def check(ctx):
    e = None
    with ctx.part("essential from pose"):
        e = ctx.run("cv_pinhole", FROM)
        if e:
            R, t = iso_of(e.args[0]).f
            ctx.eq("essential from pose", mat_of(e.value), matmul(hat(t), R), e.root["span"])
    with ctx.part("residual"):
        r = ctx.run("cv_pinhole", RES)
        if r:
            E = mat_of(r.args[0])
            a, b = match_of(r.args[1])
            na, nb = unscale(a, a.e[2]), unscale(b, b.e[2])
            ctx.eq("residual", r.value, alg.absv(dot(nb, matmul(E, na))), r.root["span"])
    with ctx.part("exact match"):
        if e:
            R, t = iso_of(e.args[0]).f
            p = vec(*[alg.var("p." + c) for c in "xyz"])
            q = vadd(matmul(R, p), t)
            r = ctx.run("cv_pinhole", RES, over={0: Ref(e.value), 1: Ref(Agg(FM, [p, q]))})
            if r:
                ctx.eq("a point transformed from A to B has zero residual", r.value, ZERO, r.root["span"])
    with ctx.part("accessors"):
        ctx.accessors("cv_pinhole", EM)

"""C06: tangent-space arithmetic."""
from vlib.spec import *
from checks.c05 import exp_spec

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification"
RULE = ("Se3TangentSpace acts as a pair of independent 3-vectors: every operation's translation and rotation parts are the stated functions of the "
        "arguments' own parts; new() replaces exactly a part containing NaN by zero")
FLOOR = 6
S = "cv_core::so3::Se3TangentSpace"
ADD, ADDA, SUM = ("<%s as core::ops::arith::Add<%s>>::add" % (S, S), "<%s as core::ops::arith::AddAssign<%s>>::add_assign" % (S, S),
                  "<%s as core::iter::traits::accum::Sum<%s>>::sum" % (S, S))


def guard0(v):
    bad = bor(*[alg.isnan(e) for e in v.e])
    return mmap(lambda e: ite(bad, ZERO, e), v)


def check(ctx):
    def t(v):
        return ctx.fld(v, "translation")

    def r_(v):
        return ctx.fld(v, "rotation")

    def pair(a, b):
        return ctx.mk(S, translation=a, rotation=b)

    def chk(name, path, want, over=None):
        with ctx.part(name):
            r = ctx.run("cv_core", path, over=over)
            if r:
                args = [r.read(a) for a in r.args]
                ctx.eq(name, r.read(r.value), want(*args), r.root["span"])
    z = zeros(3, 1)
    chk("new", S + "::new", lambda a, b: pair(guard0(a), guard0(b)))
    chk("identity", S + "::identity", lambda: pair(z, z))
    chk("inverse", S + "::inverse", lambda a: pair(vneg(t(a)), vneg(r_(a))))
    chk("scale", S + "::scale", lambda a, k: pair(scale(t(a), k), scale(r_(a), k)))
    chk("scale_translation", S + "::scale_translation", lambda a, k: pair(scale(t(a), k), r_(a)))
    chk("scale_rotation", S + "::scale_rotation", lambda a, k: pair(t(a), scale(r_(a), k)))
    chk("to_vec", S + "::to_vec", lambda a: Mat(6, 1, t(a).e + r_(a).e))
    chk("from_vec", S + "::from_vec", lambda v: pair(Mat(3, 1, v.e[:3]), Mat(3, 1, v.e[3:])))
    chk("add", ADD, lambda a, b: pair(vadd(t(a), t(b)), vadd(r_(a), r_(b))))
    with ctx.part("add_assign"):
        r = ctx.run("cv_core", ADDA)
        if r:
            ip = ctx.interp("cv_core")
            a0, b = ctx.fresh_args(ip, "cv_core", r.root)
            a0, b = unref(a0), unref(b)
            ctx.eq("add_assign", r.read(r.after(0)), pair(vadd(t(a0), t(b)), vadd(r_(a0), r_(b))), r.root["span"])
    with ctx.part("sum"):
        ip = ctx.interp("cv_core")
        q = ctx.find("cv_core", S + "::inverse")
        ty = Ty_(ctx, q)
        xs = [ip.fresh(ty, "s%d" % i) for i in range(3)]
        for n in range(4):
            r = ctx.run("cv_core", SUM, over={0: Lst([("i", T, x) for x in xs[:n]], "it")})
            if r:
                ctx.eq("sum of %d" % n, r.read(r.value), pair(vadd(z, *[t(x) for x in xs[:n]]), vadd(z, *[r_(x) for x in xs[:n]])), r.root["span"])
    chk("l1", S + "::l1", lambda a: pair(guard0(unscale(t(a), norm(t(a)))), guard0(unscale(r_(a), norm(r_(a))))))
    ex = lambda w: opaque_rot(None, "exp", w)
    chk("isometry", S + "::isometry", lambda a: Agg("iso", [ex(r_(a)), matmul(ex(r_(a)), t(a))]))
    chk("rotations", S + "::rotations", lambda a: Agg("tuple", [ex(t(a)), ex(r_(a))]))


def Ty_(ctx, q):
    from vlib.interp import Ty
    return Ty(ctx.D["cv_core"], q["inputs"][0])

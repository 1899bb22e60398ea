"""C10: setters and specifications."""
from vlib.spec import *
from checks.c08 import CI

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification, over every by-value setter found in the crates"
RULE = ("a by-value method named like a field of its receiver returns the receiver with exactly that field replaced; focal sets both focal lengths; "
        "new() = default(); sensor specifications and identity/centred intrinsics as stated")
FLOOR = 12
G = "cv_geom::triangulation::"
SETTERS = [("cv_pinhole", CI, "focals"), ("cv_pinhole", CI, "principal_point"), ("cv_pinhole", CI, "skew"),
           ("cv_geom", G + "LinearEigenTriangulator", "epsilon"), ("cv_geom", G + "LinearEigenTriangulator", "max_iterations"),
           ("cv_geom", G + "SineL1Triangulator", "epsilon"), ("cv_geom", G + "SineL1Triangulator", "max_iterations"),
           ("cv_geom", G + "SineL1Triangulator", "optimization_rate"),
           ("cv_geom", G + "RelativeDltTriangulator", "epsilon"), ("cv_geom", G + "RelativeDltTriangulator", "max_iterations"),
           ("lambda_twist", "lambda_twist::LambdaTwist", "gauss_newton_iterations"),
           ("lambda_twist", "lambda_twist::LambdaTwist", "rotation_convergence_iterations"),
           ("lambda_twist", "lambda_twist::LambdaTwist", "rotation_convergence_epsilon")]
CS = "cv_pinhole::CameraSpecification"


def check(ctx):
    for c, t, f in SETTERS:
        ctx.anchor(c, "%s::%s" % (t, f))
    n = 0
    for c, q in ctx.roots():
        if len(q["inputs"]) != 2 or q["path"].count("::") < 2:
            continue
        ti, to = ctx.tj(c, q["inputs"][0]), ctx.tj(c, q["output"])
        p = ti.get("path", "")
        if not p or p != to.get("path") or not q["path"].startswith(p + "::"):
            continue
        try:
            fs = ctx.fields(p)
        except KeyError:
            continue
        if q["name"] not in fs:
            continue
        short = p.split("::")[-1]
        with ctx.part("setter"):
            r = ctx.run(c, q["path"])
            if r:
                n += 1
                ctx.eq("%s::%s" % (short, q["name"]), r.value, ctx.upd(r.args[0], **{q["name"]: r.args[1]}), q["span"])
    ctx.count("setters", n)
    with ctx.part("focal"):
        r = ctx.run("cv_pinhole", CI + "::focal")
        if r:
            ctx.eq("CameraIntrinsics::focal", r.value, ctx.upd(r.args[0], focals=vec(r.args[1], r.args[1])), r.root["span"])
    for c, q in ctx.roots(None, lambda q: q["name"] == "new" and not q["inputs"]):
        t = ctx.tj(c, q["output"]).get("path", "")
        d = ctx.find(c, "<%s as core::default::Default>::default" % t)
        if not t or d is None:
            continue
        with ctx.part("new"):
            a, b = ctx.run(c, q["path"]), ctx.run(c, d["path"])
            if a and b:
                ctx.eq("%s::new is the default" % t.split("::")[-1], a.value, b.value, q["span"])
    with ctx.part("identity"):
        r = ctx.run("cv_pinhole", CI + "::identity")
        if r:
            ctx.eq("identity intrinsics", r.value, ctx.mk(CI, focals=vec(ONE, ONE), principal_point=vec(ZERO, ZERO), skew=ZERO), r.root["span"])
    with ctx.part("from_sensor"):
        r = ctx.run("cv_pinhole", CS + "::from_sensor")
        if r:
            px, s = r.args
            ctx.eq("from_sensor", r.value, ctx.mk(CS, pixels=px, pixel_dimensions=vec(div(s.e[0], px.e[0]), div(s.e[1], px.e[1]))), r.root["span"])
    with ctx.part("from_sensor_square"):
        r = ctx.run("cv_pinhole", CS + "::from_sensor_square")
        if r:
            px, s = r.args
            w = div(s, px.e[0])
            ctx.eq("from_sensor_square", r.value, ctx.mk(CS, pixels=px, pixel_dimensions=vec(w, w)), r.root["span"])
    with ctx.part("intrinsics_centered"):
        r = ctx.run("cv_pinhole", CS + "::intrinsics_centered")
        if r:
            px, f = ctx.fld(unref(r.args[0]), "pixels"), r.args[1]
            half = num(alg.Fraction(1, 2))
            cc = [mul(half, sub(e, ONE)) for e in px.e]
            ctx.eq("intrinsics_centered", r.value, ctx.mk(CI, focals=vec(f, f), principal_point=vec(*cc), skew=ZERO), r.root["span"])

"""C04: pose algebra."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification"
RULE = "identity=(I,0); inverse=(R^T,-R^T t); scale multiplies t only; parts/isometry/matrix/conversions read and write (R,t); from_camera_poses = inverse(B)*A"
FLOOR = 18
ISO_TR = "nalgebra::geometry::isometry::Isometry<f64,nalgebra::geometry::rotation::Rotation<f64,3>,3>"


def check(ctx):
    for P, I, O in POSES:
        nm = P.split("::")[-1]

        def run(n):
            return ctx.run("cv_core", m(P, POSE, n))
        r = run("identity")
        if r:
            ctx.eq("%s identity" % nm, iso_of(r.value), Agg("iso", [eye(3), zeros(3, 1)]), r.root["span"])
        r = run("inverse")
        if r:
            ctx.eq("%s inverse" % nm, iso_of(r.value), iso_inv(iso_of(r.args[0])), r.root["span"])
            out = ctx.tj("cv_core", r.root["output"])
            ctx.holds("%s inverse maps the other way" % nm, out.get("path") == INV[P], "inverse of %s is %s instead of %s" % (P, out.get("path"), INV[P]), r.root["span"])
        r = run("scale")
        if r:
            R, t = iso_of(r.args[0]).f
            ctx.eq("%s scale" % nm, iso_of(r.value), Agg("iso", [R, scale(t, r.args[1])]), r.root["span"])
        r = run("from_parts")
        if r:
            ctx.eq("%s from_parts" % nm, iso_of(r.value), Agg("iso", [r.args[1], r.args[0]]), r.root["span"])
        r = run("homogeneous")
        if r:
            ctx.eq("%s homogeneous matrix" % nm, r.value, homog(*iso_of(r.args[0]).f), r.root["span"])
        r = run("isometry")
        if r:
            ctx.eq("%s isometry" % nm, r.value, iso_of(r.args[0]), r.root["span"])
        # conversions and in-place access generated for the pose type read and write the stored isometry itself
        for c, q in ctx.roots("cv_core", lambda q: q["name"] == "from" and len(q["inputs"]) == 1):
            ti, to = ctx.tj(c, q["inputs"][0]), ctx.tj(c, q["output"])
            a, b = ti.get("path", ""), to.get("path", "")
            if (a == P and b.endswith("isometry::Isometry")) or (b == P and a.endswith("isometry::Isometry")):
                r = ctx.run(c, q["path"])
                if r:
                    ctx.eq("%s conversion %s -> %s" % (nm, a.split("::")[-1], b.split("::")[-1]), iso_of(r.value), iso_of(r.args[0]), q["span"])
    # points: the inverse of a pose undoes it, as a consequence of the two extracted formulas
    for P, I, O in POSES:
        nm = P.split("::")[-1]
        a = ctx.run("cv_core", m(P, POSE, "inverse"))
        if not a:
            continue
        i1, i2 = iso_of(a.args[0]), iso_of(a.value)
        ctx.eq("%s inverse after pose keeps every point" % nm, iso_mul(i2, i1).f[1], zeros(3, 1), a.root["span"])
    r = ctx.run("cv_core", "cv_core::pose::WorldToWorld::from_camera_poses")
    if r:
        a, b = iso_of(r.args[0]), iso_of(r.args[1])
        ctx.eq("WorldToWorld::from_camera_poses", iso_of(r.value), iso_mul(iso_inv(b), a), r.root["span"])

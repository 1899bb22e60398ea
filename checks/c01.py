"""C01: canonical homogeneous points."""
from vlib.spec import *
from vlib.graph import agg_sites

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms, compared with the specification; construction-site scan of the stored field"
RULE = ("from_homogeneous stores s*h/|xyz| with s=-1 exactly when w is negative; homogeneous/bearing/point read the stored vector as is; "
        "CameraPoint's stored vector is private, has no mutable access path, and is only built by from_homogeneous_unchecked or derived code")
FLOOR = 12


def check(ctx):
    for ty in (CAM, WORLD):
        n = ty.split("::")[-1]
        r = ctx.run("cv_core", m(ty, PROJ, "from_homogeneous"))
        if r:
            h = hom_of(r.args[0])
            ctx.eq("%s from_homogeneous is canonical" % n, hom_of(r.value), canon(h), r.root["span"], nonzero_xyz(h))
            ctx.true("%s from_homogeneous always returns" % n, r.pc, r.root["span"])
        r = ctx.run("cv_core", m(ty, PROJ, "from_point"))
        if r:
            p = r.args[0]
            h = Mat(4, 1, list(p.e) + [ONE])
            ctx.eq("%s from_point is canonical" % n, hom_of(r.value), canon(h), r.root["span"], nonzero_xyz(h))
        r = ctx.run("cv_core", m(ty, PROJ, "from_homogeneous_unchecked"))
        if r:
            ctx.eq("%s from_homogeneous_unchecked stores its argument" % n, hom_of(r.value), r.args[0], r.root["span"])
        r = ctx.run("cv_core", m(ty, PROJ, "homogeneous"))
        if r:
            ctx.eq("%s homogeneous reads the stored vector" % n, r.value, hom_of(r.args[0]), r.root["span"])
        r = ctx.run("cv_core", m(ty, PROJ, "bearing"))
        if r:
            h = hom_of(r.args[0])
            # on a canonical point xyz is a unit vector: both readings (as stored / renormalised) agree there
            ctx.eq("%s bearing is xyz" % n, r.value, xyz(h), r.root["span"], alg.eq0(sub(nsq(xyz(h)), ONE)) if not ctx.same(r.value, xyz(h)) else T)
        r = ctx.run("cv_core", m(ty, PROJ, "point"))
        if r:
            h = hom_of(r.args[0])
            ctx.eq("%s point is xyz/w, absent at infinity" % n, r.value, opt(bnot(alg.eq0(h.e[3])), unscale(xyz(h), h.e[3])), r.root["span"], bnot(alg.lt0(h.e[3])))
        # round trips through the stored form
        ip = ctx.interp("cv_core")
        h = ip.fresh(ctx.ty("cv_core", m(ty, PROJ, "from_homogeneous"), 0), "h")
        a = ctx.run("cv_core", m(ty, PROJ, "from_homogeneous"), over={0: h}, ip=ip)
        if a:
            b = ctx.run("cv_core", m(ty, PROJ, "point"), over={0: a.value})
            if b:
                ctx.eq("%s point of a canonicalised vector is its Euclidean position" % n, b.value,
                       opt(bnot(alg.eq0(h.e[3])), unscale(xyz(h), h.e[3])), b.root["span"], nonzero_xyz(h))
    encapsulation(ctx)


def encapsulation(ctx):
    """the stored vector of CameraPoint: private field, no `&mut` handed out, every other constructor canonicalises"""
    adt = ctx.adt("cv_core", CAM)
    if adt is None:
        ctx.violate("anchor:CameraPoint", "type cv_core::CameraPoint is missing", "")
        return
    for x in adt["variants"][0]["fields"]:
        ctx.holds("CameraPoint field %s is private" % x["name"], not x["pub"], "the stored vector of CameraPoint is a public field", adt["span"])
    builders = {}
    for c, key, b, span in agg_sites(ctx.D, CAM):
        if c == "cv_core":
            builders.setdefault(b["path"], span)
    ctx.count("functions constructing CameraPoint directly", len(builders))
    ctx.holds("construction sites seen", bool(builders), "no construction site of CameraPoint found: the scan no longer sees the code", "")
    seen = 0
    for c, r in ctx.roots("cv_core", lambda r: r["reach"] and not r["prov"]):
        tin = [ctx.tj(c, i) for i in r["inputs"]]
        out = ctx.tj(c, r["output"])
        seen += 1
        if out.get("k") == "ref" and out.get("mut") and any(t.get("k") == "ref" and t.get("mut") and ctx.tj(c, t["e"]).get("path") == CAM for t in tin):
            ctx.violate("mutable access %s" % r["path"], "safe function `%s` hands out mutable access to the stored vector of CameraPoint" % r["path"], r["span"])
        if r["path"] in builders and r["name"] != "from_homogeneous_unchecked" and out.get("path") == CAM and r["trait"] not in ("core::clone::Clone",) and "serde" not in str(r["trait"]):
            v = ctx.run(c, r["path"])
            if v:
                h = hom_of(v.value)
                ctx.eq("constructor %s yields a unit bearing" % r["path"], nsq(xyz(h)), ONE, r["span"])
    for c, r in ctx.roots("cv_core", lambda r: r["reach"] and r["name"] in MUTATORS):
        t = ctx.tj(c, r["inputs"][0])
        if t.get("k") == "ref" and t.get("mut") and ctx.tj(c, t["e"]).get("path") == CAM:
            ctx.violate("mutable access %s" % r["path"], "`%s` mutates the stored vector of CameraPoint in place" % r["path"], r["span"])
    ctx.count("public functions checked for mutable access", seen)
    ctx.holds("mutable-access scan ran", seen > 50, "the scan saw only %d public functions" % seen, "")


MUTATORS = ("deref_mut", "as_mut", "index_mut", "borrow_mut", "add_assign", "sub_assign", "mul_assign", "div_assign")

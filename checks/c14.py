"""C14: relative triangulation is world triangulation with camera A as the world."""
from vlib.spec import *
from vlib.interp import Ty
from checks.c13 import G, TO, TR, OBS

TECHNIQUE = "abstract interpretation of the compiled MIR with the world triangulation as an uninterpreted operation whose argument sequence is recorded and compared"
RULE = ("triangulate_observations_to_camera(b0, [(P_i,b_i)]) = triangulate_observations([(identity,b0),(P_1,b_1),..]) on the same triangulator, its point read as a camera point with the same "
        "homogeneous vector; triangulate_relative(P,a,b) = the same with the single further observation (P,b); absent exactly when the world triangulation is")
FLOOR = 12
MANY = 200
W2C, C2C = "cv_core::pose::WorldToCamera", "cv_core::pose::CameraToCamera"


def recorder(calls):
    """an uninterpreted world triangulation"""
    def hk(ip, st, f, args, fr, t):
        segs = ip.to_segs(st, args[1])
        out = Ty(fr.dump, t["dt"] if t is not None else f["out"])
        k = len(calls)
        h = Mat(4, 1, list(fresh_unit("tri%d" % k).e) + [alg.var("tri%d.w" % k, True)])
        if out.j.get("path") != OPTION:
            return NotImplemented
        v = opt(alg.bvar(("sym", "tri%d.some" % k), ()), Agg(WORLD, [h]))
        calls.append((ip.strip(st, args[0]), segs, v, st.pc))
        return v
    return hk


def cam_recorder(calls):
    """the same for the camera-frame triangulation, where its implementation is not known (a generic triangulator)"""
    def hk(ip, st, f, args, fr, t):
        if f.get("key"):
            return NotImplemented
        k = len(calls)
        h = Mat(4, 1, list(fresh_unit("tri%d" % k).e) + [alg.var("tri%d.w" % k, True)])
        v = opt(alg.bvar(("sym", "tri%d.some" % k), ()), Agg(CAM, [h]))
        me = Agg("tuple", [Agg(W2C, [Agg("iso", [eye(3), zeros(3, 1)])]), ip.strip(st, args[1])])
        calls.append((ip.strip(st, args[0]), (("i", T, me),) + tuple(ip.to_segs(st, args[2])), v, st.pc))
        return v
    return hk


def plain(segs):
    if segs is None or any(s[0] != "i" for s in segs):
        return None
    return [s[2] for s in segs]


def one(ctx, nm, r, calls, tri, want):
    """exactly one world triangulation, given exactly `want` = [(isometry, bearing)], and its point comes back"""
    sp = r.root["span"]
    if len(calls) != 1:
        if not calls:
            ctx.undecided(nm, "the world triangulation is not called through its trait")
        else:
            ctx.undecided(nm, "%d world triangulations" % len(calls))
        return
    slf, segs, res, pc = calls[0]
    ctx.eq("%s: on the caller's own triangulator" % nm, slf, unref(tri), sp)
    items = plain(segs)
    if items is None:
        ctx.undecided(nm, "the observations are not listed one by one")
        return
    if any(s[1] is not T for s in segs):
        from vlib.models import compact
        segs = compact(segs)
        for i, s in enumerate(segs[:len(want)]):
            ctx.eq("%s: observation %d is there" % (nm, i), s[1], T, sp)
        for i, s in enumerate(segs[len(want):]):
            ctx.eq("%s: nothing after the last observation" % nm, s[1], F, sp)
        segs = segs[:len(want)]
        items = [s[2] for s in segs]
    if not ctx.holds("%s: number of observations" % nm, len(items) == len(want),
                     "%s hands %d observations to the world triangulation instead of %d" % (nm, len(items), len(want)), sp):
        return
    for i, (it, (iso, b)) in enumerate(zip(items, want)):
        p, bb = unref(it).f
        ctx.eq("%s: pose of observation %d" % (nm, i), iso_of(p), iso, sp)
        ctx.eq("%s: bearing of observation %d" % (nm, i), bb, b, sp)
    o = unref(r.value)
    ctx.eq("%s: absent exactly when the world triangulation is" % nm, is_variant(o, 1), is_variant(res, 1), sp)
    ctx.eq("%s: same homogeneous vector" % nm, hom_of(o.payd()[1][0]), hom_of(res.payd()[1][0]), sp)


def check(ctx):
    ident = Agg("iso", [eye(3), zeros(3, 1)])
    for t in OBS:
        short = t.split("::")[-1]
        path = m(t, TO, "triangulate_observations_to_camera")
        ctx.anchor("cv_geom", path)
        for n in (0, 1, 3, MANY) if ctx.tier == "quick" else (0, 1, 2, 3, 4, 5, 6, MANY, 5 * MANY):
            nm = "%s to camera with %d further observations" % (short, n)
            with ctx.part(nm):
                calls = []
                ip = ctx.interp("cv_geom", hooks={TO + "::triangulate_observations": recorder(calls), m(t, TO, "triangulate_observations"): recorder(calls)})
                L, obs = observations(ip, n, C2C) if n < MANY else known_observations(n, C2C)
                r = ctx.run("cv_geom", path, over={2: L}, ip=ip)
                if r:
                    one(ctx, nm, r, calls, r.args[0], [(ident, r.args[1])] + obs)
    path = m("T", TR, "triangulate_relative")
    roots = list(ctx.roots(None, lambda q: q["path"] == path))
    ctx.holds("two-view triangulation is provided for every world triangulator", roots, "the blanket two-view triangulation is missing", "")
    for c, q in roots:
        nm = "two-view triangulation (%s)" % c
        with ctx.part(nm):
            calls = []
            h = recorder(calls)
            hooks = {TO + "::triangulate_observations": h, TO + "::triangulate_observations_to_camera": cam_recorder(calls)}
            for t in OBS:
                hooks[m(t, TO, "triangulate_observations")] = h
            r = ctx.run(c, q["path"], hooks=hooks)
            if r:
                one(ctx, nm, r, calls, r.args[0], [(ident, r.args[2]), (iso_of(r.args[1]), r.args[3])])

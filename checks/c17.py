"""C17: two-view reprojection error."""
from vlib.spec import *
from vlib.interp import Ty
from checks.c13 import TR
from checks.c11 import match_of

TECHNIQUE = "abstract interpretation of the compiled MIR with the triangulator as an uninterpreted operation whose arguments are recorded, compared with the specification"
RULE = ("the triangulator gets the caller's own pose, a and b; with X its point: error = [a.xy/a.z - X.xy/X.z, b.xy/b.z - Y.xy/Y.z], Y = R*X.xyz + t*X.w; present exactly when the "
        "triangulation is and X.z, Y.z are positive; average = half the sum of the norms")
FLOOR = 6
PATHS = ["cv_pinhole::pose_reprojection_error", "cv_pinhole::average_pose_reprojection_error"]


def rel_recorder(calls):
    def hk(ip, st, f, args, fr, t):
        out = Ty(fr.dump, t["dt"] if t is not None else f["out"])
        if out.j.get("path") != OPTION:
            return NotImplemented
        k = len(calls)
        h = Mat(4, 1, list(fresh_unit("tri%d" % k).e) + [alg.var("tri%d.w" % k, True)])
        v = opt(alg.bvar(("sym", "tri%d.some" % k), ()), Agg(CAM, [h]))
        calls.append((ip.strip(st, args[0]), [ip.strip(st, a) for a in args[1:]], v, st.pc))
        return v
    return hk


def errors(iso, a, b, h):
    y = xyz(apply_iso(iso, h))
    x = xyz(h)

    def n2(v):
        return Mat(2, 1, [div(v.e[0], v.e[2]), div(v.e[1], v.e[2])])
    return vsub(n2(a), n2(x)), vsub(n2(b), n2(y)), y


def averaged(ctx):
    """the average in terms of the two errors, when it is computed from them: True when decided here"""
    calls = []

    def hk(ip, st, f, args, fr, t):
        es = [Mat(2, 1, [alg.var("e%d%s" % (i, c)) for c in "xy"]) for i in range(2)]
        v = opt(alg.bvar(("sym", "err.some"), ()), Lst([("i", T, e) for e in es], "array"))
        calls.append(([ip.strip(st, a) for a in args], es, v))
        return v
    r = ctx.run("cv_pinhole", PATHS[1], hooks={PATHS[0]: hk})
    if not r or len(calls) != 1:
        return False
    nm, sp = "average_pose_reprojection_error", r.root["span"]
    args, es, v = calls[0]
    for w, x, y in zip(("pose", "match", "triangulator"), args, r.args):
        ctx.eq("%s: %s handed on" % (nm, w), x, unref(y), sp)
    o = unref(r.value)
    ctx.eq("%s: absent exactly when the errors are" % nm, is_variant(o, 1), is_variant(v, 1), sp)
    if 1 in o.payd():
        ctx.eq("%s: half the sum of the norms" % nm, o.payd()[1][0], div(add(norm(es[0]), norm(es[1])), num(2)), sp, under=is_variant(v, 1))
    return True


def check(ctx):
    done = False
    with ctx.part("average"):
        ctx.anchor("cv_pinhole", PATHS[1])
        done = averaged(ctx)
    for path, avg in zip(PATHS, (False, True)):
        if avg and done:
            continue
        nm = path.split("::")[-1]
        with ctx.part(nm):
            calls = []
            hk = rel_recorder(calls)
            r = ctx.run("cv_pinhole", path, hooks={TR + "::triangulate_relative": hk, "TriangulatorRelative::triangulate_relative": hk})
            if not r:
                continue
            sp = r.root["span"]
            iso, (a, b) = iso_of(r.args[0]), match_of(r.args[1])
            if len(calls) != 1:
                ctx.undecided(nm, "%d triangulations through the trait" % len(calls))
                continue
            slf, (p, ca, cb), res, pc = calls[0]
            ctx.eq("%s: the caller's triangulator" % nm, slf, unref(r.args[2]), sp)
            ctx.eq("%s: pose given to the triangulator" % nm, iso_of(p), iso, sp)
            ctx.eq("%s: bearings given to the triangulator" % nm, Agg("tuple", [ca, cb]), Agg("tuple", [a, b]), sp)
            h = hom_of(res.payd()[1][0])
            ea, eb, y = errors(iso, a, b, h)
            some = is_variant(res, 1)
            o = unref(r.value)
            C = is_variant(o, 1)
            off = band(bnot(alg.eq0(h.e[2])), bnot(alg.eq0(y.e[2])))
            ctx.eq("%s: absent exactly when there is no point in front of both cameras" % nm, C,
                   band(some, alg.gt0(h.e[2]), alg.gt0(y.e[2])), sp, under=off)
            if C is F:
                continue
            under = band(C, off, bnot(alg.eq0(a.e[2])), bnot(alg.eq0(b.e[2])))
            pay = r.read(o.payd()[1][0])
            if avg:
                ctx.eq("%s: half the sum of the norms" % nm, pay, div(add(norm(ea), norm(eb)), num(2)), sp, under=under)
            else:
                ga, gb = pay.items() if isinstance(pay, Lst) else pay.f
                ctx.eq("%s: camera A" % nm, ga, ea, sp, under=under)
                ctx.eq("%s: camera B" % nm, gb, eb, sp, under=under)

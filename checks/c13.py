"""C13: triangulators return only finite points in front of every camera."""
from vlib.spec import *

TECHNIQUE = "abstract interpretation of the compiled MIR: the condition under which a point is returned, as a decision diagram, must imply the filters on that point"
RULE = ("the return condition of every triangulator implies that each of the four homogeneous components passed a finiteness test and that, for every observation "
        "(pose R,t and bearing b), dot(b, R*xyz + t*w) >= 0 for the returned point")
FLOOR = 6
MANY = 12
G = "cv_geom::triangulation::"
TO = "cv_core::triangulation::TriangulatorObservations"
TR = "cv_core::triangulation::TriangulatorRelative"
OBS = [G + "LinearEigenTriangulator", G + "SineL1Triangulator", G + "MeanMeanTriangulator"]
REL = [G + "RelativeDltTriangulator", G + "AngularL1Triangulator", G + "AngularLInfinityTriangulator"]


def sup(cond):
    """finiteness and NaN tests a condition depends on: [(kind, expression)]"""
    return [alg.VARS[v] for v in alg.bvars(cond) if alg.VARS[v][0] in ("fin", "nan")]


def same_up_to_scale(r, l):
    q = (r * l.inv()) if not l.is_zero() else None
    return q is not None and q.const() is not None and q.const() != 0


def finite(ctx, name, C, h, where):
    S = sup(C)
    comps = [l for e in h.e for l in alg.leaves(e) if isinstance(l, alg.Rat)]
    plain = all(any(same_up_to_scale(k[1], l) for l in comps) for k in S)
    for i, e in enumerate(h.e):
        nm = "%s: component %s is finite" % (name, "xyzw"[i])
        bad = band(C, bnot(alg.isfin(e)))
        if bad is F or alg.same(bad, F):
            ctx.ok(nm)
            continue
        ats = set()
        for l in alg.leaves(e):
            if isinstance(l, alg.Rat):
                ats |= deep_atoms(l)
        touched = any(deep_atoms(k[1]) & ats for k in S)
        if plain or not touched:
            ctx.violate(nm, "%s returns a point whose component %s has passed no finiteness test on some path (tests on the path: %s)" % (
                name, "xyzw"[i], ", ".join(sorted("%s(%s)" % (k[0], repr(k[1])[:60]) for k in S)) or "none"), where)
        else:
            ctx.undecided(nm, "finiteness tests of other expressions are on the path")


def deep_atoms(r, acc=None):
    acc = set() if acc is None else acc
    for p in [r.n] + [f for f, _ in r.d]:
        for a in p.atoms():
            if a in acc:
                continue
            acc.add(a)
            if a in alg.SQRT:
                deep_atoms(alg.Rat(alg.SQRT[a]), acc)
            elif alg.ATOMS[a][0] == "let":
                deep_atoms(alg.LETDEF[a], acc)
            elif alg.ATOMS[a][0] == "abs":
                deep_atoms(alg.Rat(alg.ATOMS[a][1]), acc)
    return acc


def in_front(ctx, name, C, h, obs, where):
    for i, (iso, b) in enumerate(obs):
        q = apply_iso(iso, h)
        ctx.eq("%s: in front of camera %d" % (name, i), band(C, alg.lt0(dot(b, xyz(q)))), F, where, uf=True,
               text="a point behind camera %d is returned" % i)


def examine(ctx, name, r, obs):
    o = unref(r.value)
    C = is_variant(o, 1)
    if C is F:
        return False
    h = hom_of(o.payd()[1][0])
    finite(ctx, name, C, h, r.root["span"])
    in_front(ctx, name, C, h, obs, r.root["span"])
    return True


def rel_obs(r):
    return [(Agg("iso", [eye(3), zeros(3, 1)]), r.args[2]), (iso_of(r.args[1]), r.args[3])]


def check(ctx):
    for t in OBS:
        ctx.anchor("cv_geom", m(t, TO, "triangulate_observations"))
    for t in REL:
        ctx.anchor("cv_geom", m(t, TR, "triangulate_relative"))
    for c, q in ctx.roots(None, lambda q: q["name"] == "triangulate_observations" and " as %s>" % TO in q["path"]):
        for n in (2, 3) if ctx.tier == "quick" else (2, 3, 4, 5, 6):
            nm = "%s with %d observations" % (q["path"].split(" as ")[0].split("::")[-1], n)
            with ctx.part(nm):
                ip = ctx.interp(c, hooks=cut_points(c + "::")[0])
                L, obs = observations(ip, n)
                r = ctx.run(c, q["path"], over={1: L}, ip=ip)
                if r:
                    examine(ctx, nm, r, obs)
        nm = "%s with many known observations" % q["path"].split(" as ")[0].split("::")[-1]
        with ctx.part(nm):
            L, obs = known_observations(MANY)
            r = ctx.run(c, q["path"], over={1: L}, hooks=cut_points(c + "::")[0], limit=60)
            if r:
                examine(ctx, nm, r, obs)
    for c, q in ctx.roots(None, lambda q: q["name"] == "triangulate_relative" and " as %s>" % TR in q["path"] and not q["path"].startswith("<T as")):
        nm = q["path"].split(" as ")[0].split("::")[-1]
        with ctx.part(nm):
            r = ctx.run(c, q["path"], hooks=cut_points(c + "::")[0])
            if r:
                examine(ctx, nm, r, rel_obs(r))

"""C30: minimal solvers use all their samples and answer failure with no models."""
from vlib import models
from vlib.spec import *
from vlib.interp import subst
from checks.c11 import mat_of, EM
from checks.c19 import sym_matches, as_iter, normal, in_span, SCALES, FM
from checks.c20 import EST as NS, NB, POSES, STD, ROWS
from checks.c21 import Rec, EST as LTE, FWM, world_matches, atoms_of

TECHNIQUE = "abstract interpretation of the compiled MIR of the three estimators on symbolic and degenerate samples: which sample reaches which slot, what is returned on each failing branch, and how many models can be collected"
RULE = ("declared sample counts 8, 5, 3; with that many or more samples, exactly that many are used, each once and with its own partner; no model is returned when the decomposition or elimination "
        "fails, the nullity is not four, a world point is at infinity, or the coordinate matrix is singular; a failing candidate contributes nothing, a good one all its four poses; at most the declared capacity is collected")
FLOOR = 12
EP = "<eight_point::EightPoint as sample_consensus::Estimator<%s>>::estimate" % FM
CPN = "lambda_twist::LambdaTwist::compute_poses_nordberg"
NEED = {"eight_point": ("eight_point::EightPoint", 8), "nister_stewenius": ("nister_stewenius::NisterStewenius", 5), "lambda_twist": ("lambda_twist::LambdaTwist", 3)}


def comes_back(ctx, nm, r):
    """a run with enough samples returns"""
    if not r:
        return False
    if r.value is None or r.pc is F:
        ctx.violate("%s: answered" % nm, "the estimator always panics with that many samples", r.root["span"])
        return False
    return True


def bit(c):
    return ite(c, ONE, ZERO)


def count(ctx):
    for crate, (ty, n) in NEED.items():
        imp = [i for i in ctx.D[crate]["items"] if i["k"] == "impl" and i.get("self") == ty and i.get("trait", "").endswith("::Estimator")]
        for i in imp:
            v = [x.get("v") for x in i["items"] if x["name"] == "MIN_SAMPLES"]
            nm = "%s declares %d samples" % (ty.split("::")[-1], n)
            if v and v[0] is not None:
                ctx.holds(nm, str(v[0]) == str(n), "%s declares that it needs %s samples, it needs %d" % (ty, v[0], n), i["span"])
            else:
                ctx.undecided(nm, "the constant is not evaluated")
        if not imp:
            ctx.violate("anchor:%s" % ty, "%s implements no estimator" % ty, "")


def present(r):
    """the distinct conditions under which some model is in the result; None when it cannot be told"""
    cs = {}
    segs = r.ip.to_segs(r.state, unref(r.value))
    for s in segs:
        if s[0] != "i":
            return None
        cs[s[1].id if isinstance(s[1], N) else s[1]] = s[1]
    return [c for c in cs.values() if c is not F]


def never(n, lits):
    """the condition cannot hold together with these assignments of variables"""
    for v, x in lits:
        n = alg.cofactor(n, alg.node(v, T, F) if x else alg.node(v, F, T))
    return n is F


def forced(c, lits, fix):
    """what the condition becomes when everything else goes well: every other outcome is a success and the fixed results are zero"""
    for v, x in lits:
        c = alg.cofactor(c, alg.node(v, T, F) if x else alg.node(v, F, T))
    for v in sorted(alg.bvars(c)):
        if alg.VARS[v][0] in ("ok", "okschur", "oklu", "sym"):
            c = alg.cofactor(c, alg.node(v, T, F))
    return subst(c, {a: num(x) for a, x in (fix or {}).items()})


def empty(ctx, nm, r, under, why, uf=True, fix=None, lits=None):
    """lits: `under` as an assignment of variables, when it is one"""
    if not r:
        return
    cs = present(r)
    if cs is None:
        ctx.undecided(nm, "models are not listed one by one")
        return
    if under is T and any(c is T for c in cs):
        ctx.violate(nm, "models are returned although %s" % why, r.root["span"])
        return
    if lits is not None and all(never(c, lits) for c in cs):
        ctx.ok(nm)
        return
    for v, x in lits or ():
        cs = [alg.cofactor(c, alg.node(v, T, F) if x else alg.node(v, F, T)) for c in cs]
    for c in cs:
        if c is F:
            continue
        if lits is not None and forced(band(r.pc, c), lits, fix) is T:
            ctx.violate(nm, "models are returned although %s" % why, r.root["span"])
            return
        # every condition is itself part of the result; the first that survives decides
        if not ctx.eq(nm, bit(band(r.pc, c)), ZERO, r.root["span"], under=under, uf=uf, fix=fix, text="models are returned although %s" % why):
            return


def fits(ctx, nm, r, fix=None, tries=None):
    n = 0
    for e in r.ip.events:
        if e["kind"] in ("push", "fill") and isinstance(e.get("cap"), int):
            n += 1
            full = "%s: at most %d elements are collected" % (nm, e["cap"])
            over = models.atleast(e["segs"], e["cap"] + 1) if len(e["segs"]) > e["cap"] else F
            if over is None:
                ctx.undecided(full, "a slice of unknown length is collected")
            elif over is F:
                ctx.ok(full)
            elif models.atleast([("i", forced(s[1], (), fix), s[2]) if s[0] == "i" else s for s in e["segs"]], e["cap"] + 1) is T and forced(e["pc"], (), fix) is T:
                ctx.violate(full, "more than %d elements are collected when every candidate is good" % e["cap"], e["span"])
            else:
                ctx.eq(full, bit(band(e["pc"], over)), ZERO, e["span"], uf=True, fix=fix, tries=tries, text="more than %d elements can be collected" % e["cap"])
    ctx.count("collections with a capacity", n)


def outcomes(r, kinds=("ok", "okschur", "oklu")):
    out = {}
    vs = set()
    for e in r.ip.events:
        for k in ("pc", "ok", "cond"):
            if isinstance(e.get(k), N):
                vs |= set(alg.bvars(e[k]))
    for s in r.ip.to_segs(r.state, unref(r.value)):
        if s[0] == "i":
            vs |= set(alg.bvars(s[1]))
    for v in vs:
        if alg.VARS[v][0] in kinds:
            out[v] = alg.node(v, T, F)
    return out


def all_kept(ctx, nm, r, calls, fix=None):
    """every candidate pose of every essential matrix that has poses is among the models, once"""
    segs = r.ip.to_segs(r.state, unref(r.value))
    if not calls or any(s[0] != "i" for s in segs):
        ctx.undecided("%s: every candidate pose is returned" % nm, "models are not listed one by one")
        return
    places = []
    for E, pc, v in calls:
        if 1 not in v.payd():
            return
        for p in v.payd()[1][0].items():
            at = [s for s in segs if ctx.same(unref(s[2]), p)]
            places.append((band(pc, is_variant(v, 1)), at, atoms_of(p)))
    known = [s for _, at, _ in places for s in at]
    if any(not any(s is k for k in known) and any(atoms_of(s[2]) & a for _, _, a in places) for s in segs):
        ctx.undecided("%s: every candidate pose is returned" % nm, "the poses are changed on the way")
        return
    for i, (c, at, _) in enumerate(places):
        n = ZERO
        for s in at:
            n = add(n, bit(s[1]))
        if not ctx.eq("%s: candidate pose %d of essential matrix %d is returned" % (nm, i % 4, i // 4), n, ONE, r.root["span"], under=band(r.pc, c), uf=True, fix=fix,
                      text="a candidate pose of an essential matrix that has poses is not returned exactly once"):
            return


def fresh_poses(calls):
    def hk(ip, st, f, args, fr, t):
        k = len(calls)
        v = opt(alg.bvar(("sym", "poses%d" % k), ()), arr([Agg("cv_core::pose::CameraToCamera", [fresh_iso(ip, "e%dp%d" % (k, i))]) for i in range(4)]))
        calls.append((ip.strip(st, args[0]), st.pc, v))
        return v
    return hk


# ------------------------------------------------------------------ eight point
def eight(ctx):
    for n in (8, 10):
        nm = "eight-point with %d samples" % n
        calls = []
        ms = sym_matches(n)
        r = ctx.run("eight_point", EP, over={1: as_iter(ms)}, hooks={POSES: fresh_poses(calls)})
        if not comes_back(ctx, nm, r):
            continue
        sp = r.root["span"]
        ev = [e for e in r.ip.events if e["kind"] == "solver" and e["what"] in ("symmetric_eigen", "svd") and e["m"].c == 9]
        if len(ev) != 1:
            ctx.undecided("%s: equations" % nm, "%d decompositions of nine columns" % len(ev))
        else:
            M = ev[0]["m"]
            own = {i: atoms_of(x) for i, x in enumerate(ms)}
            used = sorted(i for i, a in own.items() if a & atoms_of(M))
            if ctx.holds("%s: eight samples are used" % nm, len(used) == 8, "the system solved for %d samples is built from samples %s" % (n, used), sp):
                pick = [ms[i] for i in used]
                if any(ctx.same(M, normal(pick, pos, s)) for pos in (STD, ROWS) for s in SCALES) if ev[0]["what"] == "symmetric_eigen" else False:
                    ctx.ok("%s: every sample has an equation with its own partner" % nm)
                else:
                    v = in_span(ctx, M, pick, STD)
                    v = v[0] if isinstance(v, tuple) else v
                    w = in_span(ctx, M, pick, ROWS)
                    w = w[0] if isinstance(w, tuple) else w
                    if v == "no" and w == "no" and ev[0]["what"] == "symmetric_eigen":
                        ctx.violate("%s: every sample has an equation with its own partner" % nm, "the system is not built from the eight epipolar equations of the samples", sp)
                    else:
                        ctx.undecided("%s: every sample has an equation with its own partner" % nm, "another form of the equations")
        fits(ctx, nm, r)
        for v, okc in outcomes(r).items():
            empty(ctx, "%s: no models when the decomposition fails" % nm, r, bnot(okc), lits=[(v, False)], why="the decomposition of the epipolar equations failed")
        all_kept(ctx, nm, r, calls)
        for k, (E, pc, v) in enumerate(calls):
            empty(ctx, "%s: no models when the essential matrix has no poses" % nm, r, bnot(is_variant(v, 1)), "the essential matrix could not be decomposed")


# ------------------------------------------------------------------ five point
def five(ctx):
    for n in (5, 7):
        nm = "five-point with %d samples" % n
        B = Mat(9, 4, [alg.var("n%d%s" % (i, c)) for c in "xyzw" for i in range(9)])
        null_ok = alg.bvar(("sym", "null.some"), ())
        calls, given = [], []

        def hnull(ip, st, f, args, fr, t):
            given.append([ip.strip(st, a) for a in args])
            return opt(null_ok, B)
        ms = sym_matches(n)
        r = ctx.run("nister_stewenius", NS, over={1: as_iter(ms)}, hooks={NB: hnull, POSES: fresh_poses(calls)})
        if not comes_back(ctx, nm, r):
            continue
        sp = r.root["span"]
        if len(given) != 1:
            ctx.undecided("%s: slots" % nm, "the nullspace is computed %d times by a separate function" % len(given))
        else:
            slots(ctx, nm, given[0], ms, sp)
        zero = {}
        outs = outcomes(r)
        for i, k in enumerate(alg.ATOMS):
            # every eigenvalue real, every smallest singular value zero
            if k[0] == "el" and isinstance(k[1], int) and isinstance(KEYL[k[1]], tuple):
                src = KEYL[k[1]][0]
                if (src == "ceig" and k[2] == "im") or (src in ("svd", "svdu") and k[2] == "s" and k[3] == 9):
                    zero[i] = 0
        if len(given) == 1:
            empty(ctx, "%s: no models without a nullspace" % nm, r, bnot(null_ok), "the five epipolar equations have no four-dimensional nullspace", fix=zero, lits=[(next(iter(alg.bvars(null_ok))), False)])
        fits(ctx, nm, r, zero)
        if n != 5:
            continue
        for v, okc in outs.items():
            k = alg.VARS[v]
            solve = k[0] == "ok" and isinstance(k[1], int) and KEYL[k[1]][0] == "solve"
            if k[0] == "okschur" or solve:
                what = "the elimination is singular" if solve else "the eigenvalues were not found"
                empty(ctx, "%s: no models when %s" % (nm, what), r, bnot(okc), what, fix=zero, lits=[(v, False)])
        segs = r.ip.to_segs(r.state, unref(r.value))
        ctx.count("candidates", len(calls))
        all_kept(ctx, nm, r, calls, zero)
        if all(s[0] == "i" for s in segs):
            bad = F
            for E, pc, v in calls:
                mine = atoms_of(v.payd()[1][0]) if 1 in v.payd() else set()
                for s in segs:
                    if mine & atoms_of(s[2]):
                        bad = alg.bor(bad, band(s[1], bnot(is_variant(v, 1))))
            ctx.eq("%s: a candidate without poses contributes none" % nm, bit(bad), ZERO, sp, uf=True, fix=zero, text="poses of a candidate that has none are returned")
            bad = F
            for E, pc, v in calls:
                # the decomposition the candidate comes from
                ks = {alg.ATOMS[a][1] for a in atoms_of(mat_of(E)) if alg.ATOMS[a][0] == "el" and isinstance(KEYL[alg.ATOMS[a][1]], tuple) and KEYL[alg.ATOMS[a][1]][0] in ("svd", "svdu")}
                for kk in ks:
                    mm = KEYL[kk][1]
                    bad = alg.bor(bad, band(pc, bnot(svd_ok(mm))))
            ctx.eq("%s: a candidate whose decomposition fails is dropped" % nm, bit(bad), ZERO, sp, uf=True, fix=zero, text="an eigenvector is used although its decomposition failed")
    nullity(ctx)


def slots(ctx, nm, given, ms, sp):
    """the two lists hold five different samples, each beside its own partner"""
    ls = [g.items() if hasattr(g, "items") else None for g in given[:2]]
    ls = [None if l is None or not all(isinstance(x, Mat) for x in l) else l for l in ls]
    if len(ls) != 2 or None in ls:
        ctx.undecided("%s: slots" % nm, "the samples are not handed over as two lists")
        return
    ids = []
    for l, side in zip(ls, (0, 1)):
        ids.append([next((i for i, m_ in enumerate(ms) if ctx.same(x, m_.f[side])), None) for x in l])
    if ids[0] == ids[1] and None not in ids[0] and len(set(ids[0])) == 5 and len(ids[0]) == 5:
        ctx.ok("%s: five samples, each with its own partner" % nm)
        return
    sw = [[next((i for i, m_ in enumerate(ms) if ctx.same(x, m_.f[1 - side])), None) for x in l] for l, side in zip(ls, (0, 1))]
    if sw[0] == sw[1] and None not in sw[0] and len(set(sw[0])) == 5:
        ctx.undecided("%s: five samples, each with its own partner" % nm, "the two images are exchanged")
        return
    # a vector that is some sample's, unchanged, or a constant is where it is; anything else has been computed with
    place = [[next(((i, s_) for i, m_ in enumerate(ms) for s_ in (0, 1) if ctx.same(x, m_.f[s_])), None if atoms_of(x) else "placeholder") for x in l] for l in ls]
    if any(x is None for l in place for x in l):
        ctx.undecided("%s: five samples, each with its own partner" % nm, "the samples are transformed on the way")
        return
    ctx.violate("%s: five samples, each with its own partner" % nm, "the first list holds %s, the second %s" % tuple(
        ["%s of sample %d" % (("the first bearing", "the partner")[x[1]], x[0]) if x != "placeholder" else "a placeholder" for x in l] for l in place), sp)


def nullity(ctx):
    if not ctx.find("nister_stewenius", NB):
        ctx.undecided("nullity", "the nullspace basis is not a separate function")
        return
    ms = sym_matches(5)
    order = [4, 0, 7, 2, 8, 5, 1, 6, 3]
    for z, sign in [(z, 1) for z in range(10)] + [(4, -1)]:
        vals = [None] * 9
        for i, p in enumerate(order):
            vals[p] = 1e-16 * (i + 1) * (sign if i % 2 else 1) if i < z else 0.5 + 0.25 * i

        hooks, okv, vecs = known_eigen(9, vals)
        r = ctx.run("nister_stewenius", NB, over={0: Ref(arr([x.f[0] for x in ms])), 1: Ref(arr([x.f[1] for x in ms]))},
                    hooks=hooks)
        if not r:
            continue
        o = unref(r.value)
        nm = "five-point nullspace of dimension %d%s" % (z, "" if sign > 0 else " with eigenvalues on both sides of zero")
        got = is_variant(o, 1)
        if z == 4:
            ctx.eq("%s: found when the decomposition converges" % nm, got, okv, r.root["span"])
        else:
            ctx.eq("%s: refused" % nm, got, F, r.root["span"], text="a nullspace of dimension %d is taken for one of dimension four" % z)


# ------------------------------------------------------------------ three point
def three(ctx):
    ws = [x[0] for x in world_matches()]
    more = ws + [Agg(FWM, [vec(*[alg.var("y%d%s" % (k, c)) for c in "xyz"]), Agg(WORLD, [Mat(4, 1, [alg.var("x%d%s" % (k, c)) for c in "xyz"] + [alg.var("w%d" % k, True)])])]) for k in (3, 4)]
    for n in (3, 5):
        nm = "three-point with %d samples" % n
        seen = []

        def hk(ip, st, f, args, fr, t):
            seen[:] = [ip.strip(st, args[-1])]
            return NotImplemented if n == 3 else Lst([])
        rec = Rec()
        ms = (ws if n == 3 else more)[:n]
        r = ctx.run("lambda_twist", LTE, over={1: as_iter(ms)}, hooks=dict(rec.hooks, **{CPN: hk}))
        if not comes_back(ctx, nm, r):
            continue
        if len(seen) != 1 or not hasattr(seen[0], "items") or seen[0].items() is None:
            ctx.undecided("%s: slots" % nm, "the samples are not handed over as one list")
        else:
            ids = [next((i for i, m_ in enumerate(ms) if ctx.same(x, m_)), None) for x in seen[0].items()]
            if None in ids:
                ctx.undecided("%s: three different samples" % nm, "the samples are transformed on the way")
            else:
                ctx.holds("%s: three different samples" % nm, len(ids) == 3 == len(set(ids)), "the solver is given the samples %s" % ids, r.root["span"])
        if n == 3:
            fits(ctx, nm, r, tries=400)
            # every pose depends on all three samples
            for s in r.ip.to_segs(r.state, unref(r.value)):
                if s[0] != "i":
                    continue
            dep = set()
            for c in rec.calls.get("refine", []):
                for a in c[0]:
                    dep |= atoms_of(a)
            cs = present(r)
            if cs is not None and not cs:
                ctx.violate("%s: models can be found" % nm, "no model is ever returned for three samples", r.root["span"])
            if dep:
                for i, m_ in enumerate(ms):
                    ctx.holds("%s: sample %d takes part" % (nm, i), bool(atoms_of(m_.f[0]) & dep) and bool(atoms_of(m_.f[1]) & dep), "the distances and angles of the solver do not involve sample %d" % i, r.root["span"])
    # degenerate samples
    ys = [Mat(3, 1, [alg.var("y%d%s" % (k, c)) for c in "xyz"]) for k in range(3)]

    def run(nm, hs, why):
        ms = [Agg(FWM, [y, Agg(WORLD, [Mat(4, 1, [x if isinstance(x, N) else num(x) for x in h])])]) for y, h in zip(ys, hs)]
        r = ctx.run("lambda_twist", LTE, over={1: as_iter(ms)}, hooks=Rec().hooks)
        empty(ctx, "three-point: no models when %s" % nm, r, T, why)
    free = [[alg.var("x%d%s" % (k, c)) for c in "xyz"] for k in range(3)]
    for k in range(3):
        run("world point %d is at infinity" % k, [free[i] + [0 if i == k else 1] for i in range(3)], "world point %d is at infinity" % k)
        run("world point %d is at infinity along an axis" % k, [([0, 0, 1] + [0]) if i == k else [i, 1 - i * i, 2, 1] for i in range(3)], "world point %d is at infinity" % k)
    for nm, pts in (("the world points are on one line", [[0, 0, 0], [1, 2, 3], [2, 4, 6]]), ("two world points coincide", [[1, 2, 3], [1, 2, 3], [4, 6, 5]]),
                    ("the last two world points coincide", [[4, 6, 5], [1, 2, 3], [1, 2, 3]]), ("all world points coincide", [[1, 2, 3]] * 3)):
        run(nm, [p + [1] for p in pts], nm)


def check(ctx):
    count(ctx)
    for crate, path in (("eight_point", EP), ("nister_stewenius", NS), ("lambda_twist", LTE)):
        ctx.anchor(crate, path)
    with ctx.part("eight-point"):
        eight(ctx)
    with ctx.part("five-point"):
        five(ctx)
    with ctx.part("three-point"):
        three(ctx)

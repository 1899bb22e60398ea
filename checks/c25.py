"""C25: solver tolerances and iteration caps."""
from vlib import graph
from vlib.spec import *
from vlib.interp import subst, subst_value
from checks.c13 import G, TO, TR
from checks.c19 import sym_matches, as_iter
from checks.c20 import EST as NIS, POSES as UNSCALED
from checks.c21 import Rec, EST as LAM, GN, LT, world_matches
from checks.c23 import Rounds, S1, S2, T1, T2, T3, single_names, three_names, isos, landmark, triple

TECHNIQUE = ("abstract interpretation of the compiled MIR: the tolerance and cap reaching every iterative solver call, and the number of rounds of every refinement loop, are compared as formulas with the configured ones; "
             "call-site enumeration for completeness")
RULE = ("tolerance and cap of each eigen / singular value / rotation solver call are exactly the configured field or argument (unconfigured: positive constants); refinement loops run over a range no longer than "
        "the configured count and stop early only below the configured tolerance; setters set their own field only; default caps and tolerances are positive")
FLOOR = 30
EM = "cv_pinhole::essential::EssentialMatrix"
EP = "<eight_point::EightPoint as sample_consensus::Estimator<cv_core::matches::FeatureMatch>>::estimate"
RES = "<cv_core::pose::CameraToCamera as sample_consensus::Model<cv_core::matches::FeatureMatch>>::residual"
CAPS = {"symmetric_eigen": (0, 1), "svd": (2, 3), "from_matrix_eps": (1, 2), "try_new": (0, 1), "try_schur": (0, 1)}
CONFIG = (("cv_geom", G + "LinearEigenTriangulator", "epsilon", "max_iterations"), ("cv_geom", G + "SineL1Triangulator", "epsilon", "max_iterations"),
          ("cv_geom", G + "RelativeDltTriangulator", "epsilon", "max_iterations"), ("eight_point", "eight_point::EightPoint", "epsilon", "iterations"),
          ("nister_stewenius", "nister_stewenius::NisterStewenius", "epsilon", "iterations"),
          ("lambda_twist", "lambda_twist::LambdaTwist", "rotation_convergence_epsilon", "rotation_convergence_iterations"))


def const(n):
    return isinstance(n, N) and n.is_leaf() and isinstance(n.v, alg.Rat) and n.v.const() is not None


def positive(ctx, nm, n, sp):
    if not const(n):
        return ctx.undecided(nm, "not a constant")
    ctx.holds(nm, n.v.const() > 0, "%s is %s" % (nm, n.v.const()), sp)


def solvers(ctx, nm, r, seen, conf=None, own=None):
    """conf: the configured (tolerance, cap); own: crate whose own calls may use positive constants instead"""
    evs = [e for e in r.ip.events if e["kind"] == "solver" and e["what"] in CAPS]
    done = set()
    for e in evs:
        ie, ic = CAPS[e["what"]]
        a = e["args"]
        key = (e["fn"], e["what"], e["span"])
        seen.add((e["fn"].split("::{closure")[0], e["span"]))
        what = "%s: %s in %s" % (nm, e["what"], e["fn"].split("::")[-1] if "{" not in e["fn"] else e["fn"].split("::")[-2])
        if len(a) <= ic:
            ctx.violate("%s: cap" % what, "%s runs an iterative solver without an iteration cap" % e["fn"], e["span"])
            continue
        eps, cap = a[ie], a[ic]
        local = own is not None and own in e["fn"].split("::")[0].strip("<")
        if conf is None or (local and const(cap) and const(eps)):
            if (key, "c") not in done:
                done.add((key, "c"))
                positive(ctx, "%s: constant cap" % what, cap, e["span"])
                if const(eps):
                    ctx.holds("%s: constant tolerance" % what, eps.v.const() >= 0, "the tolerance is negative", e["span"])
            continue
        sig = (key, kid(eps), kid(cap))
        if sig in done:
            continue
        done.add(sig)
        ctx.eq("%s: tolerance" % what, eps, conf[0], e["span"], under=e["pc"], text="the solver tolerance")
        ctx.eq("%s: cap" % what, cap, conf[1], e["span"], under=e["pc"], text="the solver iteration cap")
    return len(evs)


def rounds(ctx, nm, r, want, sp, only=None):
    """loops over a counted range that depends on the configuration"""
    n = 0
    for L in r.ip.loops:
        ln = r.ip.ranges.get(L["src"])
        if ln is None or const(ln) or (only and only not in L["fn"]):
            continue
        n += 1
        ctx.eq("%s: rounds of the loop in %s" % (nm, L["fn"].split("::")[-1]), alg.gt0(sub(ln, want)), F, sp, text="more rounds than configured (a round count beyond the cap is possible)")
    return n


def nums(ctx, crate, root, floats):
    """positions of the float / unsigned arguments"""
    out = []
    for i, t in enumerate(root["inputs"]):
        j = ctx.tj(crate, t)
        if j["k"] == ("float" if floats else "uint"):
            out.append(i)
    return out


def check(ctx):
    seen = set()
    # ---- triangulators
    with ctx.part("linear eigen"):
        r = ctx.run("cv_geom", m(G + "LinearEigenTriangulator", TO, "triangulate_observations"))
        if r:
            s = r.args[0]
            n = solvers(ctx, "linear eigen", r, seen, (ctx.fld(s, "epsilon"), ctx.fld(s, "max_iterations")))
            if not n:
                ctx.undecided("linear eigen", "no solver call recognised")
    with ctx.part("relative DLT"):
        r = ctx.run("cv_geom", m(G + "RelativeDltTriangulator", TR, "triangulate_relative"))
        if r:
            s = r.args[0]
            if not solvers(ctx, "relative DLT", r, seen, (ctx.fld(s, "epsilon"), ctx.fld(s, "max_iterations"))):
                ctx.undecided("relative DLT", "no solver call recognised")
    with ctx.part("sine L1"):
        sine(ctx, seen)
    # ---- essential matrices
    for f in ("recondition", "possible_rotations_unscaled_translation", "possible_rotations", "possible_unscaled_poses", "possible_unscaled_poses_bearing"):
        path = EM + "::" + f
        root = ctx.anchor("cv_pinhole", path)
        if root is None:
            continue
        with ctx.part(f):
            fe, fc = nums(ctx, "cv_pinhole", root, True), nums(ctx, "cv_pinhole", root, False)
            if len(fe) != 1 or len(fc) != 1:
                ctx.undecided(f, "no single tolerance and cap argument")
                continue
            r = ctx.run("cv_pinhole", path)
            if r and not solvers(ctx, f, r, seen, (r.args[fe[0]], r.args[fc[0]])):
                ctx.undecided(f, "no solver call recognised")
    # ---- minimal solvers
    with ctx.part("eight-point"):
        h = Handed(UNSCALED)
        r = ctx.run("eight_point", EP, over={1: as_iter(sym_matches(8))}, hooks=h.hooks)
        if r:
            s = r.args[0]
            conf = ctx.fld(s, "epsilon"), ctx.fld(s, "iterations")
            solvers(ctx, "eight-point", r, seen, conf)
            h.check(ctx, "eight-point", conf, r)
        r = ctx.run("eight_point", "eight_point::EightPoint::from_matches", over={1: as_iter(sym_matches(8))}, optional=True)
        if r:
            s = r.args[0]
            solvers(ctx, "eight-point matrix", r, seen, (ctx.fld(s, "epsilon"), ctx.fld(s, "iterations")))
    with ctx.part("five-point"):
        five(ctx, seen)
    with ctx.part("three-point"):
        three(ctx, seen)
    with ctx.part("residual"):
        r = ctx.run("cv_core", RES)
        if r:
            solvers(ctx, "relative pose residual", r, seen)
    # ---- optimizers
    for path in (S1, S2, T1, T2, T3):
        with ctx.part(path.split("::")[-1]):
            optimizer(ctx, path)
    settings(ctx)
    coverage(ctx, seen)


def sine(ctx, seen):
    path = m(G + "SineL1Triangulator", TO, "triangulate_observations")
    r = ctx.run("cv_geom", path)
    if r:
        s = r.args[0]
        eps, cap = ctx.fld(s, "epsilon"), ctx.fld(s, "max_iterations")
        if not solvers(ctx, "sine L1 initial guess", r, seen, (eps, cap)):
            ctx.undecided("sine L1 initial guess", "no solver call recognised")
        if not rounds(ctx, "sine L1", r, cap, r.root["span"], "SineL1"):
            ctx.undecided("sine L1: rounds", "no counted loop recognised")
    # early stop, on a single observation and a finite initial guess
    ip = ctx.interp("cv_geom")
    L, obs = observations(ip, 1)
    p0 = vec(*[alg.var("p." + c) for c in "xyz"])

    def guess(ip, st, f, args, fr, t):
        return Some(Agg(WORLD, [Mat(4, 1, list(p0.e) + [ONE])]))
    ip.hooks.update({m(G + "LinearEigenTriangulator", TO, "triangulate_observations"): guess,
                     "cv_geom::epipolar::point_gradient": lambda ip, st, f, args, fr, t: vec(*[alg.var("g." + c) for c in "xyz"])})
    r = ctx.run("cv_geom", path, over={1: L}, ip=ip)
    if not r:
        return
    s = r.args[0]
    eps = ctx.fld(s, "epsilon")
    n = 0
    for lp in r.ip.loops:
        if r.ip.ranges.get(lp["src"]) is None or const(r.ip.ranges[lp["src"]]) or "SineL1" not in lp["fn"]:
            continue
        for cell in lp["cells"]:
            mu, st = cell["mu"], cell["step"]
            if not (isinstance(mu, Mat) and isinstance(st, Mat) and len(mu.e) == 3):
                continue
            delta = vsub(st, mu)
            stop = F
            for x in lp["exits"]:
                stop = bor(stop, x["cond"])
            if stop is F:
                continue
            if not all(x.is_leaf() and len(x.v.n.atoms()) == 1 for x in mu.e):
                continue
            n += 1
            free = {next(iter(x.v.n.atoms())): alg.var("now.%d" % k) for k, x in enumerate(mu.e)}
            delta, st, stop = subst_value(delta, free, {}), subst_value(st, free, {}), subst(stop, free)
            # the step is the one that is kept when the loop goes on
            ok = band(bnot(alg.eq0(nsq(st))), bnot(alg.lt0(eps)))
            ctx.eq("sine L1: stops early only below the tolerance", stop, alg.lt0(sub(nsq(delta), mul(mul(eps, eps), nsq(st)))), r.root["span"], under=ok)
    if not n:
        ctx.undecided("sine L1: early stop", "no early exit recognised")


class Handed:
    """a callee whose settings are compared at the call"""

    def __init__(self, path):
        self.calls = []
        self.path = path
        self.hooks = {path: self.hk}

    def hk(self, ip, st, f, args, fr, t):
        self.calls.append(([ip.strip(st, a) for a in args], st.pc))
        return NotImplemented

    def check(self, ctx, nm, conf, r):
        root = ctx.find("cv_pinhole", self.path)
        if not self.calls:
            ctx.undecided("%s: poses" % nm, "%s is not used" % self.path)
            return
        ie, ic = nums(ctx, "cv_pinhole", root, True), nums(ctx, "cv_pinhole", root, False)
        for k, (a, pc) in enumerate(self.calls[:3]):
            ctx.eq("%s: tolerance handed to the pose extraction %d" % (nm, k), a[ie[0]], conf[0], r.root["span"], under=pc)
            ctx.eq("%s: cap handed to the pose extraction %d" % (nm, k), a[ic[0]], conf[1], r.root["span"], under=pc)


def five(ctx, seen):
    own = "nister_stewenius"
    h = Handed(UNSCALED)

    def models(ip, st, f, args, fr, t):
        return Some(Lst([("i", T, Agg(EM, [Mat(3, 3, [alg.var("E%d%d" % (i, j)) for j in range(3) for i in range(3)])]))], "it"))
    fp = "nister_stewenius::five_points_relative_pose"
    if ctx.find(own, fp):
        h.hooks[fp] = models
    r = ctx.run(own, NIS, over={1: as_iter(sym_matches(5))}, hooks=h.hooks)
    if r:
        s = r.args[0]
        conf = ctx.fld(s, "epsilon"), ctx.fld(s, "iterations")
        solvers(ctx, "five-point", r, seen, conf, own)
        h.check(ctx, "five-point", conf, r)
    for f in ("five_points_nullspace_basis", "compute_eigenvector", "essentials_from_action_ebasis"):
        root = ctx.find(own, "nister_stewenius::" + f)
        if root is None:
            ctx.undecided(f, "no such function")
            continue
        with ctx.part(f):
            r = ctx.run(own, "nister_stewenius::" + f)
            if r:
                solvers(ctx, f, r, seen)


def three(ctx, seen):
    rec = Rec()
    r = ctx.run("lambda_twist", LAM, over={1: as_iter([x[0] for x in world_matches(True)])}, hooks=rec.hooks)
    if r:
        s = r.args[0]
        conf = ctx.fld(s, "rotation_convergence_epsilon"), ctx.fld(s, "rotation_convergence_iterations")
        if not solvers(ctx, "three-point", r, seen, conf):
            ctx.undecided("three-point", "no rotation solver recognised")
        g = ctx.find("lambda_twist", GN)
        at = nums(ctx, "lambda_twist", g, False) if g else []
        if rec.calls.get("refine") and len(at) == 1:
            for k, (a, pc) in enumerate(rec.calls["refine"][:4]):
                ctx.eq("three-point: rounds of refinement %d" % k, a[at[0]], ctx.fld(s, "gauss_newton_iterations"), r.root["span"], under=pc)
        else:
            ctx.undecided("three-point: refinement", "no refinement function with one count")
    g = ctx.find("lambda_twist", GN)
    if g:
        at = nums(ctx, "lambda_twist", g, False)
        r = ctx.run("lambda_twist", GN)
        if r and len(at) == 1 and not rounds(ctx, "refinement", r, r.args[at[0]], g["span"]):
            ctx.undecided("refinement: rounds", "no counted loop recognised")


def optimizer(ctx, path):
    root = ctx.anchor("cv_optimize", path)
    if root is None:
        return
    names = single_names(path) if path in (S1, S2) else three_names(path)
    at = {k: i for i, k in enumerate(names)}
    one = landmark if path in (S1, S2) else triple
    nm = path.split("::")[-1]
    R = Rounds(True)
    r = ctx.run("cv_optimize", path, over={at["lms"]: Ref(arr([one(0)[0]]))}, hooks=R.hooks)
    if r and not rounds(ctx, nm, r, r.args[at["its"]], root["span"]):
        ctx.undecided("%s: rounds" % nm, "no counted loop recognised")
    for n in (0, 1, 2):
        R = Rounds(True)
        r = ctx.run("cv_optimize", path, over={at["its"]: num(n), at["lms"]: Ref(arr([one(0)[0]]))}, hooks=R.hooks)
        if r and R.exp or n == 0:
            per = 1 if path in (S1, S2) else 2
            ctx.holds("%s: at most %d updates" % (nm, n), len(R.exp) <= n * per, "%d pose updates for %d configured rounds" % (len(R.exp) // per, n), root["span"])


def settings(ctx):
    types = {c[1]: c for c in CONFIG}
    for crate, r in ctx.roots():
        if not r["inputs"]:
            continue
        j = ctx.tj(crate, r["inputs"][0])
        if j.get("k") != "adt" or j.get("path") not in types or r["path"].rsplit("::", 1)[0] != j["path"]:
            continue
        name = r["path"].split("::")[-1]
        fs = ctx.fields(j["path"])
        if name not in fs or len(r["inputs"]) != 2:
            continue
        with ctx.part("%s: setter %s" % (j["path"].split("::")[-1], name)):
            x = ctx.run(crate, r["path"])
            if x:
                ctx.eq("%s: setter %s" % (j["path"].split("::")[-1], name), unref(x.value), ctx.upd(x.args[0], **{name: unref(x.args[1])}), r["span"])
    for crate, adt, fe, fc in CONFIG:
        short = adt.split("::")[-1]
        for path in ("<%s as core::default::Default>::default" % adt, adt + "::new"):
            root = ctx.find(crate, path)
            if root is None:
                continue
            with ctx.part("%s defaults" % short):
                x = ctx.run(crate, path)
                if x:
                    v = unref(x.value)
                    for f in (fe, fc):
                        positive(ctx, "%s: default %s of %s" % (short, f, path.split("::")[-1]), ctx.fld(v, f), root["span"])
    p = G + "SineL1Triangulator::linear_eigen_triangulator"
    if ctx.find("cv_geom", p):
        with ctx.part("initial guess settings"):
            x = ctx.run("cv_geom", p)
            if x:
                for f in ("epsilon", "max_iterations"):
                    ctx.eq("initial guess settings: %s" % f, ctx.fld(unref(x.value), f), ctx.fld(unref(x.args[0]), f), x.root["span"])


NAMES = ("symmetric_eigen", "svd", "schur", "from_matrix", "eigenvalues")
KINDS = ("nalgebra::linalg::symmetric_eigen::SymmetricEigen::", "nalgebra::linalg::svd::SVD::", "nalgebra::linalg::schur::Schur::")


def solver_calls(ctx):
    """(crate, body, call) of every iterative solver call in the library"""
    for c, d in ctx.D.items():
        for key, b in d["bodies"].items():
            if b["crate"] != c:
                continue
            for _, t in graph.terms(b):
                if t["k"] != "call":
                    continue
                p = (t["f"].get("rpath") or t["f"].get("path") or "")
                if not p.startswith("nalgebra::"):
                    continue
                last = p.split("::")[-1]
                if last in ("from_matrix", "from_matrix_eps") or any(last in (n, "try_" + n, n + "_unordered", "try_" + n + "_unordered") for n in ("symmetric_eigen", "svd", "schur", "eigenvalues", "singular_values")) \
                        or (any(p.startswith(k) for k in KINDS) and last.split("_unordered")[0] in ("new", "try_new")):
                    yield c, b, t, p


def coverage(ctx, seen):
    spans = {s for _, s in seen}
    done = set()
    for c, b, t, p in solver_calls(ctx):
        last = p.split("::")[-1]
        k = (b["path"], t["sp"])
        if k in done:
            continue
        done.add(k)
        ctx.count("solver call sites")
        if t["sp"] in spans:
            ctx.ok("solver call site in %s" % b["path"])
        else:
            ctx.undecided("solver call site in %s" % b["path"], "%s is not reached from an analysed operation" % last)

"""C27: library code does not panic."""
import itertools
from checks.c19 import sym_matches, as_iter
from checks.c21 import Rec, world_matches, LT, EST as LTE
from checks import c19, c20, c22, c23
from checks.c11 import FM
from vlib import models, witness
from vlib.dump import CRATES
from vlib.interp import Diverge
from vlib.ctx import Timeout
from vlib.spec import *

TECHNIQUE = "abstract interpretation of every public function: the path condition of the normal return must be exhaustive, plus rules for integer overflow, capacity and order of possibly NaN values"
RULE = ("for every public function on symbolic arguments (any real, NaN, infinity; collections of any or of several small sizes) the paths that return normally cover all inputs: no reachable panic, failed unwrap, "
        "out-of-range index or failed assertion; no integer subtraction of user counts that can underflow; no push beyond a fixed capacity; no decomposition that orders possibly NaN singular values; "
        "no 3x3 SVD used before the same eigendecomposition has been seen to converge (nalgebra 0.30.1 does not report that failure). Minimal solvers are run with exactly their documented sample count")
FLOOR = 60
TRUSTED = ("nalgebra, arrayvec and core functions that are modelled rather than interpreted panic only in the ways modelled (unwraps, bounds, NaN orderings, 3x3 SVD)", "the caller's own iterators and triangulators do not panic")
SVDK = "nalgebra::linalg::svd::SVD"
TVS = {c23.T1, c23.T2, c23.T3}
S = {c23.S1, c23.S2}
EP = "<eight_point::EightPoint as sample_consensus::Estimator<%s>>::estimate" % FM
TG = c22.E + "three_view_gradients"
LG = "cv_optimize::three_view_optimizer::landmark_gradients"


def mine(stack):
    """the innermost function of the workspace"""
    for p in reversed(stack):
        if any(p.startswith(c + "::") or p.startswith("<" + c + "::") or (" as " + c + "::") in p for c in CRATES):
            return p
    return stack[-1] if stack else "?"


def guilty(ip):
    out = []
    for e in ip.events:
        if e["kind"] == "diverge" or (e["kind"] == "assert" and not e["m"].startswith("overflow")):
            s = "%s in %s" % (e.get("what") or e.get("m"), mine(e["stack"]))
            if s not in out:
                out.append(s)
    return "; ".join(out[:4])


def bit(c):
    return ite(c, ONE, ZERO)


def judge(ctx, r, path, name=None, where=""):
    name = name or path
    full = "%s returns on every input" % name
    if r is None:
        if isinstance(ctx.last_error, Diverge):
            ctx.obl.pop()
            ctx.violate(full, "%s always panics" % name, where)
        return
    sp = r.root["span"]
    total(ctx, full, bnot(r.pc), sp, "a panic is reachable (%s)" % (guilty(r.ip) or "no path returns"))
    for e in r.ip.events:
        if e["kind"] == "diverge" or (e["kind"] == "assert" and not e["m"].startswith("overflow")):
            bad = e["pc"] if e["kind"] == "diverge" else band(e["pc"], bnot(e["cond"]))
            f, what = mine(e["stack"]), e.get("what") or e["m"]
            nm = "%s: %s in %s is out of reach" % (name, what, f)
            if "mu" in alg.show(bad):
                ctx.undecided(nm, "depends on the state of a loop")
            else:
                total(ctx, nm, bad, e["span"], "%s is reachable in %s" % (what, f))
    overflow(ctx, r, name)
    push(ctx, r, name)
    svd(ctx, r, name)


OUTCOME = ("ok", "okschur")


def total(ctx, name, bad, where, text):
    """`bad` must be unsatisfiable"""
    if bad is F:
        ctx.ok(name)
        return
    # outcomes of decompositions (each may fail on its own) and lengths of collections decide it alone?
    vs = [v for v in alg.bvars(bad)]
    outs = [v for v in vs if alg.VARS[v][0] in OUTCOME]
    lens = [v for v in vs if alg.VARS[v][0] in ("empty", "has") and not alg.VIDX[v]]
    for n in ((0, 1, 2, 3) if lens else (None,)):
        for fail in [None] + outs:
            lits = {v: v != fail for v in outs}
            for v in lens:
                k = alg.VARS[v]
                lits[v] = n == 0 if k[0] == "empty" else n > k[2]
            if given(bad, lits) is T:
                ctx.violate(name, "%s%s%s" % (text, ", when a decomposition fails" if fail is not None else "", ", for a collection of %d elements" % n if n is not None else ""), where)
                return
    ctx.eq(name, bit(bad), ZERO, where, uf=True, text=text)


def given(n, lits):
    for v, x in lits.items():
        n = alg.cofactor(n, alg.node(v, T, F) if x else alg.node(v, F, T))
    return n


def overflow(ctx, r, name):
    for e in r.ip.events:
        if e["kind"] != "assert" or not e["m"].startswith("overflow"):
            continue
        f = mine(e["stack"])
        bad = bit(band(e["pc"], alg.bnot(e["cond"])))
        if "mu" in alg.show(bad) or name.count("(None rounds"):       # the number of rounds is also run through small concrete values
            ctx.count("counter steps bounded by their loops")
            continue
        ctx.eq("%s: arithmetic of %s stays in range" % (name, f), bad, ZERO, e["span"], text="integer %s is reachable in %s" % (e["m"], f))


def push(ctx, r, name):
    for e in r.ip.events:
        if e["kind"] in ("push", "fill") and isinstance(e.get("cap"), int):
            full = "%s: a %s in %s stays within the capacity %d" % (name, e["kind"], mine(e["stack"]), e["cap"])
            text = "%s can put more than %d elements into a collection of that capacity, which panics" % (mine(e["stack"]), e["cap"])
            if len(e["segs"]) <= e["cap"] and all(s[0] == "i" for s in e["segs"]):
                ctx.ok(full)
                continue
            over = models.atleast(e["segs"], e["cap"] + 1)
            if over is None:
                ctx.undecided(full, "a slice of unknown length is collected")
            else:
                total(ctx, full, band(e["pc"], over), e["span"], text)


def svd(ctx, r, name):
    ev = [e for e in r.ip.events if e["kind"] == "solver"]
    for e in r.ip.events:
        if e["kind"] == "svdsort":
            ordered(ctx, e, name, mine(e["stack"]))
    for e in ev:
        if e["what"] != "svd":
            continue
        m, f = e["m"], mine(e["stack"])
        if m.r == m.c == 3:
            g = matmul(transpose(m), m)
            ok = False
            for q in ev:
                if q["what"] == "symmetric_eigen" and len(q["args"]) == 2 and len(e["args"]) == 4 and q["m"].r == 3 and all(alg.same(x, y) for x, y in zip(q["m"].e, g.e)) \
                        and all(x is y or alg.same(x, y) for x, y in zip(q["args"], e["args"][2:])):
                    okc = q.get("ok")
                    if okc is not None and alg.band(e["pc"], alg.bnot(okc)) is F:
                        ok = True
            ctx.holds("%s: the 3x3 SVD in %s is known to converge" % (name, f), ok, "%s takes a 3x3 SVD without first seeing that the eigendecomposition of its gram matrix converges with the same tolerance and cap; "
                      "nalgebra 0.30.1 reports success (with undefined content) when it does not, so unwrapping it panics" % f, e["span"])
        elif not (m.r == m.c == 2) and e.get("ordered"):
            ordered(ctx, e, name, f)


def ordered(ctx, e, name, f):
    full = "%s: %s orders no NaN singular values%s" % (name, f, " when it sorts them" if "values" in e else "")
    if any(o[0] == full for o in ctx.obl):
        return
    """sorting by NaN singular values panics: the matrix (or the singular values) must be known not to be NaN"""
    nan = F
    for x in e["m"].e:
        nan = alg.bor(nan, alg.bnot(alg.isfin(x)))
    if "values" in e:
        nan = F
        for x in e["values"]:
            nan = alg.bor(nan, alg.isnan(x))
    bad = bit(band(e["pc"], nan))
    ctx.eq(full, bad, ZERO, e["span"], text="%s orders singular values that can be NaN, which panics" % f)


def check(ctx):
    models.NANCMP[0] = witness.NANSOLVER[0] = True
    for c, r in ctx.roots(pred=lambda r: r["reach"] and not r["derived"]):
        p = r["path"]
        if p == TG or p in TVS or p in S or p in (LG, LTE, EP, c20.EST) or p.endswith("compute_poses_nordberg"):
            continue
        n = len(ctx.obl)
        x = ctx.run(c, p, limit=25) if c != "cv_geom" else None
        if x is None and (c == "cv_geom" or isinstance(ctx.last_error, Timeout)):
            # points made on the way as arbitrary ones
            del ctx.obl[n:]
            x = ctx.run(c, p, hooks=cut_points("cv_geom::")[0], limit=60)
        judge(ctx, x, p, where=r["span"])
    special(ctx)


def special(ctx):
    """functions whose inner steps are analysed on their own, and solvers on exactly their number of samples"""
    for path, its, n in itertools.product(sorted(S), (None, 0, 1, 2), (None, 0, 1, 2)):
        with ctx.part(path):
            names = c23.single_names(path)
            ov = {}
            if its is not None:
                ov[names.index("its")] = num(its)
            if n is not None:
                ov[names.index("lms")] = Ref(arr([c23.landmark(k)[0] for k in range(n)]))
            judge(ctx, ctx.run("cv_optimize", path, over=ov, hooks=c23.Rounds().hooks, limit=25), path, "%s (%s rounds, %s landmarks)" % (path, its, n))
    for path, its, n in itertools.product(sorted(TVS), (None, 0, 1, 2), (None, 0, 1, 2)):
        with ctx.part(path):
            names = c23.three_names(path)
            ip = ctx.interp("cv_optimize")
            ip.hooks.update(c23.Rounds().hooks)
            ov = {0: arr([Agg(c23.C2C, [fresh_iso(ip, "D%d" % k)]) for k in range(2)])}
            if its is not None:
                ov[names.index("its")] = num(its)
            if n is not None:
                ov[names.index("lms")] = Ref(arr([c23.triple(k)[0] for k in range(n)]))
            judge(ctx, ctx.run("cv_optimize", path, over=ov, ip=ip, limit=25), path, "%s (%s rounds, %s landmarks)" % (path, its, n))
    with ctx.part(TG):
        def tri(ip, st, f, args, fr, t):
            seen.append(1)
            k = len(seen)
            return opt(alg.bvar(("sym", "found%d" % k), ()), vec(*[alg.var("tri%d.%s" % (k, x)) for x in "xyz"]))
        seen = []
        judge(ctx, ctx.run("cv_geom", TG, hooks={c22.TRI: tri}, limit=60), TG)
    with ctx.part(LG):
        judge(ctx, ctx.run("cv_optimize", LG, hooks=c23.Rounds().hooks, optional=True, limit=25), LG)
    for n in (0, 1, 7, 8, 9):
        with ctx.part(EP):
            judge(ctx, ctx.run("eight_point", EP, over={1: as_iter(sym_matches(n))}, limit=60), EP, "%s (%d samples)" % (EP, n))
    with ctx.part(c20.EST):
        judge(ctx, ctx.run("nister_stewenius", c20.EST, over={1: as_iter(sym_matches(5))}, limit=100), c20.EST)
    ws = [x[0] for x in world_matches()]
    for what, ms in (("distinct", ws), ("two equal", [ws[0], ws[0], ws[1]]), ("all equal", [ws[0]] * 3)):
        with ctx.part(LTE):
            judge(ctx, ctx.run("lambda_twist", LTE, over={1: as_iter(ms)}, hooks=Rec().hooks, limit=60), LTE, "%s (%s samples)" % (LTE, what))

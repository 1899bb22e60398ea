"""C26: termination."""
from vlib import graph
from vlib.dump import CRATES
from vlib.spec import *

TECHNIQUE = "loop and call graph analysis of the MIR: strongly connected components cut at finite iterator steps, recursion search, and enumeration of iterative numerical routines"
RULE = ("every cycle of every function's control flow passes a step of a finite iterator (ranges with an end, collections, adaptors of those, the caller's own iterator) that leaves the loop when exhausted and is not "
        "restarted in it; no function reaches itself; no consumer runs over an endless iterator; every iterative decomposition is called with a cap that is not the constant zero, "
        "except making I + skew orthogonal, whose iteration contracts")
FLOOR = 30
TRUSTED = ("library code outside the seven crates terminates on finite input", "orthogonalising the identity plus a skew matrix converges (a contraction by at least 1/3 per step around the common axis)",
           "the caller's own iterators end, and a cap of zero chosen by the caller means no cap, as documented")
M = "nalgebra::base::matrix::Matrix::"
# routine -> position of the cap (None: no cap at all)
ITER = {}
for n in ("symmetric_eigen", "svd", "svd_unordered", "schur", "symmetric_eigenvalues", "eigenvalues", "complex_eigenvalues", "singular_values", "singular_values_unordered", "rank", "pseudo_inverse", "bidiagonalize_svd"):
    ITER[M + n] = None
for n, k in (("try_symmetric_eigen", 2), ("try_svd", 4), ("try_svd_unordered", 4), ("try_schur", 2)):
    ITER[M + n] = k
for t, k in (("symmetric_eigen::SymmetricEigen", 2), ("schur::Schur", 2), ("svd::SVD", 4)):
    for u in ("", "_unordered"):
        ITER["nalgebra::linalg::%s::new%s" % (t, u)] = None
        ITER["nalgebra::linalg::%s::try_new%s" % (t, u)] = k
ITER.update({"nalgebra::geometry::rotation::Rotation::from_matrix": None, "nalgebra::geometry::rotation::Rotation::from_matrix_eps": 2,
             "nalgebra::geometry::quaternion::UnitQuaternion::from_matrix": None, "nalgebra::geometry::quaternion::UnitQuaternion::from_matrix_eps": 2})
CONSUME = {"collect", "fold", "sum", "product", "count", "last", "for_each", "try_fold", "try_for_each", "find", "find_map", "position", "any", "all", "min", "max", "min_by", "max_by", "min_by_key", "max_by_key", "partition",
           "unzip", "reduce", "eq", "cmp", "partial_cmp", "nth", "from_iter", "extend", "rposition", "is_sorted"}


def check(ctx):
    D = ctx.D
    lib = set(CRATES)
    done = set()
    for c in CRATES:
        d = D[c]
        for key, b in d["bodies"].items():
            if b["crate"] not in lib:
                continue
            mine = b["crate"] == c or key not in D[b["crate"]]["bodies"]
            if not mine:
                continue
            ctx.fns.add(b["path"])
            for comp, v, why in graph.loops(d, b):
                ctx.count("loops")
                nm = "loop in %s (%s)" % (b["path"], why)
                if v:
                    ctx.ok(nm)
                elif v is None:
                    ctx.undecided(nm, why)
                elif (b["path"], why) not in done:
                    done.add((b["path"], why))
                    ctx.violate("loop in %s" % b["path"], "a loop of %s can run forever: %s" % (b["path"], why), b["span"])
            for _, t in graph.terms(b):
                if t["k"] != "call":
                    continue
                p = graph.callee_name(t)
                consumer(ctx, d, b, t, done)
                if p in ITER:
                    solver(ctx, c, d, b, t, p, done)
        g = graph.call_graph(d)
        cyc = graph.sccs(g, lambda k: g[k])
        for comp in cyc:
            own = sorted(d["bodies"][k]["path"] for k in comp if d["bodies"][k]["crate"] in lib)
            if not own:
                continue
            if tuple(own) not in done:
                done.add(tuple(own))
                ctx.violate("recursion of %s" % own[0], "these functions call each other in a cycle: %s" % ", ".join(own[:4]), d["bodies"][sorted(comp)[0]]["span"])
        ctx.holds("call graph of %s has no cycle through the library" % c, not any(d["bodies"][k]["crate"] in lib for comp in cyc for k in comp), "recursion", "")


def consumer(ctx, d, b, t, done):
    last = (t["f"].get("path") or "").split("::")[-1]
    if last not in CONSUME:
        return
    tys = [a for a in t["f"].get("args", ()) if isinstance(a, int)] if last in ("from_iter", "extend") else [a for a in t["f"].get("args", ()) if isinstance(a, int)][:1]
    for ty in tys:
        if graph.finite(d, ty) is False:
            # a search stops at the first hit only; nothing bounds it
            k = ("consumer", b["path"], last)
            if k not in done:
                done.add(k)
                ctx.violate("endless iterator in %s" % b["path"], "%s runs `%s` over an iterator without an end: %s" % (b["path"], last, d["types"][ty]["s"][:160]), t["sp"])
            return
    ctx.count("iterator consumers")


def solver(ctx, c, d, b, t, p, done):
    cap = ITER[p]
    last = "::".join(p.split("::")[-2:])
    nm = "cap of %s in %s" % (last, b["path"])
    if (nm, t["sp"]) in done:
        return
    done.add((nm, t["sp"]))
    ctx.count("iterative routines")
    if cap is None:
        if p.endswith("from_matrix") and skew(ctx, b):
            ctx.ok(nm, "orthogonalisation of the identity plus a skew matrix")
            return
        ctx.violate(nm, "%s starts the iterative routine %s, which has no iteration cap" % (b["path"], last), t["sp"])
        return
    a = t["a"][cap] if cap < len(t["a"]) else None
    if a is not None and a[0] == "c" and a[1].get("v") is not None:
        ctx.holds(nm, a[1]["v"] != "0", "the iteration cap of %s is the constant zero, which means unlimited" % last, t["sp"])
    else:
        ctx.ok(nm, "cap from the configuration")


def skew(ctx, b):
    """the matrix made orthogonal is the identity plus a skew matrix"""
    for c, r in ctx.roots():
        if r["path"] == b["path"].split("::{closure")[0]:
            x = ctx.run(c, r["path"])
            if not x:
                return True
            ms = [e["args"][0] for e in x.ip.events if e["kind"] == "solver" and e["what"] == "from_matrix"]
            for m_ in ms:
                m_ = unref(m_)
                z = vadd(vadd(m_, transpose(m_)), scale(eye(3), num(-2)))
                if not all(alg.same(e, ZERO, T) for e in z.e):
                    return False
            return bool(ms)
    return False

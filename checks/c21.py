"""C21: three-point refinement and pose recovery."""
from vlib.spec import *
from vlib.interp import subst, subst_value
from checks.c19 import as_iter

TECHNIQUE = "abstract interpretation of the compiled MIR with the inner numeric steps as uninterpreted operations whose arguments are recorded, compared with the specification"
RULE = ("refinement: zero iterations return the input; one iteration is l - J^-1 r for r = (|l_i y_i - l_j y_j|^2 - |x_i - x_j|^2), kept exactly when the L1 norm of r does not grow, and the carried "
        "residual is that of the carried depths; pose: the matrix made orthogonal maps x1-x2, x1-x3 and their cross product onto the refined camera differences, t = l1*y1 - R*x1; every "
        "candidate gives one pose, and no three finite world points in general position are refused whatever the bearings are")
FLOOR = 4
FWM = "cv_core::matches::FeatureWorldMatch"
LT = "lambda_twist::"
EST = "<lambda_twist::LambdaTwist as sample_consensus::Estimator<%s>>::estimate" % FWM
GN = LT + "gauss_newton_refine_lambda"
TYPE = LT + "LambdaTwist"


class Rec:
    """the inner steps as uninterpreted operations"""

    def __init__(self, gname="g", refine=True, vals=None):
        self.calls = {}
        self.hooks = {LT + "cube_root": self.mk("cube", lambda k: alg.var(gname)),
                      LT + "eigen_decomposition_singular": self.mk("eig", lambda k: Agg("tuple", [
                          Mat(3, 3, [alg.var("e%d%d" % (i, j)) for j in range(3) for i in range(3)]), Mat(3, 1, vals or [alg.var("s%d" % i) for i in range(3)])])),
                      LT + "root2real": self.mk("root", lambda k: Agg("tuple", [alg.bvar(("sym", "rr%d" % k), ()), alg.var("tau%d.0" % k), alg.var("tau%d.1" % k)]))}
        if refine:
            self.hooks[GN] = self.mk("refine", self.refined)

    @staticmethod
    def refined(k):
        return Mat(3, 1, [alg.var("L%d.%d" % (k, i)) for i in range(3)])

    def mk(self, nm, val):
        def hk(ip, st, f, args, fr, t):
            c = self.calls.setdefault(nm, [])
            c.append(([ip.strip(st, a) for a in args], st.pc))
            return val(len(c) - 1)
        return hk


def world_matches(simple=False):
    """simple: finite world points, the first one at the origin"""
    ms = []
    for k in range(3):
        y = Mat(3, 1, [alg.var("y%d%s" % (k, c)) for c in "xyz"])
        h = Mat(4, 1, [ZERO if simple and k == 0 else alg.var("x%d%s" % (k, c)) for c in "xyz"] + [ONE if simple else alg.var("w%d" % k, True)])
        ms.append((Agg(FWM, [y, Agg(WORLD, [h])]), y, unscale(xyz(h), h.e[3]), h))
    return ms


def residual(l, a, b):
    """a = (a12, a13, a23), b the same for -2 cos"""
    out = []
    for (i, j), aa, bb in zip(((0, 1), (0, 2), (1, 2)), a, b):
        li, lj = l.e[i], l.e[j]
        out.append(sub(add(add(mul(li, li), mul(lj, lj)), mul(bb, mul(li, lj))), aa))
    return Mat(3, 1, out)


def l1(r):
    return add(add(alg.absv(r.e[0]), alg.absv(r.e[1])), alg.absv(r.e[2]))


def newton(l, r, b):
    J = rows(*[[add(mul(num(2), l.e[i]), mul(bb, l.e[j])) if k == i else add(mul(num(2), l.e[j]), mul(bb, l.e[i])) if k == j else ZERO for k in range(3)]
               for (i, j), bb in zip(((0, 1), (0, 2), (1, 2)), b)])
    d = det(J)
    return vsub(l, unscale(matmul(adjugate(J), r), d)), d


def refinement(ctx):
    root = ctx.find("lambda_twist", GN)
    if root is None or len(root["inputs"]) != 8:
        ctx.undecided("refinement", "the refinement step is not a separate function of eight arguments")
        return
    r0 = ctx.run("lambda_twist", GN, over={1: ZERO})
    if r0:
        ctx.eq("no iterations leave the depths alone", r0.value, r0.args[0], root["span"])
    r1 = ctx.run("lambda_twist", GN, over={1: ONE})
    if r1:
        l, a, b = r1.args[0], r1.args[2:5], r1.args[5:8]
        r = residual(l, a, b)
        ln, d = newton(l, r, b)
        rn = residual(ln, a, b)
        nz = bnot(alg.eq0(d))
        far = alg.gt0(sub(l1(r), num(alg.Fraction(1, 1000))))
        # the accepted step, and when it is accepted, separately
        worse = alg.gt0(sub(l1(rn), l1(r)))
        better = alg.lt0(sub(l1(rn), l1(r)))
        ctx.eq("a step that lowers the residual is the Newton step", r1.value, ln, root["span"], under=band(far, better, nz))
        ctx.eq("a step that raises the residual is refused", r1.value, l, root["span"], under=band(far, worse, nz))
    rl = ctx.run("lambda_twist", GN)
    if rl:
        a, b = rl.args[2:5], rl.args[5:8]
        for L in rl.ip.loops:
            cells = {}
            want = residual(rl.args[0], a, b)
            for c in L["cells"]:
                if isinstance(c["init"], N):
                    for i in range(3):
                        if alg.same(c["init"], rl.args[0].e[i]):
                            cells[i] = c
                elif isinstance(c["init"], Mat) and c["init"].r == 3 and ctx.same(c["init"], want):
                    cells["r"] = c
                elif isinstance(c["init"], Mat) and c["init"].r == 3 and ctx.same(c["init"], rl.args[0]):
                    cells["l"] = c
            if not ("l" in cells or all(i in cells for i in range(3))):
                continue
            mul_ = cells["l"]["mu"] if "l" in cells else Mat(3, 1, [cells[i]["mu"] for i in range(3)])
            stl = cells["l"]["step"] if "l" in cells else Mat(3, 1, [cells[i]["step"] for i in range(3)])
            mp = {}
            r = residual(mul_, a, b)
            if "r" in cells:
                for e, w in zip(cells["r"]["mu"].e, r.e):
                    mp[next(iter(e.v.n.atoms()))] = w
                ctx.eq("the carried residual is that of the carried depths", subst_value(cells["r"]["step"], mp, {}),
                       residual(subst_value(stl, mp, {}), a, b), root["span"], uf=True)
            ln, d = newton(mul_, r, b)
            rn = residual(ln, a, b)
            go = band(alg.gt0(sub(l1(r), num(alg.Fraction(1, 1000)))), alg.lt0(sub(l1(rn), l1(r))), bnot(alg.eq0(d)))
            ctx.eq("every round is a Newton step from the carried depths", subst_value(stl, mp, {}), ln, root["span"], under=go)
            return
        ctx.undecided("the carried residual is that of the carried depths", "no loop that carries depths and residual")


def atoms_of(v):
    out = set()
    for _, n in scalars(v):
        for l in alg.leaves(n):
            if isinstance(l, alg.Rat):
                for p in [l.n] + [f for f, _ in l.d]:
                    out |= p.atoms()
    return out


def poses(ctx, simple=False):
    rec = Rec()
    ms = world_matches(simple)
    r = ctx.run("lambda_twist", EST, over={1: as_iter([x[0] for x in ms])}, hooks=rec.hooks)
    if not r:
        return
    sp = r.root["span"]
    calls = rec.calls.get("refine", [])
    if not calls:
        ctx.undecided("pose recovery", "the refinement step is not called")
        return
    ys, xs = [x[1] for x in ms], [x[2] for x in ms]
    fin = band(*[bnot(alg.eq0(x[3].e[3])) for x in ms])
    D = {(i, j): vsub(xs[i], xs[j]) for i, j in ((0, 1), (0, 2), (1, 2))}
    slf = unref(r.args[0])
    segs = [s for s in r.ip.to_segs(r.state, unref(r.value))]
    if any(s[0] != "i" for s in segs):
        ctx.undecided("pose recovery", "the poses are not listed one by one")
        return
    ortho = [e for e in r.ip.events if e["kind"] == "solver" and e["what"].startswith("from_matrix")]
    M3 = rows(*[[v.e[i] for v in (D[0, 1], D[0, 2], cross(D[0, 1], D[0, 2]))] for i in range(3)])
    ok = band(fin, bnot(alg.eq0(det(M3))))
    if not simple:
        # conditions that also depend on the bearings or on the inner steps are left open
        some = bor(*[pc for _, pc in calls])
        some = alg.exists(some, {v for v in alg.bvars(some) if not only_world(v)})
        ctx.eq("world points in general position are never refused", some, T, sp, under=ok, uf=True)
    for k, (args, pc) in enumerate(calls):
        nm = "candidate %d" % k
        if len(args) != 8:
            ctx.undecided(nm, "the refinement step takes %d arguments" % len(args))
            continue
        if k == 0 and not simple:
            ctx.eq("refinement iterations", args[1], ctx.fld(slf, "gauss_newton_iterations"), sp)
        for (i, j), a, b in zip(D, args[2:5], args[5:8]):
            if simple:
                break
            ctx.eq("%s: squared distance of world points %d and %d" % (nm, i, j), a, nsq(D[i, j]), sp, under=fin)
            ctx.eq("%s: cosine of bearings %d and %d" % (nm, i, j), b, mul(num(-2), dot(ys[i], ys[j])), sp)
        L = rec.refined(k)
        la = {next(iter(e.v.n.atoms())) for e in L.e}
        mine = [e for e in ortho if la & atoms_of(e["args"][0])]
        seg = [s for s in segs if la & atoms_of(iso_of(s[2]).f[1])]
        if simple and len(seg) != 1:
            continue
        if not ctx.holds("%s: gives one pose" % nm, len(seg) == 1, "the refined depths of candidate %d give %d poses" % (k, len(seg)), sp):
            continue
        R, t = iso_of(seg[0][2]).f
        M = mine[0]["args"][0] if len(mine) == 1 else R
        if len(mine) == 1 and not alg_near(R, M):
            ctx.undecided("%s: rotation" % nm, "the rotation is not the orthogonalised matrix")
            continue
        y = [scale(ys[i], L.e[i]) for i in range(3)]
        d12, d13 = vsub(y[0], y[1]), vsub(y[0], y[2])
        if simple:
            ctx.eq("%s: rotation maps the cross product onto that of the camera differences" % nm, matmul(M, cross(D[0, 1], D[0, 2])), cross(d12, d13), sp, under=ok)
            continue
        for nn, x, yy in (("x1-x2", D[0, 1], d12), ("x1-x3", D[0, 2], d13)):
            ctx.eq("%s: rotation maps %s onto the camera differences" % (nm, nn), matmul(M, x), yy, sp, under=ok)
        ctx.eq_any("%s: translation" % nm, t, [vsub(y[0], matmul(M, xs[0])), vsub(y[0], matmul(R, xs[0]))], sp, under=ok)
        ctx.eq("%s: present exactly when refined" % nm, seg[0][1], pc, sp, under=ok, uf=True)


def only_world(v):
    """condition on the world points alone"""
    k = alg.VARS[v]
    if k[0] not in ("pos", "neg", "nan", "fin"):
        return False
    ps = [k[1]] if isinstance(k[1], alg.Poly) else [k[1].n] + [f for f, _ in k[1].d]
    seen, todo = set(), list(ps)
    while todo:
        for a in todo.pop().atoms():
            if a in seen:
                continue
            seen.add(a)
            A = alg.ATOMS[a]
            if A[0] == "let":
                todo += [alg.LETDEF[a].n] + [f for f, _ in alg.LETDEF[a].d]
            elif a in alg.SQRT:
                todo.append(alg.SQRT[a])
            elif A[0] != "var" or not str(A[1]).startswith(("x", "w")):
                return False
    return bool(seen)


def alg_near(R, M):
    """R is the rotation nearest to M"""
    k = kid(("nearest_rotation", M))
    for j in range(3):
        for i in range(3):
            a = R.at(i, j)
            at = a.v.n.atoms() if a.is_leaf() and isinstance(a.v, alg.Rat) else ()
            if len(at) != 1 or alg.ATOMS[next(iter(at))][:2] != ("el", k):
                return False
    return True


def check(ctx):
    ctx.anchor("lambda_twist", EST)
    with ctx.part("refinement"):
        refinement(ctx)
    with ctx.part("pose recovery"):
        poses(ctx)
    with ctx.part("orientation of the recovered pose"):
        poses(ctx, True)

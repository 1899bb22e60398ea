"""C35: the candidate depths of the three-point solver solve the distance equations."""
from vlib.spec import *
from vlib.interp import subst, subst_value
from checks.c19 import as_iter
from checks.c21 import Rec, EST, FWM, LT, atoms_of

TECHNIQUE = ("abstract interpretation of the compiled MIR with the inner numeric steps as uninterpreted operations; the recorded arguments and candidates are compared, as rational functions, with the "
             "distance equations under the defining equation of each inner step")
RULE = ("the decomposed form is a combination of a23*M12 - a12*M23 and a23*M13 - a13*M23, singular at a root of the cubic; every kept triple satisfies the second distance equation exactly and the other two "
        "whenever the inner steps are exact, and is kept exactly when its quadratic has real roots, ratio and depths are non-negative; the quadratic solver and the singular eigen-decomposition are exact; the iteration "
        "for the cubic root is a second order one at every simple root")
FLOOR = 4


def ge0(x):
    return bnot(alg.lt0(x))


def one_atom(n):
    return next(iter(n.v.n.atoms()))


def scene():
    """world points in general position up to a rigid motion; bearings with three free dot products (only those enter)"""
    v = {k: alg.var(k) for k in "mnouvt"}
    xs = [vec(ZERO, ZERO, ZERO), vec(v["u"], ZERO, ZERO), vec(v["v"], v["t"], ZERO)]
    ys = [vec(ONE, ZERO, ZERO), vec(v["m"], ONE, ZERO), vec(v["n"], v["o"], ZERO)]
    ms = [Agg(FWM, [y, Agg(WORLD, [Mat(4, 1, list(x.e) + [ONE])])]) for x, y in zip(xs, ys)]
    return v, xs, ys, ms


def candidates(ctx):
    v, xs, ys, ms = scene()
    # the eigenvalues of an indefinite form: s0 = p, s1 = -p*rho^2
    s0, rho = alg.var("p"), alg.var("rho", True)
    s1 = neg(mul(s0, mul(rho, rho)))
    rec = Rec(vals=[s0, s1, ZERO])
    r = ctx.run("lambda_twist", EST, over={1: as_iter(ms)}, hooks=rec.hooks)
    if not r:
        return
    sp = r.root["span"]
    C = rec.calls
    if any(len(C.get(k, [])) < 1 for k in ("cube", "eig", "root", "refine")):
        ctx.undecided("candidates", "the inner steps of the solver are not separate functions: %s" % sorted(C))
        return
    a = {(i, j): nsq(vsub(xs[i], xs[j])) for i, j in ((0, 1), (0, 2), (1, 2))}
    c = {(i, j): dot(ys[i], ys[j]) for i, j in a}

    def form(i, j):
        """the quadratic form |l_i y_i - l_j y_j|^2 for unit bearings"""
        return rows(*[[ONE if p == q and p in (i, j) else neg(c[i, j]) if {p, q} == {i, j} else ZERO for q in range(3)] for p in range(3)])
    M12, M13, M23 = form(0, 1), form(0, 2), form(1, 2)
    D1 = vsub(scale(M12, a[1, 2]), scale(M23, a[0, 1]))
    D2 = vsub(scale(M13, a[1, 2]), scale(M23, a[0, 2]))
    # the decomposed form
    D0 = C["eig"][0][0][0]
    al, be = div(D0.at(0, 1), D1.at(0, 1)), div(D0.at(0, 2), D2.at(0, 2))
    gen = band(bnot(alg.eq0(D1.at(0, 1))), bnot(alg.eq0(D2.at(0, 2))))
    comb = vadd(scale(D1, al), scale(D2, be))
    ctx.eq("the decomposed form is a combination of the difference forms", D0, comb, sp, under=gen)
    # ... and singular at the root: det(D0(g)) p(h) == det(D0(h)) p(g)
    g, h = alg.var("g"), alg.var("h")
    cub = C["cube"][0][0]
    if len(cub) == 3:
        def p(x):
            return add(mul(add(mul(add(x, cub[0]), x), cub[1]), x), cub[2])
        d = det(D0)
        ctx.eq("the form is singular at the root of the cubic", mul(d, p(h)), mul(subst(d, {one_atom(g): h}), p(g)), sp)
    # candidates
    E = rows(*[[alg.var("e%d%d" % (i, j)) for j in range(3)] for i in range(3)])
    opp = band(bnot(alg.eq0(s0)), alg.gt0(rho))
    roots = []
    for k, (args, pc) in enumerate(C["root"]):
        roots.append((args, pc, [alg.var("tau%d.%d" % (k, i)) for i in range(2)]))
    seen = {}
    for k, (args, pc) in enumerate(C["refine"]):
        lam = args[0]
        if not (isinstance(lam, Mat) and lam.r == 3):
            ctx.undecided("candidate %d" % k, "the refined value is not a triple")
            continue
        at = atoms_of(lam)
        which = [(q, i) for q, rt in enumerate(roots) for i in range(2) if one_atom(rt[2][i]) in at]
        if len(which) != 1:
            ctx.undecided("candidate %d" % k, "the depths do not come from one root of one quadratic")
            continue
        q, i = which[0]
        nm = "candidate from root %d of quadratic %d" % (i, q)
        ctx.holds("%s: kept once" % nm, (q, i) not in seen, "a root is used twice", sp)
        tau = roots[q][2][i]
        pos = alg.gt0(add(mul(tau, sub(tau, mul(num(2), c[1, 2]))), ONE))
        l = [alg.cofactor(alg.cofactor(alg.cofactor(x, pos), alg.gt0(a[1, 2])), alg.gt0(rho)) for x in lam.e]

        def q_(i, j, l=l):
            return sub(add(mul(l[i], l[i]), mul(l[j], l[j])), mul(num(2), mul(c[i, j], mul(l[i], l[j]))))
        good = band(pos, alg.gt0(a[1, 2]))
        ctx.eq("%s: distance equation of points 1 and 2" % nm, q_(1, 2), a[1, 2], sp, under=good)
        # the singular form vanishes: s0 (e0.l)^2 + s1 (e1.l)^2 = 0, divided by the scale of l
        w = [div(x, l[1]) for x in l]
        f = [add(add(mul(E.at(0, n), w[0]), mul(E.at(1, n), w[1])), mul(E.at(2, n), w[2])) for n in range(2)]
        ctx.eq("%s: the singular form vanishes" % nm, mul(s0, mul(f[0], f[0])), neg(mul(s1, mul(f[1], f[1]))), sp, under=band(good, opp))
        seen[q, i] = div(f[0], f[1])
        # ... and so does a13 q12 - a12 q13 at a root: as a polynomial in tau it is proportional to the quadratic
        b_, c_ = roots[q][0]
        sig = alg.var("sigma")
        pol = lambda x: add(mul(x, add(x, b_)), c_)
        F = alg.cofactor(sub(mul(a[0, 2], q_(0, 1, w)), mul(a[0, 1], q_(0, 2, w))), alg.gt0(rho))
        ctx.eq("%s: distance equations of point 0" % nm, mul(F, pol(sig)), mul(subst(F, {one_atom(tau): sig}), pol(tau)), sp, under=band(opp, good))
        kept = band(ge0(sub(mul(b_, b_), mul(num(4), c_))), alg.gt0(tau), pos, ge0(l[0]))
        alive = band(alg.gt0(mul(mul(v["u"], v["u"]), mul(v["t"], v["t"]))), alg.gt0(a[1, 2]), alg.gt0(rho))
        ctx.eq("%s: kept exactly when it is a non-negative real solution" % nm, pc, kept, sp, under=alive, uf=True)
    want = [(q, i) for q in range(len(roots)) for i in range(2)]
    if len(roots) == 2 and len(seen) == len(C["refine"]):
        ctx.holds("every root of both quadratics is a candidate", all(w in seen for w in want), "roots %s are never candidates" % [w for w in want if w not in seen], sp)
        for (q, i), f in seen.items():
            if q == 0 and (1, i) in seen:
                ctx.eq("the two quadratics come from the two factors (%d)" % i, f, neg(seen[1, i]), sp, under=opp)
    else:
        ctx.undecided("every root of both quadratics is a candidate", "%d quadratics" % len(roots))


def quadratic(ctx):
    root = ctx.find("lambda_twist", LT + "root2real")
    if root is None or len(root["inputs"]) != 2:
        ctx.undecided("quadratic roots", "no function with two coefficients")
        return
    r = ctx.run("lambda_twist", LT + "root2real")
    if not r or not isinstance(r.value, Agg) or len(r.value.f) != 3:
        ctx.undecided("quadratic roots", "the result is not (flag, root, root)")
        return
    b, c = r.args
    real, x, y = r.value.f
    disc = sub(mul(b, b), mul(num(4), c))
    some = band(alg.gt0(disc), bnot(alg.eq0(c)))
    ctx.eq("quadratic roots: flag", real, ge0(disc), root["span"])
    for nm, z in (("first", x), ("second", y)):
        ctx.eq("quadratic roots: %s root" % nm, add(mul(z, add(z, b)), c), ZERO, root["span"], under=some)
    ctx.eq("quadratic roots: both", add(x, y), neg(b), root["span"], under=some)


def cubic(ctx):
    root = ctx.find("lambda_twist", LT + "cube_root")
    if root is None or len(root["inputs"]) != 3:
        ctx.undecided("cubic root", "no function with three coefficients")
        return
    r = ctx.run("lambda_twist", LT + "cube_root")
    if not r:
        return
    b, c, d = r.args
    n = 0
    for L in r.ip.loops:
        for cell in L["cells"]:
            mu, st = cell["mu"], cell["step"]
            if not (isinstance(mu, N) and isinstance(st, N) and mu.is_leaf()) or not (one_atom(mu) in atoms_of(st)) or not atoms_of(st) & {one_atom(b)}:
                continue
            n += 1
            # x = root + delta: the step must be the root up to second order in delta
            rt, de = alg.var("root"), alg.var("delta")
            dd = neg(mul(rt, add(mul(rt, add(rt, b)), c)))
            der = add(mul(rt, add(mul(num(3), rt), mul(num(2), b))), c)
            q = div(sub(subst(st, {one_atom(d): dd, one_atom(mu): add(rt, de)}), rt), de)
            lin = subst(q, {one_atom(de): ZERO})
            if atoms_of(lin) & {one_atom(de)}:
                ctx.undecided("iteration %d for the cubic root" % n, "the step is not differentiable at the root")
                continue
            ctx.eq("iteration %d for the cubic root converges to it quadratically" % n, lin, ZERO, root["span"], under=bnot(alg.eq0(der)))
    if not n:
        ctx.undecided("cubic root", "no iteration found")


def eigen(ctx):
    root = ctx.find("lambda_twist", LT + "eigen_decomposition_singular")
    if root is None or len(root["inputs"]) != 1:
        ctx.undecided("singular eigen-decomposition", "no such function of one matrix")
        return
    m11, m12, m13, m22, m23 = [alg.var("m" + k) for k in ("11", "12", "13", "22", "23")]
    k = sub(mul(m11, m22), mul(m12, m12))
    m33 = div(add(sub(mul(m13, sub(mul(m13, m22), mul(m12, m23))), ZERO), mul(m23, sub(mul(m11, m23), mul(m12, m13)))), k)
    M = rows([m11, m12, m13], [m12, m22, m23], [m13, m23, m33])
    rec = {}

    def hk(ip, st, f, args, fr, t):
        rec["args"] = [ip.strip(st, a) for a in args]
        e = [alg.var("eig0"), alg.var("eig1")]
        return Agg("tuple", [T] + e)
    r = ctx.run("lambda_twist", LT + "eigen_decomposition_singular", over={0: M}, hooks={LT + "root2real": hk})
    if not r or "args" not in rec:
        ctx.undecided("singular eigen-decomposition", "the quadratic solver is not used")
        return
    vecs, vals = unref(r.value).f
    b, c = rec["args"]
    tr = add(add(m11, m22), m33)
    x, y = alg.var("eig0"), alg.var("eig1")
    ok = bnot(alg.eq0(k))
    # the non-zero eigenvalues: s^2 - tr s + (sum of principal minors)
    minors = add(add(k, sub(mul(m11, m33), mul(m13, m13))), sub(mul(m22, m33), mul(m23, m23)))
    ctx.eq("singular eigen-decomposition: characteristic polynomial", vec(b, c), vec(neg(tr), minors), root["span"], under=ok)
    ctx.eq_any("singular eigen-decomposition: eigenvalues", vec(*vals.e[:2]), [vec(ite(alg.lt0(sub(alg.absv(x), alg.absv(y))), y, x), ite(alg.lt0(sub(alg.absv(x), alg.absv(y))), x, y))], root["span"])
    v3 = vec(*[vecs.at(i, 2) for i in range(3)])
    ctx.eq("singular eigen-decomposition: null vector", matmul(M, v3), zeros(3, 1), root["span"], under=ok)
    ctx.eq("singular eigen-decomposition: zero eigenvalue", vals.e[2], ZERO, root["span"])
    # each vector at the eigenvalue in its own position: (M - s) v has zero first two entries, and its last one is det(M - s) / (top left minor of M - s), which vanishes at an eigenvalue
    for n in range(2):
        s = (x, y)[n]
        big = ge0(sub(alg.absv(x), alg.absv(y)))
        vv = vec(*[vecs.at(i, n) for i in range(3)])
        w = unscale(vv, vv.e[2])
        res = vsub(matmul(M, w), scale(w, s))
        un = band(ok, big, bnot(alg.eq0(res_den(m11, m12, m22, s))))
        ctx.eq("singular eigen-decomposition: eigenvector %d" % n, vec(*res.e[:2]), zeros(2, 1), root["span"], under=un)
        pol = mul(s, add(mul(s, sub(s, tr)), minors))
        ctx.eq("singular eigen-decomposition: eigenvector %d, last entry" % n, mul(res.e[2], res_den(m11, m12, m22, s)), neg(pol), root["span"], under=un)


def res_den(m11, m12, m22, s):
    return sub(mul(sub(m11, s), sub(m22, s)), mul(m12, m12))


def check(ctx):
    ctx.anchor("lambda_twist", EST)
    with ctx.part("candidates"):
        candidates(ctx)
    with ctx.part("quadratic"):
        quadratic(ctx)
    with ctx.part("cubic"):
        cubic(ctx)
    with ctx.part("eigen-decomposition"):
        eigen(ctx)

"""C20: five-point solver."""
import itertools
import random
import mpmath
from vlib import witness
from vlib.spec import *
from checks.c11 import mat_of, EM
from checks.c19 import sym_matches, as_iter, coeffs, FM

TECHNIQUE = "abstract interpretation of the compiled MIR on five symbolic matches and a symbolic nullspace; the linear system, the action matrix and the candidates are compared with the polynomials of the specification"
RULE = ("the nullspace basis holds the four eigenvectors of eigenvalue zero of the five epipolar equations; the rows of [C1|C2] are det(E) and the entries of E E^T E - trace(E E^T) E/2 as "
        "polynomials over one monomial order read off their columns; the action matrix is multiplication by +-x (or y, z) in the quotient basis given C1^-1 C2; each real eigenvalue's candidate "
        "takes (x, y, z, 1) from the positions of those monomials")
FLOOR = 4
EST = "<nister_stewenius::NisterStewenius as sample_consensus::Estimator<%s>>::estimate" % FM
NB = "nister_stewenius::five_points_nullspace_basis"
POSES = EM + "::possible_unscaled_poses"
STD = {(i, j): 3 * j + i for i in range(3) for j in range(3)}
ROWS = {(i, j): 3 * i + j for i in range(3) for j in range(3)}


# ------------------------------------------------------- polynomials in x, y, z over the nullspace entries
def pmul(a, b):
    out = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            out[k] = add(out[k], mul(c, d)) if k in out else mul(c, d)
    return out


def padd(*ps):
    out = {}
    for p in ps:
        for k, c in p.items():
            out[k] = add(out[k], c) if k in out else c
    return out


def pscale(p, c):
    return {k: mul(v, c) for k, v in p.items()}


def constraints(B, pos):
    """the ten cubic polynomials, as {monomial: coefficient}; a monomial is a sorted tuple of 'x', 'y', 'z' ('w' is 1)"""
    E = [[{(v,): B.at(pos[(i, j)], c) for c, v in enumerate("xyzw")} for j in range(3)] for i in range(3)]

    def mm(A, C, tr=False):
        return [[padd(*[pmul(A[i][k], C[j][k] if tr else C[k][j]) for k in range(3)]) for j in range(3)] for i in range(3)]
    d = padd(*[pscale(pmul(pmul(E[0][p[0]], E[1][p[1]]), E[2][p[2]]), num(s)) for p, s in
               (((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1), ((0, 2, 1), -1), ((1, 0, 2), -1), ((2, 1, 0), -1))])
    G = mm(E, E, True)
    tr = padd(G[0][0], G[1][1], G[2][2])
    GE = mm(G, E)
    out = [d]
    for i in range(3):
        for j in range(3):
            out.append(padd(GE[i][j], pscale(pmul(tr, E[i][j]), div(num(-1), num(2)))))
    return out


MONO = sorted({tuple(sorted(t)) for t in itertools.product("xyzw", repeat=3)})


def poly_of(e):
    """polynomial of a plain entry"""
    if not (isinstance(e, N) and e.is_leaf() and isinstance(e.v, alg.Rat)) or any(m for _, m in e.v.d):
        return None
    return e.v.n


def column_monomial(col, label):
    """the monomial a column belongs to, from the nullspace columns its entries are built from; None: not a polynomial; False: no single monomial"""
    kinds = set()
    for e in col:
        p = poly_of(e)
        if p is None:
            return None
        for mono in p.t:
            k = []
            for a, ex in mono:
                if a not in label:
                    return None
                k += [label[a]] * ex
            kinds.add(tuple(sorted(k)))
    if len(kinds) != 1:
        return False
    k = kinds.pop()
    return k if len(k) == 3 else False


def row_form(row):
    """row {monomial: entry} up to a constant factor, as a hashable value"""
    lead = None
    for k, e in row.items():
        p = poly_of(e)
        for mono, c in p.t.items():
            if lead is None or mono > lead[0]:
                lead = (mono, c)
    if lead is None:
        return None
    s = 1 / alg.Fraction(lead[1]) if hasattr(alg, "Fraction") else 1
    return tuple(sorted((k, tuple(sorted((mono, c * s) for mono, c in poly_of(e).t.items()))) for k, e in row.items()))


def spans(ctx, got, want, tries=4):
    """do the sampled specification rows lie in the span of the sampled extracted rows?"""
    rng = random.Random(ctx.seed)
    good = bad = 0
    for t in range(tries * 3):
        v = witness.Val(rng, "gen")
        try:
            A = mpmath.matrix([[v.dd(r[k]) if k in r else mpmath.mpf(0) for k in MONO] for r in got])
            S = mpmath.matrix([[v.dd(r[k]) if k in r else mpmath.mpf(0) for k in MONO] for r in want])
        except (witness.Undef, ZeroDivisionError):
            continue
        if v.uf:
            continue
        try:
            X = mpmath.lu_solve(A.T[:, :], S.T[:, :]) if False else None
            res = mpmath.mpf(0)
            for i in range(S.rows):
                x = mpmath.lu_solve(A.T, S[i, :].T)
                res = max(res, max(abs(e) for e in (A.T * x - S[i, :].T)) / (1 + max(abs(e) for e in S[i, :])))
        except ZeroDivisionError:
            res = mpmath.mpf(1)     # the rows are dependent
        if res > mpmath.mpf(10) ** -15:
            bad += 1
        else:
            good += 1
        if bad >= 2 or good >= tries:
            break
    return "no" if bad >= 2 else "yes" if good >= 2 and not bad else "few"


# ------------------------------------------------------- parts
def nullspace(ctx):
    """returns the positions of the entries of E in a nullspace vector"""
    vals = [7, 2e-15, 3, 0, 5, 1e-15, 11, 3e-15, 2]
    vecs = Mat(9, 9, [alg.var("v%d%d" % (i, j)) for j in range(9) for i in range(9)])
    seen = []

    def hk(ip, st, f, args, fr, t):
        m_ = ip.strip(st, args[0])
        seen.append(m_)
        if (m_.r, m_.c) != (9, 9):
            return NotImplemented
        e = Agg("nalgebra::linalg::symmetric_eigen::SymmetricEigen", [vecs, Mat(9, 1, [num(alg.Fraction(x)) for x in vals])])
        return opt(alg.bvar(("sym", "eig.ok"), ()), e)
    ms = sym_matches(5)
    ip = ctx.interp("nister_stewenius", hooks={"nalgebra::base::matrix::Matrix::try_symmetric_eigen": hk, "nalgebra::linalg::symmetric_eigen::SymmetricEigen::try_new": hk})
    r = ctx.run("nister_stewenius", NB, over={0: Ref(arr([x.f[0] for x in ms])), 1: Ref(arr([x.f[1] for x in ms]))}, ip=ip)
    pos = STD
    if not r:
        return pos
    sp = r.root["span"]
    if len(seen) != 1:
        ctx.undecided("nullspace", "%d eigen decompositions" % len(seen))
        return pos

    def normal(ps, s):
        M = zeros(9, 9)
        for mt in ms:
            a, b = mt.f
            w = [None] * 9
            for ij, c in coeffs(a, b).items():
                w[ps[ij]] = div(c, s(a, b)) if s else c
            M = vadd(M, Mat(9, 9, [mul(w[p], w[q]) for q in range(9) for p in range(9)]))
        return M
    found = False
    for ps in (STD, ROWS):
        for s in (None, lambda a, b: mul(a.e[2], b.e[2]), lambda a, b: mul(norm(a), norm(b))):
            if ctx.same(seen[0], normal(ps, s)):
                pos, found = ps, True
                break
        if found:
            break
    if found:
        ctx.ok("nullspace: normal matrix of the five epipolar equations")
    else:
        ctx.eq("nullspace: normal matrix of the five epipolar equations", seen[0], normal(STD, None), sp)
    o = unref(r.value)
    ctx.eq("nullspace: found when exactly four eigenvalues vanish", is_variant(o, 1), alg.bvar(("sym", "eig.ok"), ()), sp)
    if 1 in o.payd():
        B = r.read(o.payd()[1][0])
        cols = [tuple(B.e[9 * j:9 * j + 9]) for j in range(4)] if isinstance(B, Mat) and (B.r, B.c) == (9, 4) else None
        if cols is None:
            ctx.undecided("nullspace: its basis", "not a 9x4 matrix")
        else:
            names = []
            for c in cols:
                k = [j for j in range(9) if all(alg.same(x, y) for x, y in zip(c, vecs.e[9 * j:9 * j + 9]))]
                names.append(k[0] if k else None)
            zero = {j for j in range(9) if vals[j] < 1e-13}
            if None in names:
                ctx.eq("nullspace: the basis is the four vectors of eigenvalue zero", B, Mat(9, 4, [e for j in sorted(zero) for e in vecs.e[9 * j:9 * j + 9]]), sp)
            else:
                ctx.holds("nullspace: the basis is the four vectors of eigenvalue zero", set(names) == zero,
                          "with eigenvalues %s, %s returns the eigenvectors at positions %s" % (vals, NB, names), sp)
    return pos


def check(ctx):
    ctx.anchor("nister_stewenius", EST)
    pos = STD
    with ctx.part("nullspace"):
        if ctx.find("nister_stewenius", NB):
            pos = nullspace(ctx)
        else:
            ctx.undecided("nullspace", "the nullspace basis is not a separate function")
    with ctx.part("polynomial system"):
        solver(ctx, pos)


def solver(ctx, pos):
    B = Mat(9, 4, [alg.var("n%d%s" % (i, c)) for c in "xyzw" for i in range(9)])
    label = {next(iter(B.at(i, c).v.n.atoms())): "xyzw"[c] for i in range(9) for c in range(4)}
    null_ok = alg.bvar(("sym", "null.some"), ())
    calls, given = [], []

    def hnull(ip, st, f, args, fr, t):
        given.append([ip.strip(st, a) for a in args])
        return opt(null_ok, B)

    def hposes(ip, st, f, args, fr, t):
        k = len(calls)
        isos = [Agg("cv_core::pose::CameraToCamera", [fresh_iso(ip, "e%dp%d" % (k, i))]) for i in range(4)]
        v = opt(alg.bvar(("sym", "poses%d" % k), ()), arr(isos))
        calls.append((ip.strip(st, args[0]), st.pc, v, isos))
        return v
    ip = ctx.interp("nister_stewenius", hooks={NB: hnull, POSES: hposes})
    ms = sym_matches(5)
    r = ctx.run("nister_stewenius", EST, over={1: as_iter(ms)}, ip=ip)
    if not r:
        return
    sp = r.root["span"]
    if len(given) != 1:
        ctx.undecided("polynomial system", "the nullspace basis is computed %d times" % len(given))
        return
    ctx.eq("matches given to the nullspace", Agg("tuple", given[0]), Agg("tuple", [arr([x.f[0] for x in ms]), arr([x.f[1] for x in ms])]), sp)
    sol = [e for e in ip.events if e["kind"] == "solve"]
    if len(sol) != 1 or (sol[0]["a"].r, sol[0]["a"].c, sol[0]["b"].c) != (10, 10, 10):
        ctx.undecided("polynomial system", "no single linear solve of a 10x10 system")
        return
    C = [sol[0]["a"].e[10 * j:10 * j + 10] for j in range(10)] + [sol[0]["b"].e[10 * j:10 * j + 10] for j in range(10)]
    mono = [column_monomial(c, label) for c in C]
    if None in mono:
        ctx.undecided("monomial order", "the system is not polynomial in the nullspace entries")
        return
    bad = [j for j, k in enumerate(mono) if k is False or mono.count(k) > 1]
    if bad:
        j = bad[0]
        ctx.violate("monomial order", "column %d of the system %s" % (
            j, "mixes coefficients of different monomials" if mono[j] is False else "and column %d both hold the monomial %s" % (mono.index(mono[j], 0), "*".join(mono[j]))), sp)
        return
    ctx.ok("monomial order")
    # ---- the ten polynomials
    got = [{mono[j]: C[j][i] for j in range(20)} for i in range(10)]
    want = constraints(B, pos)
    gf, wf = [row_form(x) for x in got], [row_form({k: x[k] for k in mono}) for x in want]
    nm = "the ten polynomials are det(E) and the trace constraint"
    if set(gf) == set(wf) and len(set(gf)) == 10:
        ctx.ok(nm)
    else:
        res = spans(ctx, got, want)
        if res == "no":
            k = [i for i in range(10) if gf[i] not in wf]
            ctx.violate(nm, "the ten equations of the five-point system do not span det(E) = 0 and E E^T E - trace(E E^T) E/2 = 0; rows that are none of them: %s" % k, sp)
        else:
            ctx.undecided(nm, "other combinations of the equations; sampled spans agree" if res == "yes" else "no valuations")
    # ---- action matrix
    sch = [e for e in ip.events if e["kind"] == "solver" and e["what"] in ("try_new", "new", "complex_eigenvalues", "eigenvalues", "schur", "try_schur") and (e["m"].r, e["m"].c) == (10, 10)]
    if not sch:
        ctx.undecided("action matrix", "no eigenvalue computation of a 10x10 matrix")
        return
    at = sch[0]["m"]
    k = kid(("solve", sol[0]["a"], sol[0]["b"]))
    ix = idx_of_value(sol[0]["a"]) | idx_of_value(sol[0]["b"])
    m_ = None
    for nm_ in at.e:
        for l in alg.leaves(nm_):
            for a in l.n.atoms():
                ak = alg.ATOMS[a]
                if ak[0] == "el" and isinstance(KEYL[ak[1]], tuple) and KEYL[ak[1]][0] == "solve":
                    m_ = ak[1]
    k = m_ if m_ is not None else k

    def sel(i, j):
        return leaf(alg.ra(alg.atom(("el", k, i, j), False, ix)))
    lead, basis = mono[:10], mono[10:]

    def drop(mo, v):
        return tuple(sorted(mo[:mo.index("w")] + mo[mo.index("w") + 1:] + (v,))) if "w" in mo else None
    forms = []
    for v in "xyz":
        for s in (-1, 1):
            M = []
            for b in basis:
                tgt = drop(b, v)
                if tgt is None:
                    M = None
                    break
                if tgt in basis:
                    M.append([num(s) if c == tgt else ZERO for c in basis])
                elif tgt in lead:
                    # leading monomial = - sum m * basis
                    M.append([mul(num(-s), sel(lead.index(tgt), j)) for j in range(10)])
                else:
                    M = None
                    break
            if M:
                forms.append((v, s, rows(*M)))
    nm = "action matrix: multiplication in the quotient basis"
    if not forms:
        ctx.violate(nm, "the solved monomials %s and the basis %s do not form a quotient basis of the system" % (["".join(x) for x in lead], ["".join(x) for x in basis]), sp)
    else:
        forms.sort(key=lambda f: -sum(alg.same(x, y) for x, y in zip(at.e, f[2].e)))
        ctx.eq(nm, at, forms[0][2], sp, uf=True)
    # ---- candidates
    svds = [e for e in ip.events if e["kind"] == "solver" and e["what"] == "svd" and (e["m"].r, e["m"].c) == (10, 10)]
    kk = kid(("ceig", at))
    where = {v: basis.index(tuple(sorted((v, "w", "w")))) if tuple(sorted((v, "w", "w"))) in basis else None for v in "xyzw"}
    if None in where.values():
        ctx.undecided("candidates", "x, y, z or 1 is not in the quotient basis")
        return
    if not svds:
        ctx.undecided("candidates", "no singular value decomposition of the shifted action matrix")
        return
    o = unref(r.value)
    segs = ip.to_segs(r.state, o)
    tail = {tuple(alg_ids(hom_iso(s[2]))): s[1] for s in segs if s[0] == "i"}
    missing = []
    zero = {}
    for i in range(10):
        zero[alg.atom(("el", kk, "im", i))] = 0
        sk = kid(("svd", vsub(at, scale(eye(10), leaf(alg.ra(alg.atom(("el", kk, "re", i))))))))
        zero[alg.atom(("el", sk, "s", 9), True, idx_of_value(at))] = 0
    for i in range(10):
        re = leaf(alg.ra(alg.atom(("el", kk, "re", i))))
        im = leaf(alg.ra(alg.atom(("el", kk, "im", i))))
        shifted = vsub(at, scale(eye(10), re))
        hit = None
        for kind in ("svd", "svdu"):
            sk = kid((kind, shifted))
            sx = idx_of_value(shifted)
            okv = svd_ok(shifted)
            v = [leaf(alg.ra(alg.atom(("el", sk, "vt", 9, j), False, sx))) for j in range(10)]
            E = Mat(3, 3, [None] * 9)
            es = {}
            for ij, p in pos.items():
                t = ZERO
                for c, vv in enumerate("xyzw"):
                    t = add(t, mul(B.at(p, c), v[where[vv]]))
                es[ij] = t
            E = Mat(3, 3, [es[(a, b)] for b in range(3) for a in range(3)])
            mine = [c for c in calls if touches(mat_of(c[0]), sk)]
            if mine:
                hit = (okv, v, E, mine, leaf(alg.ra(alg.atom(("el", sk, "s", 9), True, sx))))
                break
        name = "candidate of eigenvalue %d" % i
        if hit is None:
            missing.append(i)
            continue
        okv, v, E, mine, s9 = hit
        ctx.eq("%s: the matrix at the solution" % name, mat_of(mine[0][0]), E, sp, uf=True)
        real = band(null_ok, okv, alg.eq0(im), alg.eq0(s9))
        ctx.eq("%s: kept when the eigenvalue is real and its vector exact" % name,
               band(real, *[bnot(c[1]) for c in mine], *ok_solved(mine[0][1])), F, sp, uf=True,
               fix=zero,
               text="a real solution is dropped")
        for a, b in itertools.zip_longest(mine[0][3], (), fillvalue=None):
            g = tail.get(tuple(alg_ids(hom_iso(a))))
            if not ctx.holds("%s: its poses are returned" % name, g is not None and g is not F, "the poses of the candidate essential matrix of eigenvalue %d are not among the models returned by the estimator" % i, sp):
                break
            if not ctx.eq("%s: poses returned exactly when computed" % name, g, band(mine[0][1], is_variant(mine[0][2], 1)), sp, uf=True, fix=zero):
                return


    if 0 < len(missing) < 10:
        ctx.violate("candidates: every eigenvalue is considered", "no candidate is built from the eigenvalues at positions %s of the action matrix, while the others give one" % missing, sp)
    elif missing:
        ctx.undecided("candidates", "no candidate is built from the singular vectors of A - lambda I")


def ok_solved(pc):
    """the success variables of the decompositions the path depends on"""
    return [alg.bvar(alg.VARS[v], alg.VIDX[v]) for v in alg.bvars(pc) if alg.VARS[v][0] in ("ok", "okschur", "oklu")]


def touches(M, sk):
    for e in M.e:
        for l in alg.leaves(e):
            if isinstance(l, alg.Rat) and any(alg.ATOMS[a][0] == "el" and alg.ATOMS[a][1] == sk for a in l.n.atoms()):
                return True
    return False


def hom_iso(p):
    return iso_of(p).f


def alg_ids(ms):
    return [e.id for m_ in ms for e in m_.e]

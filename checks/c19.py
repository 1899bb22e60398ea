"""C19: eight-point."""
import random
import mpmath
from vlib import witness
from vlib.spec import *
from vlib.models import argsel
from checks.c11 import mat_of
from checks.c15 import least_eigvec

TECHNIQUE = "abstract interpretation of the compiled MIR on eight symbolic matches; the matrix handed to the eigen decomposition and the reading of its eigenvector compared with the specification"
RULE = ("normal matrix = sum over the first eight matches of s_k*w_k*w_k^T with w_k[3j+i] = b_i*a_j and s_k > 0 free of the other matches; E[i,j] = entry 3j+i (or another shared position) of the "
        "eigenvector of its least eigenvalue, so that w_k . vec(E) is a multiple of b^T E a; absent exactly when the decomposition fails")
FLOOR = 4
FM = "cv_core::matches::FeatureMatch"
FROM = "eight_point::EightPoint::from_matches"


def sym_matches(n, tag="m"):
    return [Agg(FM, [Mat(3, 1, [alg.var("%s%d.%s%s" % (tag, k, w, c)) for c in "xyz"]) for w in "ab"]) for k in range(n)]


def as_iter(items):
    return Lst([("i", T, x) for x in items], "it")


def coeffs(a, b):
    """coefficients of b^T E a, by entry (i, j) of E"""
    return {(i, j): mul(b.e[i], a.e[j]) for i in range(3) for j in range(3)}


def normal(ms, pos, s):
    N = zeros(9, 9)
    for mt in ms:
        a, b = mt.f
        w = [None] * 9
        for ij, c in coeffs(a, b).items():
            w[pos[ij]] = div(c, s(a, b)) if s else c
        N = vadd(N, Mat(9, 9, [mul(w[p], w[q]) for q in range(9) for p in range(9)]))
    return N


SCALES = [lambda a, b: mul(a.e[2], a.e[2]), lambda a, b: mul(a.e[2], b.e[2]), None, lambda a, b: a.e[2], lambda a, b: b.e[2], lambda a, b: mul(b.e[2], b.e[2])]


def in_span(ctx, N, ms, pos, tries=6):
    """do sampled values of the extracted matrix lie in the cone of the matches' own rows? ('yes' | 'no' | 'few', witness text)"""
    res = _in_span(ctx, N, ms, pos, tries, "gen", mpmath.mpf(10) ** -18)
    if res[0] != "yes":
        return res
    old = witness.EPS
    try:
        # components of very different orders of magnitude
        witness.EPS = mpmath.mpf(10) ** -90
        with mpmath.workdps(130):
            r2 = _in_span(ctx, N, ms, pos, 3 * tries, "scaled", mpmath.mpf(10) ** -80)
    finally:
        witness.EPS = old
    return r2 if r2[0] == "no" else res


def _in_span(ctx, N, ms, pos, tries, mode, tol):
    bad = None
    seen = hits = 0
    rng = random.Random(ctx.seed)
    for t in range(tries * 3):
        v = witness.Val(rng, mode)
        try:
            nv = mpmath.matrix([[v.dd(N.at(p, q)) for q in range(9)] for p in range(9)])
            ws = []
            for mt in ms:
                w = [None] * 9
                for ij, c in coeffs(*mt.f).items():
                    w[pos[ij]] = v.dd(c)
                ws.append(w)
        except (witness.Undef, ZeroDivisionError, ValueError):
            continue
        if v.uf:
            continue
        idx = [(p, q) for p in range(9) for q in range(p + 1)]
        A = mpmath.matrix([[w[p] * w[q] for w in ws] for p, q in idx])
        B = mpmath.matrix([[nv[p, q]] for p, q in idx])
        try:
            x = mpmath.lu_solve(A, B)
        except ZeroDivisionError:
            continue
        seen += 1
        scale_ = max(abs(e) for e in B) + 1
        res = max(abs(e) for e in (A * x - B)) / scale_
        asym = max(abs(nv[p, q] - nv[q, p]) for p, q in idx) / scale_
        if res > max(tol, mpmath.mpf(10) ** -40) or asym > max(tol, mpmath.mpf(10) ** -40):
            hits += 1
            bad = "it is not a combination of the eight rows (relative distance %s)" % mpmath.nstr(max(res, asym), 4)
        elif min(x) <= tol:
            hits += 1
            k = min(range(len(x)), key=lambda i: x[i])
            bad = "match %d enters with weight %s" % (k, mpmath.nstr(x[k], 4))
        if hits >= 2 or seen >= tries:
            break
    return ("no", bad) if hits >= 2 else ("yes", "") if seen >= 3 and not hits else ("few", "")


def positions(ctx, r, N):
    """which eigenvector entry each entry of the returned matrix is, read off the result; (ok, {(i,j): position})"""
    pos = {(i, j): 3 * j + i for i in range(3) for j in range(3)}
    E = mat_of(unref(r.value).payd()[1][0])
    for mag in (True, False):
        ok, v = least_eigvec(r.ip, N, mag)
        got = {}
        for i in range(3):
            for j in range(3):
                for p in range(9):
                    if alg.same(E.at(i, j), v.e[p]):
                        got[(i, j)] = p
        if got:
            break
    if len(got) == 9 and len(set(got.values())) == 9:
        return ok, v, E, got
    return ok, v, E, None


def atoms_in(n):
    return set().union(*[p.atoms() for l in alg.leaves(n) if isinstance(l, alg.Rat) for p in [l.n] + [f for f, _ in l.d]])


BEARINGS = [(1, 2, 2, 3), (2, 3, 6, 7), (1, 4, 8, 9), (4, 4, 7, 9), (2, 6, 9, 11), (6, 6, 7, 11), (3, 4, 12, 13), (2, 5, 14, 15), (2, 10, 11, 15), (1, 12, 12, 17), (8, 9, 12, 17), (1, 6, 18, 19), (6, 6, 17, 19),
            (6, 10, 15, 19), (4, 5, 20, 21), (4, 8, 19, 21)]


def apart(ctx, what, cases, make):
    """one match free, the others known: for code that decides about each match separately"""
    for k in cases:
        nm = "8 matches, all but number %d known%s" % (k, what)
        with ctx.part(nm):
            ms = [Agg(FM, [vec(*[num(alg.Fraction(c, q[3])) for c in q[:3]]) for q in (BEARINGS[2 * i], BEARINGS[2 * i + 1])]) for i in range(8)]
            ms[k] = make(sym_matches(8)[k])
            r = ctx.run("eight_point", FROM, over={1: as_iter(ms)})
            if not r:
                continue
            sp = r.root["span"]
            ev = [e for e in r.ip.events if e["kind"] == "solver"]
            if len(ev) != 1 or ev[0]["what"] != "symmetric_eigen" or (ev[0]["m"].r, ev[0]["m"].c) != (9, 9):
                ctx.undecided(nm, "no single symmetric eigen decomposition of a 9x9 matrix")
                continue
            name = "%s: normal matrix of the eight epipolar equations" % nm
            pos = positions(ctx, r, ev[0]["m"])[3]
            if pos is None:
                ctx.undecided(name, "the result is not written in eigenvector entries")
                continue
            if any(ctx.same(ev[0]["m"], normal(ms, pos, s)) for s in SCALES):
                ctx.ok(name)
                continue
            res, why = in_span(ctx, ev[0]["m"], ms, pos)
            if res == "no":
                ctx.violate(name, "%s: the matrix decomposed by %s is not built from one epipolar equation per match: %s" % (sp.split(":")[0], FROM, why), sp)
            else:
                ctx.undecided(name, "rows scaled in an unforeseen way; sampled values agree" if res == "yes" else "not enough valuations")


def check(ctx):
    ctx.anchor("eight_point", FROM)
    for n in (8, 9):
        nm = "%d matches" % n
        with ctx.part(nm):
            ms = sym_matches(n)
            ip = ctx.interp("eight_point")
            r = ctx.run("eight_point", FROM, over={1: as_iter(ms)}, ip=ip, quiet=n == 8)
            if not r:
                if n == 8:
                    apart(ctx, "", range(8), lambda m_: m_)
                continue
            sp = r.root["span"]
            ev = [e for e in ip.events if e["kind"] == "solver"]
            if len(ev) != 1 or ev[0]["what"] != "symmetric_eigen" or (ev[0]["m"].r, ev[0]["m"].c) != (9, 9):
                ctx.undecided(nm, "no single symmetric eigen decomposition of a 9x9 matrix")
                continue
            N = ev[0]["m"]
            ctx.eq("%s: absent exactly when the decomposition fails" % nm, is_variant(unref(r.value), 1), least_eigvec(ip, N)[0], sp)
            ok, v, E, pos = positions(ctx, r, N)
            std = {(i, j): 3 * j + i for i in range(3) for j in range(3)}
            if pos is None:
                ctx.eq("%s: the matrix holds the eigenvector of the least eigenvalue" % nm, E, Mat(3, 3, v.e), sp, under=ok)
                pos = std
            else:
                ctx.ok("%s: the matrix holds the eigenvector of the least eigenvalue" % nm)
            name = "%s: normal matrix of the first eight epipolar equations" % nm
            if any(ctx.same(N, normal(ms[:8], pos, s)) for s in SCALES):
                ctx.ok(name)
                continue
            res, why = in_span(ctx, N, ms[:8], pos)
            if res == "no":
                ctx.violate(name, "%s: the matrix decomposed by %s is not built from one epipolar equation per match in the entry positions the result is read from: %s" % (
                    sp.split(":")[0], FROM, why), sp)
            else:
                ctx.undecided(name, "rows scaled in an unforeseen way; sampled values agree" if res == "yes" else "not enough valuations")
    apart(ctx, " and that one with equal bearings", (0, 7), lambda m_: Agg(FM, [m_.f[0], m_.f[0]]))
    apart(ctx, " and that one with opposite bearings", (3,), lambda m_: Agg(FM, [m_.f[0], vneg(m_.f[0])]))
    for q, tiny, vals in least_cases(9):
        nm = "null direction in place %d with eigenvalue %s" % (q, near(tiny))
        with ctx.part(nm):
            hooks, okv, vecs = known_eigen(9, vals)
            r = ctx.run("eight_point", FROM, over={1: as_iter(sym_matches(8))}, hooks=hooks)
            o = unref(r.value) if r else None
            if o is None or is_variant(o, 1) is F:
                continue
            ins = set().union(*[atoms_in(x) for x in mat_of(o.payd()[1][0]).e]) & set().union(*[atoms_in(x) for x in vecs.e])
            if not ins:
                ctx.undecided("%s: it is the one chosen" % nm, "the returned matrix is not written in eigenvector entries")
                continue
            want = set().union(*[atoms_in(vecs.at(i, q)) for i in range(9)])
            ctx.holds("%s: it is the one chosen" % nm, ins == want, "%s: the returned matrix is not made of the eigenvector of the eigenvalue %g among %s" % (r.root["span"].split(":")[0], tiny, vals), r.root["span"])

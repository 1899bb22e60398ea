"""C12: essential decomposition."""
import itertools
from vlib.spec import *
from checks.c11 import EM, mat_of

TECHNIQUE = "abstract interpretation of the compiled MIR into algebraic normal forms over an opaque sorted SVD, compared with the specification"
RULE = ("R_a = U W V^T, R_b = U W^T V^T, t = U[:,2], with U (V^T) having its last column (row) negated exactly when its determinant is negative; candidate lists are all "
        "combinations; None exactly when the SVD fails; recondition = U diag(m,m,0) V^T with m the mean of the two largest singular values")
FLOOR = 5
P = EM + "::"


def svd_of(E, kind="svd"):
    k = kid((kind, E))
    ix = idx_of_value(E)
    U = Mat(3, 3, [leaf(alg.ra(alg.atom(("el", k, "u", i, j), False, ix))) for j in range(3) for i in range(3)])
    Vt = Mat(3, 3, [leaf(alg.ra(alg.atom(("el", k, "vt", i, j), False, ix))) for j in range(3) for i in range(3)])
    S = [leaf(alg.ra(alg.atom(("el", k, "s", i), True, ix))) for i in range(3)]
    return svd_ok(E), U, S, Vt


def flip_col(U, c):
    return Mat(3, 3, [ite(c, neg(U.at(i, j)), U.at(i, j)) if j == 2 else U.at(i, j) for j in range(3) for i in range(3)])


def flip_row(V, c):
    return Mat(3, 3, [ite(c, neg(V.at(i, j)), V.at(i, j)) if i == 2 else V.at(i, j) for j in range(3) for i in range(3)])


W = rows([ZERO, num(-1), ZERO], [ONE, ZERO, ZERO], [ZERO, ZERO, ONE])


def spec(E):
    ok, U, S, Vt = svd_of(E)
    U, Vt = flip_col(U, alg.lt0(det(U))), flip_row(Vt, alg.lt0(det(Vt)))
    return ok, matmul(matmul(U, W), Vt), matmul(matmul(U, transpose(W)), Vt), Mat(3, 1, U.e[6:])


def none_iff_failed(ctx, name, r, ok):
    ctx.eq("%s is absent exactly when the decomposition fails" % name, is_variant(unref(r.value), 1), ok, r.root["span"])


def check(ctx):
    with ctx.part("rotations and translation"):
        r = ctx.run("cv_pinhole", P + "possible_rotations_unscaled_translation")
        if r:
            ok, Ra, Rb, t = spec(mat_of(r.args[0]))
            none_iff_failed(ctx, "decomposition", r, ok)
            ra, rb, tt = unref(r.value).payd()[1][0].f
            ctx.eq("first rotation", ra, Ra, r.root["span"])
            ctx.eq("second rotation", rb, Rb, r.root["span"])
            ctx.eq("translation", tt, t, r.root["span"])
    for n in ("possible_rotations", "possible_unscaled_poses", "possible_unscaled_poses_bearing"):
        with ctx.part(n):
            r = ctx.run("cv_pinhole", P + n)
            if not r:
                continue
            ok, Ra, Rb, t = spec(mat_of(r.args[0]))
            none_iff_failed(ctx, n, r, ok)
            got = unref(r.value).payd()[1][0].items()
            if n == "possible_rotations":
                want = [Ra, Rb]
            else:
                want = [Agg("iso", [R, s]) for s in ([t, vneg(t)] if n == "possible_unscaled_poses" else [t]) for R in (Ra, Rb)]
                got = [iso_of(g) for g in got]
            if not ctx.holds("%s has %d candidates" % (n, len(want)), len(got) == len(want), "%s returns %d candidates instead of %d" % (n, len(got), len(want)), r.root["span"]):
                continue
            # in any order
            best = None
            for pm in itertools.permutations(range(len(want))):
                k = sum(ctx.same(g, want[i]) for g, i in zip(got, pm))
                if best is None or k > best[0]:
                    best = (k, pm)
            for i, (g, j) in enumerate(zip(got, best[1])):
                ctx.eq("%s candidate %d" % (n, i), g, want[j], r.root["span"])
    with ctx.part("recondition"):
        r = ctx.run("cv_pinhole", P + "recondition")
        if r:
            ok, U, S, Vt = svd_of(mat_of(r.args[0]))
            mm = div(add(S[0], S[1]), num(2))
            D = rows([mm, ZERO, ZERO], [ZERO, mm, ZERO], [ZERO, ZERO, ZERO])
            none_iff_failed(ctx, "recondition", r, ok)
            ctx.eq("recondition", mat_of(unref(r.value).payd()[1][0]), matmul(matmul(U, D), Vt), r.root["span"])

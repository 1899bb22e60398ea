"""C24: optimisation rounds without any data."""
from vlib.spec import *
from checks.c23 import Rounds, single_names, three_names, S1, S2, T1, T2, T3, SE3, W2C, C2C, WPG, TVG, landmark, triple, tr, isos

TECHNIQUE = "abstract interpretation of the compiled MIR over formulas with an explicit not-a-number value, on the degenerate cases of the landmark set"
RULE = ("when every landmark is at infinity, or every gradient is zero (with zero tolerance too), the update of a round is the zero tangent (never NaN) or no update is made, and the poses come back as they were; where only the rotation (or only the translation) gradients are zero, that part of the update is zero")
FLOOR = 6


def zero(v, pc):
    return all(alg.same(e, ZERO, pc) for e in v.e)


class Idle(Rounds):
    """updates by a zero tangent are the identity; gradients are zero"""

    def __init__(self, inf=(), live=None):
        Rounds.__init__(self, True, inf)
        z = lambda k, v: Agg(SE3, [vec(*(alg.var("g%d.%d.%s%s" % (k, v, part, x)) for x in "xyz")) if part == live else zeros(3, 1) for part in ("t", "r")])
        self.hooks[WPG] = self.mk(self.grad, lambda k: z(k, 0))
        self.hooks[TVG] = self.mk(self.grad, lambda k: arr([z(k, 0), z(k, 1)]))
        self.live = live
        del self.hooks[SE3 + "::l1"]
        rec = self.hooks[SE3 + "::isometry"]

        def iso(ip, st, f, args, fr, t):
            v = rec(ip, st, f, args, fr, t)
            d = unref(ip.strip(st, args[0]))
            if all(isinstance(x, Mat) and zero(x, st.pc) for x in d.f):
                v = Agg("iso", [eye(3), zeros(3, 1)])
            return v
        self.hooks[SE3 + "::isometry"] = iso


def case(ctx, w, path, R, ov, sp, ip=None):
    with ctx.part(w):
        r = ctx.run("cv_optimize", path, over=ov, hooks=None if ip else R.hooks, ip=ip)
        if not r:
            return
        for k, ((d,), pc, v) in enumerate(R.exp):
            for nm, x in zip(("translation", "rotation"), tr(ctx, d)):
                if nm[0] == R.live:
                    continue
                ctx.eq("%s: %s of update %d" % (w, nm, k), x, zeros(3, 1), sp, under=pc, uf=True,
                       text="an update made of no data is not the zero tangent")
        if R.live:
            return
        got, want = isos_of(r, r.value), isos_of(r, r.args[0])
        for c, (a, b) in enumerate(zip(got, want)):
            ctx.eq("%s: pose %d comes back" % (w, c), a, b, sp, uf=True)
        ctx.eq("%s: no panic" % w, r.pc, T, sp, uf=True)


def isos_of(r, v):
    v = unref(v)
    return isos(r, v) if isinstance(v, Lst) else [iso_of(v)]


def check(ctx):
    alg.IEEE[0] = True
    for path in (S1, S2):
        root = ctx.anchor("cv_optimize", path)
        if root is None:
            continue
        nm = path.split("_")[-1].upper() + " single view"
        at = {k: i for i, k in enumerate(single_names(path))}
        for n, its in ((1, 1), (2, 1), (1, 2)):
            for what, inf, eps in (("all landmarks at infinity", range(100), None), ("all gradients zero", (), None), ("all gradients zero, no tolerance", (), ZERO)):
                if eps is not None and "eps" not in at:
                    continue
                R = Idle(inf)
                ov = {0: Agg(W2C, [Agg("iso", [cayley("P.q"), vec(alg.var("P.d", True), ZERO, ZERO)])]), at["rate"]: alg.var("rate"), at["its"]: num(its), at["lms"]: Ref(arr([landmark(k)[0] for k in range(n)]))}
                if "eps" in at:
                    ov[at["eps"]] = eps if eps is not None else add(ONE, alg.var("eps", True))
                case(ctx, "%s, %d landmarks, %d rounds, %s" % (nm, n, its, what), path, R, ov, root["span"])
            if its == 1:
                for live, what in (("t", "no rotation gradient"), ("r", "no translation gradient")):
                    R = Idle((), live)
                    ov = {0: Agg(W2C, [Agg("iso", [cayley("P.q"), vec(alg.var("P.d", True), ZERO, ZERO)])]), at["rate"]: alg.var("rate"), at["its"]: num(its), at["lms"]: Ref(arr([landmark(k)[0] for k in range(n)]))}
                    if "eps" in at:
                        ov[at["eps"]] = add(ONE, alg.var("eps", True))
                    case(ctx, "%s, %d landmarks, %s" % (nm, n, what), path, R, ov, root["span"])
    for path, kind in ((T1, "L1"), (T2, "L2"), (T3, "adaptive")):
        root = ctx.anchor("cv_optimize", path)
        if root is None:
            continue
        at = {k: i for i, k in enumerate(three_names(path))}
        for n, its in ((1, 1), (2, 1), (1, 2)):
            for what, eps in (("all gradients zero", None), ("all gradients zero, no tolerance", ZERO)):
                if eps is not None and "eps" not in at:
                    continue
                R = Idle()
                ov = {0: arr([Agg(C2C, [Agg("iso", [cayley("P%d.q" % k), vec(alg.var("P%d.d" % k, True), ZERO, ZERO)])]) for k in range(2)]),
                      at["its"]: num(its), at["lms"]: Ref(arr([triple(k)[0] for k in range(n)]))}
                if "rate" in at:
                    ov[at["rate"]] = alg.var("rate")
                if "eps" in at:
                    ov[at["eps"]] = eps if eps is not None else add(ONE, alg.var("eps", True))
                case(ctx, "%s three-view, %d landmarks, %d rounds, %s" % (kind, n, its, what), path, R, ov, root["span"])
            if its == 1:
                for live, what in (("t", "no rotation gradient"), ("r", "no translation gradient")):
                    R = Idle((), live)
                    ov = {0: arr([Agg(C2C, [Agg("iso", [cayley("P%d.q" % k), vec(alg.var("P%d.d" % k, True), ZERO, ZERO)])]) for k in range(2)]),
                          at["its"]: num(its), at["lms"]: Ref(arr([triple(k)[0] for k in range(n)]))}
                    if "rate" in at:
                        ov[at["rate"]] = alg.var("rate")
                    if "eps" in at:
                        ov[at["eps"]] = add(ONE, alg.var("eps", True))
                    case(ctx, "%s three-view, %d landmarks, %s" % (kind, n, what), path, R, ov, root["span"])

"""./check <property> [--thorough]: decide one property on /repo's current tree."""
import importlib
import os
import sys
import traceback


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.setrecursionlimit(20000)
    from .ctx import Ctx
    from .dump import BuildError
    mod = importlib.import_module("checks.%s" % prop.lower())
    try:
        ctx = Ctx(prop, tier, seed)
    except BuildError as e:
        print(e)
        print("check could not build the tree")
        sys.exit(2)
    import threading

    def too_long():
        # the analysis ran out of its budget: what was decided so far is reported, the rest is undecided
        ctx.broken = True
        ctx.undecided("remaining obligations", "time budget of the check")
        rc = 0
        try:
            rc = ctx.finish(mod.TECHNIQUE, mod.RULE, getattr(mod, "FLOOR", 1), getattr(mod, "TRUSTED", ()))
        finally:
            sys.stdout.flush()
            os._exit(rc)
    dog = threading.Timer(float(os.environ.get("VERIF_BUDGET", "700")), too_long)
    dog.daemon = True
    dog.start()
    with ctx.part("whole check"):
        mod.check(ctx)
    dog.cancel()
    sys.exit(ctx.finish(mod.TECHNIQUE, mod.RULE, getattr(mod, "FLOOR", 1), getattr(mod, "TRUSTED", ())))


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""run.py <property> [--thorough]   decide one property on /repo's working tree
   exit 0 held, 1 violated (VIOLATION line), anything else: could not decide"""
import importlib, os, sys, time, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import build, vlib


def main():
    pid = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid.lower())
    ctx = vlib.Ctx(pid, tier, seed, "")
    try:
        build.build(getattr(mod, "TARGETS", []))
        if "--build-only" in sys.argv:
            return 0
        if "--replay" in sys.argv:
            import json
            vs = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
            for v in vs:
                if v.get("harness") and v.get("spec"):
                    ctx.conform(v["harness"], v["spec"], [v["case"]])
        else:
            mod.run(ctx)
        return ctx.finish()
    except (vlib.Infra, build.BuildError) as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == "__main__":
    sys.exit(main())

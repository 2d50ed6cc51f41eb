"""check.py --property Cxx [--tier quick|thorough]   run one check
check.py --replay FILE                           re-run a recorded violation"""
import argparse
import importlib
import os
import sys
import time

T0 = time.monotonic()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", type=int, help="run just this case index and print it")
    ap.add_argument("--cases", type=int, help="how many cases instead of the tier's number")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    from dst import engine, env, faults, job

    def load(prop):
        return importlib.import_module("dst.props." + prop.lower())

    try:
        prop = a.property
        if a.replay:
            import json

            with open(a.replay) as f:
                prop = json.load(f)["property"]
        mod = load(prop)
        if getattr(mod, "SHIM", False):
            faults.ensure_preloaded()
        real = time.monotonic
        job.preload(getattr(mod, "PACKAGES", 6))
        if hasattr(mod, "prepare"):
            mod.prepare()
        if a.replay:
            return engine.run_replay(a.replay, load)
        if a.case is not None:
            import json

            pool = engine.Pool(mod, 1)
            r = pool.one(engine.make_case(mod, a.seed, prop, a.case, tier))
            pool.close()
            r["decisions"] = len(r["decisions"])
            r["trace"] = len(r["trace"])
            print(json.dumps(r, indent=1, default=repr))
            return 0
        if a.cases:
            mod.CASES = {tier: a.cases}
        return engine.run_check(prop, mod, tier, a.seed, lambda: real() - T0)
    except env.HarnessError as e:
        print(f"harness error: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

"""python3 -m hlsim.check <property> [--tier quick|thorough] [--replay FILE] [--index N]"""
import argparse
import os
import sys

from . import build, runner


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int)
    a = ap.parse_args()
    from . import props
    prop = props.get(a.property)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        if a.replay:
            return runner.replay(prop, a.replay)
        if a.index is not None:
            import json
            plan = runner.plan_for(prop, seed, a.tier, a.index)
            ctx = runner.Ctx(runner.make_paths(prop.worlds))
            v = prop.evaluate(plan, ctx)
            ctx.close()
            print(v.viol, v.known, v.nt, dict(v.facts), v.digest())
            return 0
        return runner.campaign(prop, a.tier, seed)
    except (build.BuildError, runner.HarnessError) as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())

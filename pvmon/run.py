"""python -m pvmon.run PROP [--tier quick|thorough] [--seed N] [--replay FILE] [--case IDX KIND]"""

import argparse
import importlib
import json
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", nargs=2)
    a = ap.parse_args()
    from . import env

    env.setup()
    from . import core, hooks

    hooks.install()
    mod = importlib.import_module("pvmon.props." + a.prop.lower())
    only = None
    if a.replay:
        r = json.load(open(a.replay))
        a.tier, a.seed, only = r["tier"], r["seed"], (r["idx"], r["kind"])
    elif a.case:
        only = (int(a.case[0]), a.case[1])
    return core.run(mod, a.prop, a.tier, a.seed, only)


if __name__ == "__main__":
    sys.exit(main())

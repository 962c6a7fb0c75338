#!/usr/bin/env python3
"""Static checks of the properties: python3 /verif/check.py <ID> [--tier T]"""

import argparse
import importlib
import os
import sys
import time
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    # same order of the sets for all runs
    os.execve(sys.executable, [sys.executable] + sys.argv,
              dict(os.environ, PYTHONHASHSEED="0"))

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from vsa.framework import Ctx, guarded  # noqa: E402
from vsa.project import AnalysisBroken, Project  # noqa: E402


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("prop")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    args = parser.parse_args()
    ids = args.prop.split(",")
    from vsa import interp, rules

    if args.tier == "thorough":
        # more paths are followed separately before they are merged
        interp.SCALE = 4

    if args.prop == "all":
        ids = sorted(rules.RULES)
    worst = 0
    project = None
    for pid in ids:
        t0 = time.time()
        try:
            ctx = Ctx(pid, args.tier, project)
            project = ctx.p
        except AnalysisBroken as err:
            print("ANALYSIS BROKEN:", err, file=sys.stderr)
            return 2
        for func in rules.RULES[pid]:
            guarded(ctx, func)
        rc = ctx.finish(t0, int(os.environ.get("VERIF_SEED", "0") or 0))
        worst = 1 if rc == 1 or worst == 1 else max(worst, rc)
    return worst


if __name__ == "__main__":
    sys.exit(main())

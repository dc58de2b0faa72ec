#!/usr/bin/env python3-vt
"""run.py C01 [--tier quick|thorough] [--replay FILE]"""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def find(pid):
    for n in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if n.startswith(pid.lower() + "_") and n.endswith(".py"):
            return importlib.import_module("checks." + n[:-3])
    raise SystemExit("no check for " + pid)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    args = ap.parse_args()
    from vp import env, runner  # noqa: F401  (env first: sets sys.path)
    mod = find(args.property)
    if args.replay:
        return runner.run_replay(mod, args.replay)
    return runner.run_check(mod, args.tier, int(os.environ.get("VERIF_SEED") or "1"))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:  # noqa: B902  exit 2: not a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)

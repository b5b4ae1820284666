#!/usr/bin/env python3
"""Run one check:  python3 run.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--repo DIR]

Builds the code under test from /repo's working tree together with the property's harness, executes the workload
(several processes side by side), reads what the monitors and sanitizers reported, and writes evidence/<id>.json.
Exit 0: nothing violated the property. Exit 1: VIOLATION line(s). Exit 2: the check itself could not run."""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import core, checks


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true", help="keep the scratch directory")
    a = ap.parse_args()
    if a.prop == "setup":
        return checks.setup()
    if a.prop not in checks.CHECKS:
        print("unknown property", a.prop)
        return 2
    return core.run_check(a.prop, checks.CHECKS[a.prop], a.tier if a.tier in ("quick", "thorough") else "quick", a.seed, a.replay, a.keep)


if __name__ == "__main__":
    sys.exit(main())

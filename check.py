#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import driver  # noqa: E402
import registry  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only units whose name contains this")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    chk = registry.get(a.property)
    if a.only:
        chk.units = [u for u in chk.units if a.only in u.name]
    try:
        if a.replay:
            return driver.replay_file(chk, a.replay)
        return driver.Runner(chk, tier, a.seed, 420 if tier == "quick" else 3000).run()
    except driver.BuildError as e:
        print("ERROR: the harness does not build against /repo's working tree:\n%s" % e, flush=True)
        return 2


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property from /repo's current source."""
import argparse
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="+")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import checks
    from sa.project import AnalysisError
    from sa.report import REGISTRY, execute
    checks.load_all()
    rc = 0
    pids = sorted(REGISTRY) if a.property == ["all"] else a.property
    for pid in pids:
        try:
            rc = max(rc, execute(pid, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
        except AnalysisError as e:
            print(f"ANALYSIS-ERROR property={pid} {e}")
            rc = 2
        except Exception:
            traceback.print_exc()
            print(f"ANALYSIS-ERROR property={pid} internal error")
            rc = 2
    return rc


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = vlib.Check(pid, tier, seed)
    try:
        import checks
        fn = checks.CHECKS[pid]
        fn(c)
        sys.exit(c.finish())
    except vlib.HarnessBuildError as e:
        print("harness build failed:", e)
        sys.exit(3)
    except vlib.MachineryError as e:
        print("machinery error:", e)
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(3)


main()

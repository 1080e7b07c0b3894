#!/usr/bin/env python3
"""python3 vf/check.py <property id> [quick|thorough]"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.chdir(common.ROOT)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    c = common.Check(pid, tier)
    try:
        floor = mod.run(c) or 1
        return c.finish(floor)
    except common.BuildFailure as e:
        print(f"inconclusive: {e}")
        return 2
    except common.Inconclusive as e:
        if c.violations:
            print(f"(stopped early: {e})")
            return c.finish(0)
        print(f"inconclusive: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        if c.violations:
            return c.finish(0)
        print("inconclusive: the check itself failed")
        return 2


if __name__ == "__main__":
    sys.exit(main())

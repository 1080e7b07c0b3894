"""Builds the harness dependencies (and diman, from /repo) in every configuration the checks use."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402

USED = [("std", False), ("rat", False), ("min", False), ("minrat", False), ("full", False), ("fullrat", False), ("full", True),
        ("fullrat", True), ("nostd", False), ("libm", False), ("libmrat", False), ("f32only", False), ("f64only", False), ("nosi", False),
        ("all", False)]


def main():
    for cfg, asan in USED:
        try:
            common.deps(cfg, asan)
            print(f"built {cfg}{' asan' if asan else ''}", flush=True)
        except (common.BuildFailure, common.Inconclusive) as e:
            # A check that needs it reports it.
            print(f"did not build {cfg}: {e}", flush=True)
    return 0


if __name__ == "__main__":
    sys.exit(main())

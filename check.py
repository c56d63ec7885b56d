#!/usr/bin/env python3
"""check.py <ID> [quick|thorough]: decides one property for /repo's current working tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "pylib"), os.path.join(HERE, "checks")]
import vt, build


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ck = vt.Check(pid, tier)
    try:
        importlib.import_module(pid.lower()).run(ck)
    except build.BuildError as e:
        print(f"{pid}: the tree does not build\n{e}")
        return 2
    except vt.ModelError as e:
        print(f"{pid}: machinery failure\n{e}")
        return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""run.py <ID> [quick|thorough]   run the check of a property
run.py --replay FILE           re-run a recorded failure (exit 1 if it fails again)
run.py --build                 build the common variants"""
import os, sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, os.path.join(VERIF, "lib"))


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    import harness
    if a[0] == "--shard":
        harness.shard_main(a[1], a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
        return 0
    if a[0] in ("--replay", "--replay-once"):
        m = harness.replay_once(a[1])
        if m:
            print(m)
            return 1
        return 0
    if a[0] == "--build":
        import build
        for v in ("plain", "asan", "scan"):
            print(build.server(v))
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return harness.main(a[0], tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)

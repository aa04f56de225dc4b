#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run a check;   check.py --setup   build;   check.py --replay <file>   judge one recorded case"""

import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    from lib import harness, judge
    from lib.props import CHECKS

    if sys.argv[1] == "--setup":
        harness.bins_for(True)
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            data = json.load(f)
        asan = any(r.get("tool", "").endswith("_asan") for r in data["case"]["runs"])
        root = judge.scratch_root()
        try:
            msgs = harness.replay_case(data["case"], harness.bins_for(asan), asan, root)
        finally:
            import shutil

            shutil.rmtree(root, ignore_errors=True)
        print("\n".join(m or "as expected" for m in msgs))
        return 1 if all(msgs) else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return harness.run_check(CHECKS[sys.argv[1]], tier)


if __name__ == "__main__":
    sys.exit(main())

#!/usr/bin/env python3
"""check.py PROPERTY: decides one property of /repo (see DESIGN.md).

exit 0: held on everything explored; exit 1: VIOLATION; exit 2: the check could not run.
check.py PROPERTY --replay FILE: replays one recorded scenario.
"""
import json
import os
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import checks  # noqa: E402
import engine  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    work = tempfile.mkdtemp(prefix="ledger-verif-")
    start = time.time()
    try:
        code = checks.run(prop, tier, seed, work, start, replay)
    except engine.Broken as e:
        print(f"BROKEN property={prop}: {e}", file=sys.stderr)
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)

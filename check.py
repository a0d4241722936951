#!/usr/bin/env python3
"""python3 check.py ID [--replay FILE]: decides one property (see DESIGN.md)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vp
from checks import CHECKS


def main():
    pid = sys.argv[1]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    try:
        return vp.Check(pid, CHECKS[pid]).run(replay)
    except vp.ToolError as e:
        print(f"ERROR property={pid}: {e}", flush=True)
        return 2


sys.exit(main())

#!/usr/bin/env python3
"""check.py ID: decide property ID (see DESIGN.md).  check.py replay FILE: execute the scenario of a violation again."""
import json, os, subprocess, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
from vlib import *
import checks


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return checks.replay_file(sys.argv[2])
    pid = sys.argv[1]
    c = Check(pid)
    try:
        getattr(checks, pid)(c)
        return c.finish()
    except ToolError as e:
        if c.violations:
            log("after a violation, the check went wrong: %s" % e)
            return c.finish()
        print("ERROR: %s" % e)
        return 2
    except Exception:
        if c.violations:
            traceback.print_exc()
            return c.finish()
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())

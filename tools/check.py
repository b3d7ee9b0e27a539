#!/usr/bin/env python3
"""check.py Pxx: runs one property's check. Exit 0 held, 1 violation, 2 the check could not work."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    chk = vlib.Check(pid)
    try:
        importlib.import_module(pid.lower()).run(chk)
        return chk.finish()
    except vlib.ToolError as e:
        print("TOOL ERROR: %s" % e, flush=True)
        # what was already observed against the real code still counts
        if chk.violations:
            return chk.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())

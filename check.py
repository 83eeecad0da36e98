#!/usr/bin/env python3
"""check.py <property> quick|thorough      decide a property on /repo's working tree
check.py replay <file> [--no-build]     execute a replay file"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
try:
    import numpy
except ImportError:
    os.execv("/opt/veriftools/pyvenv/bin/python3", ["python3"] + sys.argv)
import core
if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(core.run_replay(sys.argv[2], "--no-build" in sys.argv))
    if len(sys.argv) != 3 or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__)
        sys.exit(2)
    core.run_check(sys.argv[1], sys.argv[2])

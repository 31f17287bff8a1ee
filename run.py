#!/usr/bin/env python3
"""run.py PROPERTY [--replay FILE]: decides a property on /repo's working tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import checks
from vlib.common import CheckError

if __name__ == "__main__":
    try:
        sys.exit(checks.main(sys.argv[1:]))
    except CheckError as e:
        print("ERROR " + str(e))
        sys.exit(3)

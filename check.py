#!/usr/bin/env python3
"""check.py ID [quick|thorough] [--seed N] [--replay FILE]"""
import importlib, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")

from lib import harness

if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__, file=sys.stderr)
        sys.exit(2)
    sys.exit(harness.main(importlib.import_module("checks." + sys.argv[1].lower()), sys.argv[2:]))

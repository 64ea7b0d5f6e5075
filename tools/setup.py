#!/usr/bin/env python3
"""Looks for the tools the checks need and tries the reference model once."""
import os, shutil, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from model import refasm
from tools import published

missing = [t for t in ("gcc", "clang", "make", "python3") if not shutil.which(t)]
if missing:
    print("missing: " + " ".join(missing), file=sys.stderr)
    sys.exit(1)
n, wrong = published.differences()
assert n > 1000 and not wrong, wrong
r = refasm.assemble({"main.asm": "\tprocessor 6502\n\torg $1000\n\tlda #1\n"})
assert r.code == 0 and r.image == bytes.fromhex("0010a901"), r.image

#!/usr/bin/env python3
"""Checks that the toolchain is there, and that the simulator compiles. Every check builds everything it needs itself."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = tempfile.mkdtemp()
try:
    for f in ("sim", "driver"):
        if subprocess.call(["clang++", "-std=c++17", "-w", "-fsyntax-only", VERIF + "/sim/" + f + ".cc"]) != 0:
            sys.exit(2)
finally:
    shutil.rmtree(d)

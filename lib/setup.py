#!/usr/bin/env python3
"""Builds the harness once, so that a missing tool shows early."""
import os
import subprocess
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

c = vlib.Check("setup", [])
try:
    progs = [d for d in sorted(os.listdir(os.path.join(vlib.VERIF, "harness")))
             if os.path.exists(os.path.join(vlib.VERIF, "harness", d, "main.go"))]
    c.build(*progs)
    subprocess.run(["java", "-version"], check=True, capture_output=True)
    print("built", " ".join(progs))
finally:
    c.cleanup()

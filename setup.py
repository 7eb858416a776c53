#!/usr/bin/env python3
"""Prepares the build directory: compiles the library and every driver once (checks rebuild whatever changed)."""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
import checks
bad = 0
for i in sorted(checks.CHECKS):
    r = subprocess.call([sys.executable, os.path.join(H, "run_check.py"), i, "--build-only"])
    print(i, "built" if r == 0 else "build failed (%d)" % r); bad |= r
sys.exit(1 if bad else 0)

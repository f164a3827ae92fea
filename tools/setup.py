#!/usr/bin/env python3
"""Checks that the tools are there; the checks build what they need themselves."""
import os, shutil, subprocess, sys
for t in ("g++", "tlc", "java"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
subprocess.run([sys.executable, "-m", "compileall", "-q", os.path.join(V, "checks"), os.path.join(V, "vlib")])

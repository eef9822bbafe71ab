#!/usr/bin/env python3
"""Checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
bad = 0
for m in sorted(glob.glob(os.path.join(SPEC, "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", m], capture_output=True, text=True, cwd=SPEC)
    if p.returncode or "*** Errors" in p.stdout:
        print(m, p.stdout[-1500:])
        bad = 1
for t in ("g++", "clang++", "java"):
    if subprocess.run([t, "--version"], capture_output=True).returncode:
        print("missing", t)
        bad = 1
sys.exit(bad)

#!/usr/bin/env python3
"""Sanity check of the toolchain; the checks build everything they need themselves."""
import os
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt  # noqa: E402
r = vt.tlc("MC_Exp", args=("-deadlock",))
print("TLC:", "ok" if r.ok else r.out)
print(subprocess.run(["g++", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
sys.exit(0 if r.ok else 1)

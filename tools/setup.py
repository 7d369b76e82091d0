#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys
for t in ("clang++-18", "ninja", "ld"):
    if not shutil.which(t): sys.exit("missing: " + t)
print("ok")

#!/usr/bin/env python3
"""Sanity of the toolchain; every check builds what it needs itself."""
import shutil
import sys
for t in ("java", "g++"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
print("ok")

#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs. Verifies that the toolchain is usable."""
import shutil, subprocess, sys
for t in ("clang", "clang++", "gcc", "python3"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
subprocess.check_call(["clang", "--version"], stdout=subprocess.DEVNULL)
print("toolchain ok")

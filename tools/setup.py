#!/usr/bin/env python3-vt
"""Checks that the tools the checks rely on are there; builds nothing that a
check could not build for itself from the current tree."""
import shutil
import subprocess
import sys

missing = [t for t in ("g++", "clang++", "cmake", "ninja", "valgrind")
           if not shutil.which(t)]
import numpy  # noqa: F401
if missing:
    print("missing: " + " ".join(missing))
    sys.exit(1)
src = "int main(){int *p=new int(1);int r=*p-1;delete p;return r;}"
for cxx in ("g++", "clang++"):
    subprocess.run([cxx, "-x", "c++", "-", "-fsanitize=address,undefined",
                    "-o", "/dev/null"], input=src, text=True, check=True)
print("tools are present")

#!/usr/bin/env python3
"""Nothing has to be prepared: every check builds what it needs from /repo. Check that the tools are there."""
import shutil
import sys

missing = [t for t in ("g++", "clang++", "ninja") if not shutil.which(t)]
if missing:
    print("missing:", missing)
    sys.exit(1)
print("ok")

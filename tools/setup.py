#!/usr/bin/env python3
"""Checks that what the machinery needs is installed; checks build by themselves."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import buildlib
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
missing += [p for p in [buildlib.LIBS[0]] if not os.path.exists(p)]
if missing:
    print("missing:", missing)
    sys.exit(1)
buildlib.prepare()
print("ready")

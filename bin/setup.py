#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys
missing = [t for t in ("g++", "gcc", "ld", "openssl") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ok")
sys.exit(1 if missing else 0)

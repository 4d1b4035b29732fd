#!/usr/bin/env python3
"""fixed.py <property> : append the last /repo commit to known-findings.txt as a fixed entry."""
import subprocess, sys
h, s = subprocess.check_output(["git", "-C", "/repo", "log", "-1", "--format=%h|%s"], text=True).strip().split("|", 1)
assert s.startswith("fix:")
open("/verif/known-findings.txt", "a").write("fixed: property=%s %s %s\n" % (sys.argv[1], h, s[4:].strip()))

#!/usr/bin/env python3
"""Checks that every fix commit of /repo is recorded in KNOWN_FINDINGS.txt (a helper for the author)."""
import subprocess, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
txt = open(V + "/KNOWN_FINDINGS.txt").read()
for ln in subprocess.check_output(["git", "-C", "/repo", "log", "--oneline", "--grep=^fix:"], text=True).splitlines():
    if ln.split()[0][:7] not in txt:
        print("missing:", ln)

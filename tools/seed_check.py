#!/usr/bin/env python3
"""For every planted bug: does the patch apply, and does it change lines of the original repository?"""
import os, subprocess, glob
BASE = "407a798"
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", "*"))):
    p = os.path.join(d, "patch.diff")
    if not os.path.exists(p):
        print(os.path.basename(d), "NO PATCH"); continue
    ok = subprocess.run(["git", "-C", "/repo", "apply", "--check", p]).returncode == 0
    cur, bad, n = None, 0, 0
    for line in open(p):
        if line.startswith("--- a/"):
            cur = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{line[6:].strip()}"], capture_output=True, text=True).stdout.split("\n")
        elif line.startswith("-") and not line.startswith("---"):
            n += 1
            bad += line[1:].rstrip("\n") not in cur
    print(f"{os.path.basename(d):28} applies={ok} removed={n} not-original={bad}" + ("" if ok and n and not bad else "   <<<<"))

#!/usr/bin/env python3
"""names the planted bugs whose patch changes no line of the original repository"""
import os
import re
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(HERE, "..", "..", "seeded")
REPO = os.environ.get("ION_REPO", "/repo")
FIRST = subprocess.run(["git", "-C", REPO, "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.split()[0]
memo = {}


def blame(f):
    if f not in memo:
        out = subprocess.run(["git", "-C", REPO, "blame", "-s", "--porcelain", f], capture_output=True, text=True, errors="replace").stdout
        memo[f], cur = [], None
        for ln in out.split("\n"):
            m = re.match(r"^([0-9a-f]{40}) \d+ \d+", ln)
            if m:
                cur = m.group(1)
            elif ln.startswith("\t"):
                memo[f].append((cur, ln[1:]))
    return memo[f]


for d in sorted(os.listdir(SEEDED)):
    b, n, ok = [], 0, False
    for ln in open(os.path.join(SEEDED, d, "patch.diff"), errors="replace").read().split("\n"):
        if ln.startswith("--- a/"):
            b = blame(ln[6:])
        elif ln.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", ln).group(1)) - 1
        elif ln.startswith("-") and not ln.startswith("---"):
            who, txt = b[n]
            assert txt == ln[1:], (d, txt)
            s = txt.strip()
            ok |= who == FIRST and s != "" and not s.startswith("//")
            n += 1
        elif ln.startswith(" "):
            n += 1
    if not ok:
        print(d)

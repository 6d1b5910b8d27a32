#!/usr/bin/env python3
"""Runs the check of each planted bug's property (or the checks given with -c) on a copy of /repo with the bug.
usage: runseeds.py [-c C01,C02] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
a = sys.argv[1:]
only = None
if a[:1] == ["-c"]:
    only, a = a[1].split(","), a[2:]
for i in a or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + i
    w = tempfile.mkdtemp(prefix="runseed-")
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (w, w, d), shell=True, check=True)
    for c in only or [json.load(open(d + "/meta.json"))["property"]]:
        r = subprocess.run([V + "/bin/check", c], capture_output=True, text=True, env=dict(os.environ, ION_REPO=w))
        why = [l for l in r.stdout.splitlines() if "violation" in l.lower()]
        print(i, c, {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN %d" % r.returncode), (why or [""])[0][:150], flush=True)
        f = V + "/tools/seeds/caught.json"
        known = json.load(open(f))
        cs = set(known.get(i, "").replace("none", "").split(", ")) - {""}
        cs = cs | {c} if r.returncode == 1 else cs - {c}
        known[i] = ", ".join(sorted(cs)) or "none"
        json.dump(known, open(f, "w"), indent=0, sort_keys=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-300:], r.stderr[-600:])
    shutil.rmtree(w)

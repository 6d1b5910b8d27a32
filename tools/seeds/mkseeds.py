#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in defs*.py, and verifies them against the sources.

usage: mkseeds.py [--verify] [ids...]
Verification runs in a private mount namespace (unshare -m) with a copy of /repo over /repo.
"""
import glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
TMP = os.environ.get("SEED_TMP", "/tmp/mkseeds")
os.makedirs(TMP, exist_ok=True)
SEEDS = {}


def seed(id, prop, needs, breaks, edits, demo, srcs=("lib/http2_conn.cpp",), sh=None, kit=("kit.hpp", "conn.hpp", "stubs")):
    SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, srcs=srcs, sh=sh, kit=kit)


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def write(id, s):
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = ""
    for f in dict.fromkeys(e[0] for e in s["edits"]):
        old = new = open("/repo/" + f).read()
        for g, a, b in s["edits"]:
            if g == f:
                if new.count(a) != 1:
                    sys.exit("%s: %d matches in %s: %r" % (id, new.count(a), f, a))
                new = new.replace(a, b)
        open(TMP + "/_a", "w").write(old)
        open(TMP + "/_b", "w").write(new)
        r = sh("diff -u --label a/%s --label b/%s %s/_a %s/_b" % (f, f, TMP, TMP))
        diff += "diff --git a/%s b/%s\n" % (f, f) + r.stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
    for k in s["kit"]:
        (shutil.copytree if os.path.isdir(HERE + "/kit/" + k) else shutil.copy)(HERE + "/kit/" + k, d + "/" + k)
    shutil.copy(HERE + "/kit/kit.sh", d)
    open(d + "/demo.sh", "w").write("#!/bin/bash\n. \"$(dirname \"$0\")/kit.sh\"\n" + (s["sh"] or
        "build \"$D/demo.cpp\" %s\n\"$T/demo\"\n" % " ".join(s["srcs"])))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)


def verify(id):
    d = os.path.join(OUT, id)
    def demo(n):
        shutil.rmtree(TMP + "/elsewhere", ignore_errors=True)
        shutil.copytree(d, TMP + "/elsewhere")
        for x in ("patch.diff", "meta.json"):
            os.remove(TMP + "/elsewhere/" + x)
        r = sh("timeout 300 bash %s/elsewhere/demo.sh" % TMP, cwd="/repo")
        print("   demo %s: exit %d %s" % (n, r.returncode, (r.stdout + r.stderr).strip().replace("\n", " ")[-160:]), flush=True)
        return r.returncode
    sh("bash /opt/vp/build.sh")  # rebuild without the previous one
    base = demo("before")
    assert sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % (d, d), cwd="/repo").returncode == 0
    b = sh("bash /opt/vp/build.sh")
    t = sh("bash /opt/vp/test.sh %s/_t.json" % TMP) if b.returncode == 0 else None
    stable = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(TMP + "/_t.json")) if t else {}
    print("   build %d, tests %s" % (b.returncode, (t.stdout.strip().splitlines() or ["?"])[-1] if t else b.stdout[-300:]), flush=True)
    after = demo("after")
    sh("git checkout -- .", cwd="/repo")
    ok = base == 0 and b.returncode == 0 and after not in (0, 99) and "82 passed" in (t.stdout if t else "")
    print("%s %s" % (id, "ok" if ok else "BAD"), flush=True)
    if b.returncode:
        sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    for f in sorted(glob.glob(HERE + "/defs*.py")):
        exec(compile(open(f).read(), f, "exec"))
    a = sys.argv[1:]
    v = "--verify" in a
    ids = [x for x in a if x != "--verify"] or list(SEEDS)
    if v and os.environ.get("IN_NS") != "1":
        sh("rm -rf %s/seedrepo; cp -a /repo %s/seedrepo" % (TMP, TMP))
        os.execvpe("unshare", ["unshare", "-m", "bash", "-c", "mount --bind %s/seedrepo /repo && python3 %s --verify %s; umount /repo" % (TMP, os.path.abspath(__file__), " ".join(ids))],
                   dict(os.environ, IN_NS="1"))
    for i in ids:
        write(i, SEEDS[i])
        if v:
            verify(i)

"""Shared plumbing of the checks: build from /repo's working tree, run TLC, report."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ION_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
CXX = "/usr/bin/clang++-19"
T0 = time.time()
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check itself failed (neither held nor violated)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


_work = None


def work():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix="vcheck-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_work, ignore_errors=True))
    return _work


# --------------------------------------------------------------------------- build
DEFS = ["-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED"]
PCH = """#include <spdlog/spdlog.h>
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <functional>
#include <map>
#include <unordered_map>
#include <deque>
#include <expected>
#include <format>
#include <memory>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <vector>
#include <chrono>
#include <opentelemetry/vstub.h>
"""


def _cache_dir():
    d = os.path.join(VERIF, "build", "cache")
    os.makedirs(d, exist_ok=True)
    return d


def _tree_hash(dirs, exts=(".h", ".hpp", ".in")):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read())
    return h.hexdigest()


def sources(sub):
    r = []
    for root, ds, fs in os.walk(os.path.join(REPO, sub)):
        ds.sort()
        r += [os.path.join(root, f) for f in sorted(fs) if f.endswith((".cpp", ".cc", ".cxx"))]
    return sorted(r)


def version_header(gen):
    os.makedirs(gen, exist_ok=True)
    src = open(os.path.join(REPO, "lib/version.h.in")).read()
    ver = "0.0.0"
    m = re.search(r"project\s*\([^)]*VERSION\s+([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read(), re.S)
    if m:
        ver = m.group(1)
    txt = re.sub(r"@[A-Za-z_]+@", ver, src)
    p = os.path.join(gen, "version.h")
    if not os.path.exists(p) or open(p).read() != txt:
        open(p, "w").write(txt)


def build(name, harness, app=False, asan=True, lib=True, only=None, opt="-O0", extra=(), link=()):
    """Compile REPO's lib (and optionally app) sources with one harness; returns the executable.

    Objects are cached by content in /verif/build (never committed); in a fresh copy all is compiled.
    """
    t = time.time()
    cache = _cache_dir()
    gen = os.path.join(VERIF, "build", "generated")
    version_header(gen)
    flags = ["-std=gnu++23", "-w", opt, "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-Wno-everything"] + DEFS + list(extra)
    if asan:
        flags += ["-fsanitize=address"]
    incs = ["-I" + HARN + "/stubs", "-I" + REPO + "/lib", "-I" + REPO + "/app", "-I" + gen, "-I" + HARN]
    hh = _tree_hash([REPO + "/lib", REPO + "/app", HARN, gen])
    base = hashlib.sha256((hh + repr(flags) + PCH).encode()).hexdigest()[:24]
    srcs = (sources("lib") if lib else []) + (sources("app") if app else [])
    if only is not None:
        srcs = [s for s in srcs if only(os.path.relpath(s, REPO))]
    srcs += [os.path.join(HARN, h) for h in harness]
    w = os.path.join(cache, "w-" + base)
    os.makedirs(w, exist_ok=True)
    pch_key = hashlib.sha256((repr(flags) + PCH + _tree_hash([HARN + "/stubs"])).encode()).hexdigest()[:24]
    pch = os.path.join(cache, pch_key + ".pch")
    if not os.path.exists(pch):
        hp = os.path.join(cache, pch_key + ".h")
        open(hp, "w").write(PCH)
        r = subprocess.run([CXX] + flags + incs + ["-x", "c++-header", hp, "-o", pch + ".tmp%d" % os.getpid(),
                            "-fpch-instantiate-templates"], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("precompiled header: " + r.stderr[-2000:])
        os.rename(pch + ".tmp%d" % os.getpid(), pch)

    def comp(s):
        inc = "".join(re.findall(r'#include "(\w+\.cpp)"', open(s, errors="replace").read())) if s.startswith(HARN) else ""
        if inc:
            inc = hashlib.sha256(open(os.path.join(HARN, inc), "rb").read()).hexdigest()
        key = hashlib.sha256((base + inc + s + hashlib.sha256(open(s, "rb").read()).hexdigest()).encode()).hexdigest()[:28]
        o = os.path.join(w, key + ".o")
        if not os.path.exists(o):
            tmp = o + ".tmp%d" % os.getpid()
            r = subprocess.run([CXX] + flags + incs + ["-include-pch", pch, "-c", s, "-o", tmp], capture_output=True, text=True)
            if r.returncode:
                return s, r.stderr
            os.rename(tmp, o)
        return o, None
    with cf.ThreadPoolExecutor(8) as ex:
        # largest first keeps the tail short
        res = list(ex.map(comp, sorted(srcs, key=lambda s: -os.path.getsize(s))))
    bad = [r for r in res if r[1] is not None]
    if bad:
        raise CheckError("does not compile: %s\n%s" % (bad[0][0], bad[0][1][-3000:]))
    objs = sorted(r[0] for r in res)
    exe = os.path.join(w, name + "-" + hashlib.sha256(repr((objs, list(link))).encode()).hexdigest()[:16])
    if not os.path.exists(exe):
        cmd = [CXX, "-fuse-ld=lld-19" if os.path.exists("/usr/bin/ld.lld-19") else "-fuse-ld=lld"] + \
              (["-fsanitize=address"] if asan else []) + objs + \
              ["-o", exe + ".tmp%d" % os.getpid(), "-rdynamic", "-lspdlog", "-lfmt", "-lssl", "-lcrypto", "-lpthread", "-ldl"] + list(link)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and lib and only is not None and "undefined symbol" in r.stderr and "duplicate symbol" not in r.stderr:
            # code has moved to files this harness did not need before
            every = set(os.path.relpath(s, REPO) for s in sources("lib"))
            if any(not only(s) for s in every):
                return build(name + "-all", harness, app, asan, lib, lambda s: s in every or only(s), opt, extra, link)
        if r.returncode:
            raise CheckError("does not link: " + r.stderr[-3000:])
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    log("built %s (%d files) in %.1fs" % (name, len(srcs), time.time() - t))
    return exe


ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1",
       "UBSAN_OPTIONS": "print_stacktrace=1", "LC_ALL": "C.UTF-8", "TZ": "UTC", "PATH": os.environ.get("PATH", "/usr/bin:/bin")}


def run(cmd, stdin=None, timeout=120, env=None, cwd=None):
    e = dict(ENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, input=stdin, capture_output=True, timeout=timeout, env=e, cwd=cwd or work())
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return -999, x.stdout or b"", (x.stderr or b"") + b"\ntimeout"


# --------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.runs = []


STATS = Tlc()


def _parse_prints(out):
    """Verdict lines (module Verdict): {id: (event, why)}; event 0 is acceptance."""
    r = {}
    for line in out.splitlines():
        if line.startswith('"VERDICT '):
            v = json.loads(json.loads(line)[8:])
            if v["id"] not in r or v["at"]:
                r[v["id"]] = (v["at"], v["why"])
    return r


def tlc(spec, cfg=None, env=None, args=(), timeout=600, workers=8, heap="6g", over=None):
    """Run TLC on spec/<spec>.tla; returns (returncode, stdout, prints).  over: constants that replace those of the cfg."""
    d = tempfile.mkdtemp(prefix="tlc-", dir=work())
    if over:
        txt = open(os.path.join(SPEC, cfg or spec + ".cfg")).read()
        for k, v in over.items():
            txt, n = re.subn(r"\b%s\s*=.*" % re.escape(k), lambda m: "%s = %s" % (k, v), txt)
            if n != 1:
                raise CheckError("constant %s not in %s" % (k, cfg or spec))
        cfg = os.path.join(d, os.path.basename(cfg or spec + ".cfg"))
        open(cfg, "w").write(txt)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-Djava.io.tmpdir=" + d, "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", d, "-noGenerateSpecTE", "-config", cfg or spec + ".cfg"] + list(args) + [spec + ".tla"]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = -999
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = "\n".join(ln for ln in out.splitlines() if not ln.startswith(("Parsing file", "Semantic processing", "Linting of", "Progress(")) and ln.strip())
    gen = dist = 0
    m = re.findall(r"([\d,]+) states generated[^,]*, ([\d,]+) distinct states found", out)
    if m:
        gen, dist = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    else:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            gen = dist = int(m[-1].replace(",", ""))
    STATS.states += dist
    STATS.distinct += dist
    STATS.runs.append(dict(spec=spec, cfg=os.path.basename(cfg or spec + ".cfg"), states=dist, transitions=gen, wall_s=round(time.time() - t, 1)))
    return rc, out, _parse_prints(out)


def tlc_check(spec, cfg=None, env=None, args=(), timeout=600, workers=8, expect_ok=True, over=None):
    """Exhaustive or simulated check of a design model; a failure is an error of the model."""
    rc, out, pr = tlc(spec, cfg, env, args, timeout, workers, over=over)
    if expect_ok and (rc != 0 or "Error:" in out):
        raise CheckError("model %s (%s): rc %s\n%s" % (spec, cfg, rc, out[-3000:]))
    log("TLC %s %s: %d states, %.1fs" % (spec, cfg or "", STATS.runs[-1]["states"], STATS.runs[-1]["wall_s"]))
    return out, pr


def behaviours(spec, cfg, num=None, depth=None, over=None, timeout=300, env=None):
    """Behaviours printed by a generator model (lines "BEH <json>"), in a reproducible order."""
    args = [] if num is None else ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(SEED)]
    out, _ = tlc_check(spec, cfg, env, args, timeout, 1 if num is not None else 8, over=over)
    r = [json.loads(json.loads(ln)[4:]) for ln in out.splitlines() if ln.startswith('"BEH ')]
    if not r:
        raise CheckError("model %s %s printed no behaviour" % (spec, cfg))
    r.sort(key=lambda b: json.dumps(b, sort_keys=True))
    return r


def validate(spec, traces, cfg=None, timeout=600, env=None, workers=8):
    """Check recorded traces (list of dicts with 'id') against a trace spec.
    Returns {id: None | (event index, reason)}."""
    if not traces:
        raise CheckError("no traces to validate against " + spec)
    fd, path = tempfile.mkstemp(prefix="traces-", suffix=".ndjson", dir=work())
    with os.fdopen(fd, "w") as f:
        for tr in traces:
            f.write(json.dumps(tr) + "\n")
    e = {"TRACE_FILE": path}
    e.update(env or {})
    rc, out, pr = tlc(spec, cfg, e, timeout=timeout, workers=workers)
    if rc not in (0, 12) or ("Error:" in out and "Invariant" not in out):
        raise CheckError("trace validation %s: rc %s\n%s" % (spec, rc, out[-3500:]))
    res = {}
    for tr in traces:
        i = str(tr["id"])
        if i not in pr:
            raise CheckError("no verdict on trace %s from %s\n%s" % (i, spec, out[-3000:]))
        res[i] = pr[i] if pr[i][0] else None
    log("TLC %s: %d traces, %d rejected, %d states, %.1fs" % (spec, len(traces), sum(v is not None for v in res.values()),
        STATS.runs[-1]["states"], STATS.runs[-1]["wall_s"]))
    os.unlink(path)
    return res


# --------------------------------------------------------------------------- reporting
class Check:
    """Collects verdicts for one property and ends the process accordingly."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.viol = []
        self.known = []
        self.cov = {"traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.findings = load_findings(pid)

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s if isinstance(s, (str, dict, list)) else str(s))

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, what, replay):
        """replay: JSON-serialisable description sufficient to reproduce."""
        for f in self.findings:
            if f.get("match") and f["match"] in what:
                if f["match"] not in self.known:
                    self.known.append(f["match"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]), flush=True)
                return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": SEED, "tier": TIER, "replay": replay}, f, indent=1, default=repr)
        self.viol.append((what, p))
        if len(self.viol) <= 5:
            print("  violation: %s" % what, flush=True)

    def finish(self):
        cov = self.cov
        cov["states"] = STATS.states
        cov["transitions"] = sum(r["transitions"] for r in STATS.runs)
        cov["tlc_runs"] = STATS.runs
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", "." + self.pid + ".tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.rename(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))
        if self.viol:
            for what, p in self.viol[:1]:
                print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            return 1
        log("%s held: %d traces validated, %d states" % (self.pid, cov["traces_validated_against_impl"], STATS.states))
        return 0


def load_findings(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f.get("property") == pid]


def rng(salt=""):
    return random.Random("%d/%s/%s" % (SEED, salt, TIER))


def hexs(b):
    return bytes(b).hex()

"""Runs trace scripts through a harness and attributes crashes and hangs to traces."""
import concurrent.futures as cf
from common import *


def _run_batch(exe, batch, timeout, env):
    """batch: list of (id, [lines]); returns {id: (lines, status)} with status ok/crash/hang."""
    res = {}
    todo = list(batch)
    bad = 0
    while todo:
        if bad >= 2:       # enough to report; do not sit through more hangs
            res.update({i: ([], "skipped", "") for i, _ in todo})
            break
        text = "".join("trace %s\n%s\nend\n" % (i, "\n".join(ls)) for i, ls in todo).encode()
        rc, out, err = run([exe], stdin=text, timeout=timeout, env=env)
        cur, seen = None, []
        for line in out.decode("latin-1").splitlines():
            if line.startswith("trace "):
                cur = line[6:]
                seen.append(cur)
                res[cur] = ([], "open")
            elif line == "end" and cur is not None:
                res[cur] = (res[cur][0], "ok")
                cur = None
            elif cur is not None:
                res[cur][0].append(line)
        opened = [i for i in seen if res[i][1] == "open"]
        for i in opened:
            bad += 1
            res[i] = (res[i][0], "hang" if rc == -999 else "crash")
            res[i] = res[i] + (err.decode("latin-1")[-1500:],)
        n = len(seen)
        if rc == 0 and n == len(todo):
            break
        if n == 0:
            raise CheckError("harness %s does not start: rc %s %s" % (exe, rc, err[-2000:]))
        if not opened and n < len(todo):
            # died between traces (e.g. in a destructor run by the next one)
            res[seen[-1]] = (res[seen[-1]][0], "crash", err.decode("latin-1")[-1500:])
        if rc != 0 and not opened and n == len(todo):
            res[seen[-1]] = (res[seen[-1]][0], "crash", err.decode("latin-1")[-1500:])
        todo = todo[n:]
    return res


def run_traces(exe, scripts, timeout=60, jobs=8, env=None):
    scripts = [(str(i), ls) for i, ls in scripts]
    k = max(1, min(jobs, len(scripts)))
    batches = [scripts[j::k] for j in range(k)]
    res = {}
    with cf.ThreadPoolExecutor(k) as ex:
        for r in ex.map(lambda b: _run_batch(exe, b, timeout, env), batches):
            res.update(r)
    return {i: (r + ("",))[:3] for i, r in res.items()}


def U(s):
    """one hex word -> list of ints"""
    return [] if s == "-" else list(bytes.fromhex(s))


def H(b):
    b = bytes(b)
    return b.hex() if b else "-"


def decide(c, spec, exe, cases, project, cfg=None, env=None, tlcenv=None, timeout=60, jobs=8, confirm=True, what=None):
    """Run every case in the real code, project its output to a trace and have TLC judge the traces.

    cases: list of (id, script lines, meta).  project(lines, meta) -> trace fields (dict) from the harness
    output.  A crash or a hang of the harness in a case, or a rejected trace, is confirmed by a second run and
    then reported.  Returns {id: trace}."""
    cases = [(str(i), ls, m) for i, ls, m in cases]
    by = {i: (ls, m) for i, ls, m in cases}
    assert len(by) == len(cases)

    def once(ids):
        out = run_traces(exe, [(i, by[i][0]) for i in ids], timeout, jobs, env)
        verdict, traces = {}, []
        for i in ids:
            lines, st, err = out[i]
            if st == "skipped":
                continue
            if st != "ok":
                gave_up = lines and lines[-1].split()[0] in ("spin", "hang", "forever", "runs")
                verdict[i] = (len(lines) + 1, "the code %s: %s" % ("does not come back" if st == "hang" or gave_up else "crashed", lines[-1] if gave_up else digest(err)))
                continue
            tr = dict(project(lines, by[i][1]))
            tr["id"] = i
            traces.append(tr)
        if traces:
            verdict.update(validate(spec, traces, cfg, env=tlcenv))
        return verdict, {t["id"]: t for t in traces}
    v, traces = once([i for i, _, _ in cases])
    bad = [i for i in by if v.get(i)]
    if bad and confirm:
        v2, _ = once(bad[:12])
        for i in bad[:12]:
            if not v2.get(i):
                log("trace %s was rejected once (%s) but accepted when repeated" % (i, v[i]))
                c.count("unconfirmed")
                v[i] = None
    for i in bad[:12]:
        if v.get(i):
            ls, m = by[i]
            c.violation("%strace %s, step %s: %s" % (what + ": " if what else "", i, v[i][0], v[i][1]),
                        {"harness": os.path.basename(exe), "script": ls, "spec": spec, "step": v[i][0], "why": v[i][1],
                         "trace": traces.get(i)})
    c.count("traces_validated_against_impl", len(traces))
    return traces


def digest(err):
    for ln in err.splitlines():
        if "ERROR: AddressSanitizer" in ln or "runtime error" in ln or "terminate" in ln or "Assertion" in ln:
            return ln.strip()[:300]
    return err.strip()[-200:]

"""C21: the ion-server program as a whole; also used for the end of the program (C26)."""
import re, select, signal, socket, threading
from common import *
from driver import *
from hpack_checks import both, rstr
from web_checks import Tree, MIME_TLA, page_numbers, NOPAGE
from client import Client, Gone
import h2
from h2 import PREFACE, frame, settings

N = lambda n: n * (8 if THOROUGH else 1)
CERTS = os.path.join(HARN, "certs")
LOCK8443 = threading.Lock()
_ports = iter(range(10000 + os.getpid() * 37 % 15000, 32000))
_plock = threading.Lock()


def free_port():
    with _plock:
        while True:
            p = next(_ports)
            s = socket.socket()
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind(("0.0.0.0", p))
                return p
            except OSError:
                pass
            finally:
                s.close()


def program():
    return build("ion", [], app=True)


class Place:
    """The files a case has: what the model calls /w."""

    def __init__(self):
        self.tree = Tree()
        self.w = self.tree.base
        for src, dst in (("cert1", "c"), ("key1", "k"), ("key2", "k2"), ("cert2", "c2")):
            shutil.copy(os.path.join(CERTS, src + ".pem"), os.path.join(self.w, dst))
        with open(os.path.join(self.w, "j"), "w") as f:
            f.write("-----BEGIN CERTIFICATE-----\nnonsense\n")
        self.tree.file(b"4.html", b"<h1>custom, not found</h1>").dir(b"r").file(b"r/a.txt", b"hello").file(b"r/index.html", b"<p>home</p>").dir(b"r/d")
        self.tree.file(b"r/big.bin", bytes(range(256)) * 1200).file(b"r/empty.css", b"").file(b"404.JSON", b"{}").link(b"r/out", b"../4.html").file(b"r/4", b"x")
        f = lambda s, kind, pair=0: {"s": os.path.join(self.w, s), "kind": kind, "pair": pair}
        self.files = [f("c", "cert", 1), f("k", "key", 1), f("k2", "key", 2), f("c2", "cert", 2), f("j", "junk"), f("log", "log"), f("log2", "log")]

    def at(self, s):
        return self.w + s[2:] if s == "/w" or s.startswith("/w/") else s

    def cfg(self):
        return {"files": self.files, "cwd": list(self.w.encode()), "mime": MIME_TLA, "fs": self.tree.nodes}


class Run:
    """One run of the program, recorded into ev."""

    def __init__(self, exe, place, ev):
        self.exe, self.pl, self.ev, self.p, self.conn = exe, place, ev, None, None
        self.logs, self.kept = {}, []

    # ---------------------------------------------------------------- starting
    def start(self, tokens, env, busy=False, port=None):
        toks = [self.pl.at(x) if not x.startswith("--") else re.sub(r"(?<==)/w/", self.pl.w + "/", x) for x in tokens]
        if port:
            toks = [x.replace("20001", str(port)) for x in toks]
        env = {k: self.pl.at(v) for k, v in env.items()}
        self.held = None
        p = port if any(str(port) in x for x in toks) else 8443
        self.want = p
        if busy:
            self.held = socket.socket()
            self.held.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.held.bind(("0.0.0.0", p))
            self.held.listen()
        e = dict(ENV)
        for k, name in (("cert", "ION_TLS_CERT_PATH"), ("key", "ION_TLS_KEY_PATH")):
            if env.get(k):
                e[name] = env[k]
        if len(toks) % 2:
            e["OTEL_SDK_DISABLED"] = "true"
        self.cause_at = None
        # somewhere in the world
        e["TZ"] = ("UTC0", "AAA-5:30", "BBB11", "CCC-14", "DDD3:30", "EEE-12:45")[sum(o["op"] == "start" for o in self.ev) % 6 if len(self.ev) else len(toks) % 6]
        self.began = time.time()
        self.p = subprocess.Popen([self.exe] + toks, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=self.pl.w, restore_signals=True)
        self.text = {1: b"", 2: b""}
        self.wake = os.pipe()
        self.closing = False
        self.reader = threading.Thread(target=self._read, daemon=True)
        self.reader.start()
        out, at = "hang", 0
        until = time.time() + 20
        while time.time() < until:
            rc = self.p.poll()
            if rc is not None:
                self._join()
                out = "crash" if rc < 0 or b"AddressSanitizer" in self.text[2] else "done" if rc == 0 else "fail"
                break
            at = self._listening()
            if at:
                out = "serve"
                break
            time.sleep(0.004)
        self.port = at
        self.ev.append({"op": "start", "a": [{"s": t, "b": list(t.encode())} for t in toks], "env": {"cert": env.get("cert", ""), "key": env.get("key", "")},
                        "busy": busy, "out": out, "port": at})
        self.tls = "--cleartext" not in toks
        if out == "hang":
            self.kill()
        if self.held:
            self.held.close()
        if out != "serve":
            self.p = None
        return out == "serve"

    def _listening(self):
        try:
            inodes = set()
            for f in os.listdir("/proc/%d/fd" % self.p.pid):
                try:
                    l = os.readlink("/proc/%d/fd/%s" % (self.p.pid, f))
                except OSError:
                    continue
                if l.startswith("socket:["):
                    inodes.add(l[8:-1])
            for t in ("tcp", "tcp6"):
                try:
                    with open("/proc/net/" + t) as fh:
                        for ln in fh.readlines()[1:]:
                            w = ln.split()
                            if w[3] == "0A" and w[9] in inodes:
                                return int(w[1].rsplit(":", 1)[1], 16)
                except FileNotFoundError:
                    pass
            return 0
        except (FileNotFoundError, PermissionError, ProcessLookupError):
            return 0

    def _read(self):
        fds = {self.p.stdout.fileno(): 1, self.p.stderr.fileno(): 2, self.wake[0]: 0}
        while len(fds) > 1:
            for fd in select.select(list(fds), [], [])[0]:
                if fds.get(fd) == 0:
                    os.read(fd, 1)
                    for f, k in list(fds.items()):
                        if k == 1:
                            del fds[f]
                            self.p.stdout.close()
                    self.closed.set()
                elif fd in fds:
                    d = os.read(fd, 1 << 16)
                    if d:
                        self.text[fds[fd]] += d
                    else:
                        del fds[fd]

    def _join(self):
        self.reader.join(10)
        for f in (self.p.stdout, self.p.stderr):
            f.close()
        for f in self.wake:
            os.close(f)

    # ---------------------------------------------------------------- clients
    def client(self, **kw):
        c = Client(self.port, self.tls, **kw)
        return c

    def drop(self):
        for x in self.kept:
            x.close()
        self.kept = []
        self.fresh()

    def fresh(self):
        if self.conn:
            self.conn.close()
        self.conn = None

    def req(self, m, p, hdrs=(), batch=None):
        """one request, or a batch on one connection before any answer is read"""
        todo = batch or [(m, p, hdrs)]
        res = [None] * len(todo)
        try:
            if self.conn is None or time.time() - self.conn.used > 2:
                self.fresh()
                self.conn = self.client()
                if self.tls:
                    self.ev.append({"op": "alpn", "got": self.conn.alpn})
            sts = [self.conn.ask(*x) for x in todo]
            for i, st in enumerate(sts):
                res[i] = self.conn.answer(st)
        except (Gone, ValueError, IndexError) as e:
            self.note = repr(e)
            self.fresh()
        for x, r in zip(todo, res):
            self.ev.append({"op": "req", "m": [list(x[0])] if x[0] is not None else [], "p": [list(x[1])] if x[1] is not None else [],
                            "ref": [list(v) for n, v in x[2] if n == b"referer"], "ua": [list(v) for n, v in x[2] if n == b"user-agent"], "res": self.res(r)})

    def res(self, r):
        if r is None:
            return {"st": 0, "len": 0, "ids": [], "letters": False, "hdrs": [], "page": NOPAGE}
        st, hs, body = r
        return {"st": st, "len": len(body), "ids": self.pl.tree.ids(body), "letters": body == b"A" * len(body),
                "hdrs": [[list(n), list(v)] for n, v in hs if n in (b"content-type", b"content-length")],
                "page": page_numbers(body) if b"ion server status" in body else NOPAGE}

    def spoil(self, R, k):
        """a client that does not behave; nothing it does may end the program"""
        n = 0
        try:
            if k == 0:
                s = socket.create_connection(("127.0.0.1", self.port), 5)
                s.sendall(bytes(R.randrange(256) for _ in range(R.choice([1, 30, 3000]))))
                s.close()
            elif k == 1:                     # leaves in the middle of a long answer
                c = self.client(rcvbuf=4096)
                c.ask(b"GET", R.choice([b"/_tests/large_body", b"/s/big.bin", b"/none"]))
                n = 1
                time.sleep(R.choice([0, 0.01, 0.06]))
                c.reset()
            elif k == 2:
                c = self.client()
                for _ in range(R.choice([1, 5])):
                    c.ask(b"GET", R.choice([b"/_tests/medium_body", b"/s/big.bin"]))
                    n += 1
                c.close()
            elif k == 3:
                s = socket.create_connection(("127.0.0.1", self.port), 5)
                s.sendall(b"GET / HTTP/1.1\r\nHost: x\r\n\r\n")
                s.close()
            elif k == 4:
                s = socket.create_connection(("127.0.0.1", self.port), 5)
                s.sendall((PREFACE + settings()) if self.tls else b"\x16\x03\x01\x00\x05hello")
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, b"\x01\0\0\0\0\0\0\0")
                s.close()
            elif k == 5:
                for _ in range(20):
                    s = socket.create_connection(("127.0.0.1", self.port), 5)
                    s.close()
            elif k == 6:                     # never reads, and says goodbye
                c = self.client(rcvbuf=4096)
                for _ in range(3):
                    c.ask(b"GET", b"/_tests/large_body")
                n = 3
                c.s.shutdown(socket.SHUT_WR)
                c.close()
            elif k == 7:
                c = self.client()
                c.send(frame(0, 0, 0, b"x") + frame(6, 0, 0, b"12345678") + frame(99, 0, 0, b"") + frame(1, 4, 1, b"\xff\xff\xff"))
                c.close()
        except (Gone, OSError):
            pass
        self.ev.append({"op": "loose", "k": n})

    def load(self, R, k):
        """clients in all kinds of states that stay"""
        n = 0
        for _ in range(k):
            try:
                j = R.randrange(5)
                if j == 0:
                    self.kept.append(socket.create_connection(("127.0.0.1", self.port), 5))
                elif j == 1:
                    s = socket.create_connection(("127.0.0.1", self.port), 5)
                    s.sendall(b"\x16\x03\x01\x02\x00\x01" if self.tls else PREFACE[:10])
                    self.kept.append(s)
                elif j == 2:
                    self.kept.append(self.client())
                else:
                    x = self.client(rcvbuf=4096)
                    self.kept.append(x)
                    for _ in range(R.choice([1, 3])):
                        x.ask(b"GET", R.choice([b"/_tests/large_body", b"/s/big.bin", b"/_tests/ok"]))
                        n += 1
            except (Gone, OSError):
                pass
        self.ev.append({"op": "loose", "k": n})

    def lines(self, end=False):
        """what this run has added to the access log"""
        lines = []
        for f in ("log", "log2"):
            p = os.path.join(self.pl.w, f)
            if os.path.exists(p):
                d = open(p, "rb").read()
                new = d[self.logs.get(f, 0):]
                if new:
                    lines += new.split(b"\n")[:-1] if new.endswith(b"\n") else new.split(b"\n")
                if end:
                    self.logs[f] = len(d)
        return lines

    def span(self):
        return [int(self.began) - 1, int(time.time()) + 1]

    def peek(self):
        """the log while the program runs; lines may take a moment"""
        k = max(i for i, e in enumerate(self.ev) if e["op"] == "start")
        n = sum(e["op"] == "req" and e["res"]["st"] != 0 for e in self.ev[k:])
        logs = any(x["s"].startswith("--access-log") for x in self.ev[k]["a"])
        until = time.time() + 3
        ls = self.lines()
        while logs and len(ls) < n and time.time() < until:
            time.sleep(0.02)
            ls = self.lines()
        self.ev.append({"op": "lines", "ls": [list(x) for x in ls], "at": self.span()})

    # ---------------------------------------------------------------- ending
    def signal(self, n):
        self.cause_at = time.time()
        self.ev.append({"op": "signal", "n": int(n)})
        os.kill(self.p.pid, n)

    def closeout(self):
        self.closed = threading.Event()
        os.write(self.wake[1], b"x")
        self.closed.wait(5)
        self.ev.append({"op": "closeout"})

    def poke(self):
        """a connection, which is something to write about"""
        try:
            s = socket.create_connection(("127.0.0.1", self.port), 5)
            s.close()
        except OSError:
            pass
        self.cause_at = time.time()
        self.ev.append({"op": "wrote"})

    def end(self, wait=15.0):
        """see the program end, if it has been told to"""
        t = self.cause_at or time.time()
        try:
            self.p.wait(wait)
        except subprocess.TimeoutExpired:
            self.ev.append({"op": "running"})
            self.kill()
            self.p = None
            return
        ms = int(1000 * (time.time() - t))
        self.drop()
        self._join()
        rc = self.p.returncode
        asan = b"AddressSanitizer" in self.text[2]
        if asan:
            self.note = digest(self.text[2].decode("utf-8", "replace"))
        self.ev.append({"op": "exit", "code": 0 if rc < 0 else rc, "sig": 6 if asan else max(0, -rc), "ms": ms})
        lv = {"trace": "trace", "debug": "debug", "info": "info", "warning": "warn", "error": "error", "critical": "critical"}
        found = re.findall(rb"^\[[^\]]*\] \[(\w+)\]", self.text[1], re.M)
        self.ev.append({"op": "levels", "ls": sorted({lv[x.decode()] for x in found if x.decode() in lv})})
        lines = self.lines(True)
        self.ev.append({"op": "lines", "ls": [list(x) for x in lines], "at": self.span()})
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        try:
            s.bind(("0.0.0.0", self.port))
            s.listen()
            ok = True
        except OSError:
            ok = False
        s.close()
        self.ev.append({"op": "free", "ok": ok})
        self.p = None

    def alive(self, secs):
        """it goes on running for a while"""
        try:
            self.p.wait(secs)
            self.end()
            return False
        except subprocess.TimeoutExpired:
            return True

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.drop()
        self._join()


def play(exe, ops, seed):
    """run a history; returns its trace.  ops: functions of (run, R)"""
    R = random.Random(seed)
    pl, ev = Place(), []
    r = Run(exe, pl, ev)
    r.note = ""
    held = False
    try:
        for op in ops:
            if op[0] == "start":
                uses = not any("20001" in x for x in op[1])
                if uses and not held:
                    LOCK8443.acquire()
                    held = True
                r.start(op[1], op[2], op[3], free_port() if not op[4:] else op[4])
            elif r.p is None:
                continue
            elif op[0] == "req":
                r.req(op[1], op[2], op[3] if len(op) > 3 else ())
            elif op[0] == "batch":
                r.req(None, None, (), op[1])
            elif op[0] == "fresh":
                r.fresh()
            elif op[0] == "peek":
                r.peek()
            elif op[0] == "spoil":
                r.spoil(R, op[1])
            elif op[0] == "pause":           # interrupts whatever it waits in
                os.kill(r.p.pid, signal.SIGSTOP)
                time.sleep(op[1])
                os.kill(r.p.pid, signal.SIGCONT)
            elif op[0] == "load":
                r.load(R, op[1])
            elif op[0] in ("int", "term", "out"):
                stop(r, op[0])
            elif op[0] == "sleep":
                time.sleep(op[1])
            elif op[0] == "alive":
                r.alive(op[1])
            elif op[0] == "call":
                op[1](r, R)
            elif op[0] == "end":
                r.end()
        if r.p is not None:
            stop(r, "term")
            r.end()
    finally:
        if r.p is not None:
            r.kill()
        if held:
            LOCK8443.release()
        shutil.rmtree(pl.w, ignore_errors=True)
    return {"cfg": pl.cfg(), "ev": ev}, r.note


def stop(r, how):
    if how == "int":
        r.signal(signal.SIGINT)
    elif how == "term":
        r.signal(signal.SIGTERM)
    elif how == "out":
        # (while other runs are being started, their processes hold the reading end for a moment: hence again and again)
        r.closeout()
        until = time.time() + 6
        r.poke()
        while time.time() < until:
            try:
                r.p.wait(0.3)
                return
            except subprocess.TimeoutExpired:
                r.poke()
        # with nothing to write it may go on, and is told in another way
        r.ev.append({"op": "running"})
        r.signal(signal.SIGTERM)


def run_program(c, exe, cases, jobs=8):
    """cases: [(id, ops)]; runs, judges, confirms, reports"""
    def once(todo):
        with cf.ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(lambda x: play(exe, x[1], "%s.%d" % (x[0], SEED)), todo))
        trs = [dict(t, id=x[0]) for x, (t, _) in zip(todo, res)]
        return validate("AppTrace", trs), {x[0]: (t, n) for x, (t, n) in zip(todo, res)}
    v, tr = once(cases)
    bad = [x for x in cases if v[x[0]]][:10]
    if bad:
        v2, tr2 = once(bad)
        for i, ops in bad:
            if not v2[i]:
                log("trace %s was rejected once (%s) but accepted when repeated" % (i, v[i]))
                c.count("unconfirmed")
            else:
                c.violation("trace %s, step %s: %s" % (i, v2[i][0], v2[i][1]), {"ops": ops, "why": v2[i], "note": tr2[i][1], "trace": tr2[i][0]["ev"]})
    c.count("traces_validated_against_impl", len(cases))
    evs = [e for t, _ in tr.values() for e in t["ev"]]
    c.count("program_runs", sum(e["op"] == "start" for e in evs))
    for o in ("serve", "fail", "done"):
        c.count("starts_" + o, sum(e["op"] == "start" and e["out"] == o for e in evs))
    c.count("requests", sum(e["op"] == "req" for e in evs))
    c.count("log_lines", sum(len(e["ls"]) for e in evs if e["op"] == "lines"))
    return tr


def replay(R, b):
    ops = []
    for op in b:
        if op["op"] == "start":
            ops.append(("start", op["a"], op["env"], op["busy"]))
        elif op["op"] == "req":
            ops.append(("req", bytes(op["m"][0]) if op["m"] else None, bytes(op["p"][0]) if op["p"] else None, heads(R)))
            if R.random() < 0.2:
                ops.append(("fresh",))
        else:
            ops += [(op["op"],), ("end",)]
    return ops


def heads(R):
    return [(n, R.choice([b"x", b"http://a/b?c", b'q"uote', b"\\", b"M 1"])) for n in (b"referer", b"user-agent") if R.random() < 0.4]


def model():
    tlc_check("AppMC", over={"MaxOps": "2", "Odd": "3"} if THOROUGH else None, timeout=1500)
    return behaviours("AppMC", "AppGen.cfg", num=80 * (8 if THOROUGH else 1), depth=30)


CLEAR, TLS = ["--cleartext"], ["--tls-cert-path", "/w/c", "--tls-key-path", "/w/k"]
PORT = ["-p", "20001"]
NOENV = {"cert": "", "key": ""}
ENVTLS = {"cert": "/w/c", "key": "/w/k"}
ALL = ["--under-test", "--status-page", "--static", "/s", "/w/r", "--custom-404-file-path", "/w/4.html", "--access-log", "/w/log"]
PATHS = [b"/_tests/ok", b"/_tests/no_content", b"/_tests/no_new_privs", b"/_tests/medium_body", b"/_tests/large_body", b"/_ion/status", b"/_ion/status/", b"/_tests/", b"/s", b"/s/", b"/s/a.txt", b"/s/a.txt?q=1",
         b"/s/big.bin", b"/s/empty.css", b"/s/d", b"/s/d/", b"/s/none", b"/s/out", b"/s/../4.html", b"/s/4", b"/sa.txt", b"/", b"/none", b"", b"*", b"/s/%61.txt", b"/S/a.txt", b"/index.html"]


def asks(R, n):
    """a mix of requests"""
    ops = []
    for _ in range(n):
        one = lambda: (R.choice([b"GET"] * 6 + [b"HEAD"] * 3 + [b"POST", b"get", b"OPTIONS", None]), R.choice(PATHS + [b"/_ion/status"] * 4 + [None]), heads(R))
        if R.random() < 0.3:
            ops.append(("batch", [one() for _ in range(R.choice([2, 5, 12]))]))
        else:
            ops.append(("req",) + one())
        if R.random() < 0.15:
            ops.append(("fresh",))
    return ops


def options(R):
    """some options, in any order and spelling"""
    o = [R.choice([CLEAR, CLEAR, TLS, ["--tls-cert-path=/w/c", "--tls-key-path=/w/k"]])]
    put = lambda p, *alts: o.append(list(R.choice(alts))) if R.random() < p else None
    put(0.5, ["--under-test"])
    put(0.6, ["--status-page"])
    put(0.7, ["--static", "/s", "/w/r"], ["-s", "/s", "/w/r/"], ["-s", "/", "r"], ["--static", "/s/", "./r"], ["-s", "/_tests", "/w/r"], ["-s", "/_ion/status", "/w/r"], ["-s", "/s", "/w"])
    put(0.6, ["--custom-404-file-path", "/w/4.html"], ["--custom-404-file-path=/w/404.JSON"], ["--custom-404-file-path", "r/empty.css"], ["--custom-404-file-path", "/w/r/out"], ["--custom-404-file-path", "/w/r/big.bin"], ["--custom-404-file-path", "/w/no"])
    put(0.6, ["--access-log", "/w/log"], ["--access-log=/w/log"], ["--access-log", "/w/log2"])
    put(0.4, ["-l", "off"], ["--log-level", "trace"], ["--log-level=warn"], ["-l", "ERROR"], ["-l", "Debug"], ["-l", "critical"])
    o.append(list(R.choice([PORT, ["--port", "20001"], ["--port=20001"]])))
    R.shuffle(o)
    return sum(o, [])


def C21(c):
    exe, beh = both(program, model)
    R = rng("C21")
    cases = [("g%d" % i, replay(R, b)) for i, b in enumerate(beh)]
    # combinations, with a mix of requests and clients that do not behave; the same place is used by one run after the other
    for i in range(N(40)):
        ops = []
        for run in range(R.choice([1, 2, 3])):
            ops.append(("start", options(R), R.choice([NOENV, NOENV, ENVTLS, {"cert": "/w/j", "key": "/w/j"}]), False))
            for _ in range(R.choice([1, 4])):
                ops += asks(R, R.choice([2, 6])) + [("peek",)]
                if R.random() < 0.4:
                    ops.append(("spoil", R.randrange(8)))
            ops += [(R.choice(["int", "term"]),), ("end",)]
        cases.append(("m%d" % i, ops))
    # all answers there are, by each kind of service
    for i, o in enumerate([CLEAR + PORT + ALL, TLS + PORT + ALL, CLEAR + PORT + ALL[:5], CLEAR + PORT + ALL[2:6] + ["-l", "off"], TLS + PORT + ["--custom-404-file-path", "/w/r/big.bin"], CLEAR + PORT + ["--under-test"], CLEAR + PORT]):
        ops = [("start", o, NOENV, False)]
        for m in (b"GET", b"HEAD", b"POST"):
            for p in PATHS:
                ops.append(("req", m, p, heads(R)))
        cases.append(("a%d" % i, ops))
    # what must not start, and what must
    odd = [[], ["-p"], ["-p", "0"], ["-p", "65536"], ["-p", "-1"], ["-p", "99999999999999999999"], ["-p", "80a"], ["-p", ""], ["--port="], ["-l", ""], ["-l", "verbose"], ["-l"], ["--log-level", "in fo"], ["-p", "20001", "-p", "20001"], ["-l", "info", "--log-level", "info"],
           ["--static"], ["--static", "/s"], ["--static", "/s", "/w/r", "/w"], ["--static", "/s", "/w/r", "--static", "/t", "/w/r"], ["--static", "/s", "/w/no"], ["--static", "/s", "/w/4.html"], ["--nope"], ["-x"], ["nope"], ["-p", "20001", "--"],
           ["--custom-404-file-path"], ["--access-log"], ["--access-log", "/w/no/log"], ["--access-log", "/w/r"], ["--tls-cert-path"], ["--help"], ["-h", "-p", "0"], ["--version"], ["-v", "--nope"], ["--under-tests"], ["--PORT", "20001"], ["-P", "20001"]]
    for i, o in enumerate(odd):
        o = o if "20001" in o or any(x in ("-p", "--port=") for x in o) else PORT + o
        cases.append(("o%d" % i, [("start", CLEAR + o, NOENV, False), ("req", b"GET", b"/none", ())]))
    tls = [[], ["--tls-cert-path", "/w/c"], ["--tls-key-path", "/w/k"], ["--tls-cert-path", "/w/c", "--tls-key-path", "/w/k2"], ["--tls-cert-path", "/w/c2", "--tls-key-path", "/w/k2"], ["--tls-cert-path", "/w/k", "--tls-key-path", "/w/c"],
           ["--tls-cert-path", "/w/j", "--tls-key-path", "/w/k"], ["--tls-cert-path", "/w/c", "--tls-key-path", "/w/j"], ["--tls-cert-path", "/w/no", "--tls-key-path", "/w/k"], ["--tls-cert-path", "/w/c", "--tls-key-path", "/w/no"],
           ["--tls-cert-path", "/w/r", "--tls-key-path", "/w/k"], ["--tls-cert-path", "/w/r/empty.css", "--tls-key-path", "/w/r/empty.css"]]
    for i, o in enumerate(tls):
        for j, e in enumerate([NOENV, ENVTLS, {"cert": "/w/c", "key": ""}, {"cert": "/w/c2", "key": "/w/k2"}]):
            cases.append(("k%d.%d" % (i, j), [("start", PORT + o, e, False), ("req", b"GET", b"/none", ())]))
    for i in range(4):
        cases.append(("b%d" % i, [("start", (CLEAR if i % 2 else TLS) + (PORT if i < 2 else []), NOENV, True), ("start", (CLEAR if i % 2 else TLS) + (PORT if i < 2 else []), NOENV, False), ("req", b"GET", b"/none", ())]))
    run_program(c, exe, cases)
    c.sample(json.dumps(cases[0][1], default=repr)[:600])
    c.assumptions.append("the command line library CLI11 and OpenSSL work; telemetry is an inert stand-in (harness/stubs)")


def program_ends(c, R, exe):
    """for C26: the program, told to end in every way from many moments"""
    cases = []
    for i in range(N(30)):
        o = R.choice([CLEAR, TLS]) + PORT + ALL[:R.choice([5, 9])] + R.choice([[], ["-l", "trace"], ["-l", "off"]])
        ops = [("start", o, NOENV, False)]
        how = R.choice(["int", "term", "out"])
        for _ in range(R.choice([0, 1, 3])):
            ops += R.choice([asks(R, 3), [("load", R.choice([3, 12, 40]))], [("spoil", R.randrange(8))], [("pause", R.choice([0, 0.05]))], [("req", b"GET", b"/_tests/large_body", ())]])
            ops += [("req", b"GET", b"/_tests/ok", ())]
        if R.random() < 0.5:
            ops += [("load", R.choice([5, 30, 140]))]
        ops += [("sleep", R.choice([0, 0, 0.003, 0.02, 0.1])), (how,), ("end",)]
        if R.random() < 0.4:           # the port is free again
            ops += [("start", o, NOENV, False), ("req", b"GET", b"/_tests/ok", ()), ("term",), ("end",)]
        cases.append(("end%d" % i, ops))
    # nothing else ends it
    for i in range(N(8)):
        ops = [("start", [CLEAR, TLS][i % 2] + PORT + ALL[:5], NOENV, False)]
        for k in R.sample(range(8), 8):
            ops += [("spoil", k), ("pause", R.choice([0, 0.01]))]
            if R.random() < 0.3:
                ops.append(("req", b"GET", b"/_tests/ok", ()))
        cases.append(("on%d" % i, ops + [("fresh",), ("alive", 0.2), ("req", b"GET", b"/_tests/ok", ())]))
    run_program(c, exe, cases)

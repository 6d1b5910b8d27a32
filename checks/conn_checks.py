"""C03, C07-C14: one connection.  Specification: Conn.tla; design model: ConnMC; trace spec: ConnTrace."""
import hashlib
from common import *
from driver import *
from hpack_checks import both, rstr, limbs
import hpack_checks
import h2, hpack
from h2 import PREFACE, frame, settings, headers, goaway, window_update


def harness():
    return build("conn", ["conn_driver.cpp"], only=lambda s: s.startswith("lib/"))


class Route:
    def __init__(self, m, p, status=200, n=0, seed=1, thr=0, hdrs=()):
        self.m, self.p, self.status, self.n, self.seed, self.thr, self.hdrs = m, p, status, n, seed, thr, list(hdrs)

    def line(self):
        return "route %s %s %d %d %d %d %s" % (H(self.m), H(self.p), self.status, self.n, self.seed, self.thr,
                                               " ".join(H(a) + " " + H(b) for a, b in self.hdrs))

    def tla(self, i):
        return {"m": list(self.m), "p": list(self.p), "status": self.status, "hdrs": [[list(a), list(b)] for a, b in self.hdrs],
                "body": i, "len": 0 if self.thr else self.n, "thr": self.thr}


G = b"GET"
BIG = [Route(G, b"/"), Route(G, b"/s", 200, 5, 2, hdrs=[(b"content-type", b"text/plain")]), Route(G, b"/m", 200, 16256, 3),
       Route(G, b"/l", 200, 40000, 4, hdrs=[(b"x-a", b"1"), (b"x-a", b"2")]), Route(b"POST", b"/s", 201, 1, 5, hdrs=[(b"location", b"/s/1")]),
       Route(G, b"/n", 204, 0, 6), Route(G, b"/t1", thr=1), Route(G, b"/t2", thr=2), Route(G, b"/t3", thr=3), Route(G, b"/x", 599, 16257, 7),
       Route(G, b"/s", 500, 9, 8), Route(G, b"/k", 200, 16384, 9), Route(G, b"/t4", thr=4), Route(G, b"/t5", thr=5)]


class Case:
    """A script for the driver plus what the projection needs."""

    def __init__(self, name, routes=BIG):
        self.name, self.routes, self.lines = name, routes, [r.line() for r in routes]
        self.enc = hpack.Encoder(4096)
        self.next = 1
        self.log, self.ip, self.wrap = False, b"203.0.113.9", []

    def logged(self, ip=None):
        self.log = True
        self.lines.append("log")
        if ip is not None:
            self.ip = ip
            self.lines.append("ip " + H(ip))
        return self

    def __call__(self, *lines):
        self.lines += lines
        return self

    def wrapping(self, *numbers):
        self.wrap = list(numbers)
        return self("wrap " + " ".join(map(str, numbers)))

    def feed(self, *chunks):
        chunks = [c for c in chunks if c]
        if chunks:
            self.lines.append("feed " + " ".join(c.hex() for c in chunks))
        return self

    def stream(self):
        self.next += 2
        return self.next - 2

    def block(self, R, hs):
        return self.enc.best(hs, R)

    def req(self, R, method=G, path=b"/s", extra=(), **kw):
        hs = [(b":method", method), (b":scheme", b"http"), (b":path", path), (b":authority", b"h")]
        hs = [h for h in hs if h[1] is not None] + list(extra)
        st = kw.pop("stream", None) or self.stream()
        return headers(st, self.block(R, hs), **kw)

    def done(self, ref=None):
        return (self.name, self.lines, {"cfg": {"log": self.log, "ip": list(self.ip), "wrap": self.wrap, "routes": [r.tla(i + 1) for i, r in enumerate(self.routes)]},
                                        "bodies": {i + 1: h2.body_of(r.n, r.seed) for i, r in enumerate(self.routes) if r.n and not r.thr}, "ref": ref})


def project(lines, meta):
    rd = h2.Reader(meta["bodies"])
    evs, out = [], b""
    for ln in lines:
        w = ln.split()
        o = w[0]
        if o == "hs":
            e = {"op": o, "res": w[1]}
        elif o == "rd":
            e = {"op": o, "bytes": U(w[1])}
        elif o == "rerr":
            e = {"op": o, "kind": int(w[1])}
        elif o == "wr":
            d = bytes(U(w[2]))
            out += d
            e = {"op": o, "off": int(w[1]), "acc": len(d), "frames": rd.add(d), "tail": 0}
            e["tail"] = rd.tail
        elif o == "call":
            e = {"op": o, "route": int(w[1]), "m": U(w[2]), "p": U(w[3]), "hdrs": [[U(w[i]), U(w[i + 1])] for i in range(4, len(w), 2)]}
        elif o == "ret":
            e = {"op": o, "res": w[1], "avail": int(w[2])}
        elif o == "log":
            e = {"op": o, "at": int(w[1]), "line": U(w[2])}
        else:
            e = {"op": o}
        evs.append(e)
    dg = hashlib.sha256(out).hexdigest()[:24]
    if meta.get("ref") is not None:
        ref = meta["ref"]
        if ref.get("digest") is None:
            ref["digest"] = dg          # the first run of a group sets the reference
        evs.append({"op": "fin", "out": dg, "ref": ref["digest"]})
    return {"cfg": meta["cfg"], "ev": evs}


# ------------------------------------------------------------------ concrete frames for the abstract ones
def neutral(R, st=None):
    k = R.randrange(12)
    st = st if st is not None else R.choice([0, 1, 3, 5, 7, 2, 2**31 - 1, R.randrange(2**31)])
    n = R.choice([0, 1, 4, 5, 8, 9, 100, R.randint(0, 600)])
    data = bytes(R.randrange(256) for _ in range(n))
    fl = R.choice([0, 1, 4, 8, 32, 0xff, R.randrange(256)])
    rb = R.randrange(2)
    if k == 0:
        return frame(2, fl, st, data, rb)                       # PRIORITY
    if k == 1:
        return frame(3, fl, st, data, rb)                       # RST_STREAM
    if k == 2:
        return frame(6, fl, st, data, rb)                       # PING
    if k == 3:
        return frame(5, fl, st, data, rb)                       # PUSH_PROMISE
    if k == 4:
        return frame(0, fl, st, data, rb)                       # DATA
    if k in (5, 6):
        return frame(8, fl, st, data[:4].ljust(4, b"\x01"), rb)  # WINDOW_UPDATE
    if k == 7:
        return frame(4, fl | 1, R.choice([0, 0, st]), data, rb)  # SETTINGS ACK
    if k == 8 and R.random() < 0.3:
        return frame(R.choice([0, 2, 3, 5, 6, 10, 99]), fl, st, bytes(R.choice([16384, 16383, 16000])), rb)
    return frame(R.choice([10, 11, 12, 16, 32, 99, 128, 200, 255, R.randint(10, 255)]), fl, st, data, rb)


def erroneous(R, cs):
    """a frame that is a connection error; cs: the Case (its encoder state is of no use afterwards)"""
    k = R.randrange(8)
    st = cs.stream()
    fl = R.choice([0, 0, 4, 0xfe & R.randrange(256)])
    if k == 0:
        n = R.choice([16385, 16386, 20000, 65535, 65536, 2**24 - 1])
        return frame(R.choice([0, 1, 4, 6, 8, 9, 77]), fl, st, bytes(R.choice([0, 0, 10, 300])), 0, n)
    if k == 1:
        n = R.choice([1, 2, 3, 4, 5, 7, 8, 11, 13, 100, 1000])
        return frame(4, fl & ~1, 0, bytes([0, 3, 0, 0, 0, 9] * 200)[:n if n % 6 else n + 1])
    if k == 2:
        return frame(8, fl, R.choice([0, st]), bytes(R.choice([0, 1, 2, 3, 5, 8, 100])))
    if k == 3:
        p = cs.block(R, [(b":method", G), (b":path", b"/s")])
        pad = R.choice([len(p) + 1, len(p) + 2, 255])
        return frame(1, 4 | 1 | 8, st, bytes([pad]) + p)
    if k == 4:
        n = R.randint(0, 4)
        return frame(1, 4 | 1 | 32, st, bytes(n)) if R.random() < 0.6 else frame(1, 4 | 1 | 8 | 32, st, bytes([0] * R.randint(1, 5)))
    if k == 5:
        return frame(1, 4 | 1 | 8, st, b"")
    bad = R.choice(["80", "ff8000", "c6", "be" if not cs.enc.ents else "ff80ff", "0005", "418c", "4003", "7f", "3fe2ff7f", "ffffffffffff", "8286" + "84" + "ff00",
                    "00017882" + "0000", "0001788" + "4ffffffff"])
    return headers(st, (cs.block(R, [(b":method", G), (b":path", b"/s")]) if R.random() < 0.5 else b"") + bytes.fromhex(bad))


def dense(R, cs, n):
    """n frames that ask for nothing (or for little) and are as short as can be, and a request after them"""
    k = R.randrange(4)
    if k == 0:
        d = b"".join(frame(R.choice([2, 6, 0, 3, 10, 200]), R.choice([0, 1]), R.choice([0, 1]), b"") for _ in range(n))
    elif k == 1:
        d = frame(6, 0, 0, b"12345678") * n
    elif k == 2:
        d = frame(8, 0, 0, b"\0\0\1\0") * (n - 1) + frame(8, 0, 1, b"\xff\xff\xff\xff")
    else:
        d = b"".join(R.choice([frame(2, 0, 1, b"\0\0\0\0\1"), frame(4, 1, 0, b""), frame(99, 0, 0, b"")]) for _ in range(n))
    return d + cs.req(R)


ANY = [(b"GET", b"/s"), (b"GET", b"/"), (b"POST", b"/s"), (b"GET", b"/n"), (b"GET", b"/none"), (b"PUT", b"/s"), (b"GET", b"/t1"), (b"GET", b"/s?x=1")]
LONG = [(b"GET", b"/l"), (b"GET", b"/x"), (b"GET", b"/m"), (b"GET", b"/k")]


def extras(R):
    r = []
    for _ in range(R.choice([0, 0, 1, 2, 4])):
        r.append((R.choice([b"user-agent", b"accept", b"x-%d" % R.randrange(5), b"cookie", b"referer"]), rstr(R, R.choice([0, 1, 5, 20, 60, 150]), R.choice(["alpha", "any"]))))
    return r


def request(R, cs, mp):
    kw = {}
    if R.random() < 0.25:
        kw["pad"] = R.choice([0, 1, 7, 100, 255])
    if R.random() < 0.2:
        kw["prio"] = bytes(R.randrange(256) for _ in range(5))
    if R.random() < 0.1:
        kw["rbit"] = 1
    if R.random() < 0.2:
        kw["end"] = False
    if R.random() < 0.15:
        kw["flags"] = R.choice([0x40, 0x80, 0x10, 0x02, 0xd2])
    return cs.req(R, mp[0], mp[1], extras(R), **kw)


def sett(R):
    k = R.random()
    if R.random() < 0.15:
        return settings(*[(R.choice([2, 3, 6]), 1)] * R.randrange(3), flags=R.choice([2, 4, 8, 0x20, 0x40, 0x80, 0xfe]))     # undefined flags mean nothing
    if k < 0.3:
        return settings()
    if k < 0.55:
        return settings((1, R.choice([0, 1, 33, 64, 100, 200, 4095, 4096, 4097, 8192, 65536, 2**31, 2**32 - 1])))
    if k < 0.7:
        return settings((1, R.choice([0, 50, 100, 4096])), (4, 65535), (1, R.choice([0, 80, 300, 4096, 10000])))
    return settings((2, 0), (3, R.randrange(2**32)), (4, R.randrange(2**31)), (R.choice([6, 9, 0xf000, 0, 257]), R.randrange(2**32)))


def concrete(R, cs, kind):
    if kind == "P":
        return PREFACE
    if kind == "S":
        return sett(R)
    if kind == "R":
        return request(R, cs, R.choice(ANY))
    if kind == "L":
        return request(R, cs, R.choice(LONG))
    if kind == "N":
        return neutral(R)
    if kind == "E":
        return erroneous(R, cs)
    return goaway(R.randrange(2**31), R.choice([0, 0, 1, 2, 11]), bytes(R.choice([0, 0, 5, 40])))


def cutup(R, b, mode):
    """split octets into reads"""
    if not b:
        return []
    if mode == 0:
        return [b]
    if mode == 1:
        return [b[i:i + 1] for i in range(len(b))]
    out, i = [], 0
    while i < len(b):
        n = R.choice([1, 2, 3, 5, 8, 9, 10, 17, 24, 33, 100, 1000, 16384]) if mode == 2 else R.randint(1, max(1, len(b) // 2))
        out.append(b[i:i + n])
        i += n
    return out


CAP = {0: lambda R: ["wdef 0"], 99: lambda R: ["wdef -1"],
       1: lambda R: ["w %d" % R.choice([1, 2, 8, 9, 10, 12, 26, 27, 30, 100, 5000, 16265, 16264, 16266]), "wdef 0"]}


def replay(R, i, b, prefix="g", atomic=False):
    """a behaviour of ConnMC as a script for the driver"""
    cs = Case("%s%d" % (prefix, i))
    if atomic:
        cs("atomic 1")
    units = []
    for kd in b["script"]:
        f = concrete(R, cs, kd)
        k = R.choice([1, len(f) - 1, min(9, len(f) - 1), min(8, len(f) - 1), R.randint(1, len(f) - 1)])
        units += [f[:k], f[k:]]
    for n, cl in enumerate(b["calls"]):
        new, units = units[:cl["arrive"]], units[cl["arrive"]:]
        data = b"".join(new)
        cs.feed(*cutup(R, data, R.choice([0, 0, 2, 3]) if len(data) < 4000 else 0))
        if cl["fault"] == "eof":
            cs("eof")
        elif cl["fault"] == "rerr":
            cs("rerr protocol")
        elif cl["fault"] == "werr":
            cs("werr " + R.choice(["write", "closed", "other", "protocol"]))
        cs(*CAP[cl["cap"]](R))
        cs("proc")
    return cs.done()


def random_session(R, name, n, kinds="RRRLSNN", mode=None, faults=False, atomic=None, routes=BIG, cap=None):
    """frames of the given kinds, cut at random, with random output acceptance; driven to the end"""
    cs = Case(name, routes)
    if atomic if atomic is not None else R.random() < 0.3:
        cs("atomic 1")
    if R.random() < 0.15:
        cs("hs block block")("proc 2")
    data = PREFACE + b"".join(concrete(R, cs, k) for k in ["S"] + [R.choice(kinds) for _ in range(n)])
    m = mode if mode is not None else R.choice([0, 2, 3, 3])
    for ch in cutup(R, data, m):
        cs.feed(ch)
        if R.random() < 0.3:
            cs("gap")
        if R.random() < 0.4:
            cs(*CAP[R.choice([0, 1, 1, 99, 99]) if cap is None else cap](R))
            cs("proc")
    if faults:
        cs(R.choice(["eof", "rerr protocol", "rerr other", "werr write", "werr closed", "rerr closed", "rerr write"]))
        cs("proc 2")
    cs("wdef -1", "drain" if not faults else "eof\nproc 3")
    return cs.done()


def model(c, num):
    if THOROUGH:
        tlc_check("ConnMC", over={"MaxFrames": "5", "MaxCalls": "4"}, timeout=1500)
    else:
        tlc_check("ConnMC")
    return behaviours("ConnMC", "ConnGen.cfg", num=num * (8 if THOROUGH else 1), depth=120)


def go(c, cases, want=None, beh=None):
    exe = c.exe
    tr = decide(c, "ConnTrace", exe, cases, project)
    evs = [e for t in tr.values() for e in t["ev"]]
    c.cov["events"] = len(evs)
    c.cov["handler_calls"] = sum(e["op"] == "call" for e in evs)
    c.cov["frames_sent"] = sum(len(e["frames"]) for e in evs if e["op"] == "wr")
    c.cov["returns"] = {k: sum(e["op"] == "ret" and e["res"] == k for e in evs) for k in ("WR", "WW", "DC")}
    c.cov["blocked_writes"] = sum(e["op"] == "wblock" or (e["op"] == "wr" and e["acc"] < e["off"]) for e in evs)
    c.sample(" ; ".join(l for l in cases[0][1] if not l.startswith("route"))[:500])
    c.sample(" ; ".join(l for l in cases[-1][1] if not l.startswith("route"))[:500])
    c.assumptions.append("the transport behaves like TCP or TLS behind ion::Transport (harness/conn_driver.cpp); TcpTransport and TlsTransport are judged in C29 and C30")
    return tr


def start(c, num):
    c.exe, beh = both(harness, lambda: model(c, num))
    return beh


def N(k):
    return k * (8 if THOROUGH else 1)


def C07(c):
    beh = start(c, 200)
    R = rng("C07")
    cases = [replay(R, i, b, atomic=i % 3 == 0) for i, b in enumerate(beh)]
    # the same input cut up in many ways has to give the same output
    for g in range(N(14)):
        ref = {}
        kinds = [R.choice("RRLSNN") for _ in range(R.choice([2, 4, 6]))] + ([R.choice("E")] if R.random() < 0.3 else [])
        cs0 = Case("x")
        data = PREFACE + b"".join(concrete(R, cs0, k) for k in ["S"] + kinds)
        for v in range(8):
            cs = Case("s%d.%d" % (g, v))
            if v % 4 == 3:
                cs("atomic 1")
            mode = [0, 1, 2, 3, 2, 3, 2, 3][v]
            if mode == 1 and len(data) > 3000:
                mode = 2
            if v == 0:
                cs.feed(data)("proc 3")
            else:
                for ch in cutup(R, data, mode):
                    cs.feed(ch)
                    if R.random() < 0.3:
                        cs("gap")
                    if v >= 4 and R.random() < 0.5:
                        cs(*CAP[R.choice([0, 1, 1, 99])](R))
                    if R.random() < (0.5 if mode != 1 else 0.1):
                        cs("proc")
                if v >= 4:
                    cs("wdef %d" % R.choice([1000, 777, 16384, 9]), "proc %d" % 30)
                cs("wdef -1", "drain")
            cases.append(cs.done(ref))
    cases += [random_session(R, "r%d" % i, R.choice([3, 8, 15])) for i in range(N(60))]
    # frames near the maximum length, of which nearly all arrives before the rest does
    for i in range(N(20)):
        cs = Case("big%d" % i)
        cs.feed(PREFACE + settings() + (cs.req(R) if i % 2 else b""))("proc 2")
        for _ in range(R.choice([1, 2])):
            n = R.choice([16384, 16384, 16383, 16380, 16376, 16375, 16300])
            data = frame(R.choice([0, 2, 5, 6, 42]), 0, 1, bytes(n)) if R.random() < 0.7 else b""
            if not data:
                data = cs.req(R, extra=[(b"x-%d" % k, b"v" * 4000) for k in range(4)], pad=R.choice([None, 255]))
            cut = R.choice([16384, 16384, 16383, 16385, 16392, len(data) - 1, len(data) - R.randint(1, 20), R.randint(1, len(data) - 1)])
            cs.feed(data[:cut])("gap")("proc")
            if R.random() < 0.3:
                cs.feed(data[cut:cut + 1])("proc")
                cut += 1
            cs.feed(data[cut:] + (cs.req(R) if R.random() < 0.5 else b""))("proc")
        cs.feed(cs.req(R))("proc 2")
        cases.append(cs.done())
    # very many frames in one piece
    for i, n in enumerate((50, 300, 700, 1500)):
        ref = {}
        cs0 = Case("x")
        data = PREFACE + settings() + dense(R, cs0, n) + cs0.req(R, path=b"/none")
        for v in range(2):
            cs = Case("dense%d.%d" % (n, v))
            for ch in cutup(R, data, 3 if v else 0):
                cs.feed(ch)("proc" if v else "gap")
            cs("proc 2")
            cases.append(cs.done(ref))
    # one octet at a time, both ways
    for i in range(N(3)):
        cs = Case("o%d" % i)
        data = PREFACE + settings() + cs.req(R) + cs.req(R, path=b"/none") + settings((1, 100)) + cs.req(R, path=b"/s")
        for k in range(len(data)):
            cs.feed(data[k:k + 1])("proc")
        cases.append(cs.done())
        cs = Case("w%d" % i)
        cs.feed(PREFACE + settings() + cs.req(R) + cs.req(R, path=b"/none") + cs.req(R, path=b"/s"))("wdef 1", "proc 900", "wdef -1", "proc 3")
        cases.append(cs.done())
    go(c, cases)
    c.cov["model_behaviours_replayed"] = len(beh)


def C08(c):
    beh = start(c, 120)
    R = rng("C08")
    cases = [replay(R, i, b) for i, b in enumerate(beh)]
    # body sizes around every chunk boundary, statuses, handler headers
    sizes = [0, 1, 2, 127, 128, 16255, 16256, 16257, 16383, 16384, 16385, 2 * 16256 - 1, 2 * 16256, 2 * 16256 + 1, 2 * 16384, 3 * 16256, 65535, 65536, 65537, 100000]
    if THOROUGH:
        sizes += [200000, 500000, 1000000, 16256 * 7, 16256 * 7 + 1] + [R.randint(1, 70000) for _ in range(40)]
    for k, n in enumerate(sizes):
        rts = [Route(G, b"/a", R.choice([200, 201, 404, 503, 999, 100]), n, k + 1, hdrs=[(b"x-%d" % j, rstr(R, 5)) for j in range(R.randint(0, 3))]),
               Route(G, b"/b", 200, R.choice(sizes[:8]), 77)]
        cs = Case("z%d" % n, rts)
        cs.feed(PREFACE + settings() + cs.req(R, path=b"/a") + cs.req(R, path=b"/b") + cs.req(R, path=b"/a"))
        if k % 2:
            cs("wdef %d" % R.choice([5000, 16384, 20000, 99999]), "proc 60", "wdef -1")
        cs("proc 3")
        cases.append(cs.done())
    # every kind of status, with and without a body, for every kind of method
    codes = [100, 101, 103, 199, 200, 201, 202, 203, 204, 205, 206, 226, 299, 300, 301, 302, 303, 304, 307, 308, 399, 400, 401, 403, 404, 405, 408, 413, 416, 418, 421, 429, 431, 451, 499, 500, 501, 502, 503, 504, 511, 599, 600, 999, 1000, 65535, 0, 1, 99]
    for k in range(0, len(codes), 7):
        rts, cs, data = [], Case("st%d" % k), PREFACE + settings()
        for j, code in enumerate(codes[k:k + 7]):
            for m, n in ((G, 0), (b"POST", 20), (b"HEAD", 21), (b"OPTIONS", 3), (b"CONNECT", 1), (b"DELETE", 0), (b"HEAD ", 5)):
                rts.append(Route(m, b"/%d" % code, code, n, k + j))
        cs = Case("st%d" % k, rts)
        for r in R.sample(rts, len(rts)):
            data += cs.req(R, r.m, r.p)
        cs.feed(data)("proc 3")
        cases.append(cs.done())
    # headers that a handler might as well leave to the server, odd names, duplicates
    names = [b"content-length", b"server", b"x-powered-by", b":status", b"date", b"content-type", b"connection", b"transfer-encoding", b"Content-Length", b"X-Up", b"", b"set-cookie", b"trailer", b"a b", b"\xff"]
    rts = [Route(G, b"/h%d" % k, 200, k % 3, k + 1, hdrs=[(nm, v) for v in (b"1", b"", b"7", b"1")[:1 + k % 4]] + [(R.choice(names), rstr(R, 4)) for _ in range(k % 4)]) for k, nm in enumerate(names)]
    for v in range(2):
        cs = Case("names%d" % v, rts)
        cs.feed(PREFACE + settings() + b"".join(cs.req(R, path=b"/h%d" % R.randrange(len(rts))) for _ in range(40)))("proc 3")
        cases.append(cs.done())
    # stream identifiers
    for st in (1, 3, 255, 256, 65535, 65537, 2**24 - 1, 2**24 + 1, 2**31 - 1):
        cs = Case("id%d" % st)
        cs.feed(PREFACE + settings() + cs.req(R, stream=st) + cs.req(R, stream=st, path=b"/l", rbit=1))("proc 2")
        cases.append(cs.done())
    # header blocks larger than a frame
    for k, (cnt, ln) in enumerate(((5, 3900), (9, 3000), (60, 500), (1, 16384), (1, 16500), (2, 20000), (1, 40000))):
        rts = [Route(G, b"/a", 200, 10, 3, hdrs=[(b"x-%d" % j, rstr(R, ln, R.choice(["alpha", "any"]))) for j in range(cnt)]), Route(G, b"/b", 200, 0, 3)]
        cs = Case("hb%d" % k, rts)
        cs.feed(PREFACE + settings() + cs.req(R, path=b"/a") + cs.req(R, path=b"/b") + cs.req(R, path=b"/a"))("proc 2")
        cases.append(cs.done())
    for i in range(N(40)):
        cases.append(random_session(R, "r%d" % i, R.choice([5, 10, 25]), "RRRRL"))
    # many requests delivered at once
    for i in range(N(3)):
        cs = Case("burst%d" % i)
        cs.feed(*cutup(R, PREFACE + settings() + b"".join(request(R, cs, R.choice(ANY)) for _ in range(150)), R.choice([0, 2])))("proc 3")
        cases.append(cs.done())
    go(c, cases)


def C09(c):
    beh = start(c, 100)
    R = rng("C09")
    cases = [replay(R, i, b) for i, b in enumerate(beh)]
    rq = Case("x").req(R)
    # the preface cut at every place, with and without frames behind it
    for k in range(0, 25):
        cs = Case("cut%d" % k)
        cs("proc").feed(PREFACE[:k])("proc").feed(PREFACE[k:])("proc").feed(settings() + rq)("proc 2")
        cases.append(cs.done())
        cs = Case("cutf%d" % k)
        cs.feed(PREFACE[:k])("gap", "proc").feed(PREFACE[k:] + settings() + rq)("proc 2")
        cases.append(cs.done())
    # one wrong octet anywhere
    for k in range(24):
        for d in (1, 0x20, 0x80):
            bad = bytearray(PREFACE)
            bad[k] ^= d
            cs = Case("bad%d.%d" % (k, d))
            cs.feed(bytes(bad) + settings() + rq)("proc 2")
            cases.append(cs.done())
    for k, bad in enumerate((b"GET / HTTP/1.1\r\nHost: x\r\n\r\n", settings() + rq, b"\x16\x03\x01\x02\x00" + bytes(60), PREFACE[1:] + b"x" + rq, b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r" + rq,
                             PREFACE[:18] + rq + rq, PREFACE.lower() + rq, PREFACE[:16] + PREFACE + rq)):
        for cut in (0, 2):
            cs = Case("alien%d.%d" % (k, cut))
            cs.feed(*cutup(R, bad, cut))("proc 3")
            cases.append(cs.done())
    # preface repeated, late, without SETTINGS
    cs = Case("twice")
    cs.feed(PREFACE + rq)("proc", "proc").feed(settings())("proc")
    cases.append(cs.done())
    # SETTINGS of every kind, many of them, between requests, with acks
    for i in range(N(40)):
        cs = Case("set%d" % i)
        data = PREFACE
        for _ in range(R.choice([1, 3, 10])):
            data += sett(R)
            if R.random() < 0.3:
                data += settings(ack=True, flags=R.choice([0, 0, 2, 4, 8, 0x40, 0xfe]))
            if R.random() < 0.5:
                data += request(R, cs, R.choice(ANY))
        cs.feed(*cutup(R, data, R.choice([0, 2, 3])))
        if R.random() < 0.5:
            cs(*CAP[R.choice([0, 1])](R))("proc 2", "wdef -1")
        cs("proc 3")
        cases.append(cs.done())
    cs = Case("bigset")
    cs.feed(PREFACE + settings(*[(R.choice([1, 2, 3, 4, 5, 6, 77]), R.choice([0, 1, 100, 4096])) for _ in range(2730)]) + cs.req(R))("proc 2")
    cases.append(cs.done())
    # handshake still going on
    for k in (1, 3):
        cs = Case("hs%d" % k)
        cs("hs " + "block " * k).feed(PREFACE + settings() + rq)("proc %d" % (k + 2))
        cases.append(cs.done())
    go(c, cases)


def C10(c):
    beh = start(c, 100)
    R = rng("C10")
    cases = [replay(R, i, b) for i, b in enumerate(beh)]
    for i in range(N(260)):
        cs = Case("e%d" % i)
        if R.random() < 0.25:
            cs("atomic 1")
        data = PREFACE + (settings() if R.random() < 0.8 else b"")
        for _ in range(R.choice([0, 0, 1, 2, 4])):
            data += concrete(R, cs, R.choice("RRLSN"))
        err = erroneous(R, cs)
        cs2 = Case("y")
        after = b"".join(concrete(R, cs2, R.choice("RRSG")) for _ in range(R.choice([0, 1, 3])))
        how = R.randrange(4)
        if how == 0:
            cs.feed(data + err + after)
        elif how == 1:
            cs.feed(data)("proc").feed(err)("proc").feed(after)
        elif how == 2:
            cs.feed(*cutup(R, data + err + after, 3))
        else:
            k = R.randint(1, len(err))
            cs.feed(data + err[:k])("proc").feed(err[k:] + after)
        if R.random() < 0.35:
            cs(*CAP[R.choice([0, 1])](R))
            cs("proc 2", "w %d" % R.choice([1, 5, 9, 17, 100, 9999]), "proc")
        cs("wdef -1", "proc 4")
        cases.append(cs.done())
    # every bad length of every checked frame, alone
    bad = [("set%d" % n, frame(4, 0, 0, bytes(n))) for n in range(1, 40) if n % 6] + [("set%d" % n, frame(4, 0, 0, bytes(n))) for n in (16384, 16383, 6 * 2730 + 1)] + \
          [("wu%d" % n, frame(8, 0, 0, bytes(n))) for n in list(range(0, 20)) + [16384] if n != 4] + \
          [("len%d.%d" % (t, n), frame(t, 0, 1, b"", 0, n)) for t in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 255) for n in (16385, 16384 + 256, 2**16, 2**24 - 1)] + \
          [("pad%d.%d" % (n, p), frame(1, 13, 1, bytes([p]) + bytes.fromhex("828684")[:n])) for n in range(0, 4) for p in range(n + 1, n + 3)] + \
          [("prio%d" % n, frame(1, 0x25, 1, bytes(n))) for n in range(0, 5)] + [("pp%d" % n, frame(1, 0x2d, 1, bytes(n))) for n in range(0, 6)] + \
          [("pp6.%d" % p, frame(1, 0x2d, 1, bytes([p]) + bytes(5) + b"\x82\x84\x87")) for p in (4, 5, 255)]
    good = [("gset%d" % n, settings(*[(3, 1)] * n)) for n in (0, 1, 2, 2730)] + [("gpad%d" % n, frame(1, 13, 1, bytes([n]) + b"\x82\x84\x87" + bytes(n))) for n in (0, 1, 255)] + \
           [("gpp%d" % p, frame(1, 0x2d, 1, bytes([p]) + bytes(5) + b"\x82\x84\x87" + bytes(p))) for p in (0, 3)] + [("gpa%d" % p, frame(1, 13, 1, bytes([p]) + bytes(p))) for p in (0, 1, 9)] + \
           [("g16384", frame(0, 0, 1, bytes(16384)))]
    for nm, f in bad + good:
        cs = Case(nm)
        cs.feed(PREFACE + settings() + cs.req(R, stream=101) + f + cs.req(R, stream=103, path=b"/"))("proc 4")
        cases.append(cs.done())
    go(c, cases)


def C11(c):
    beh = start(c, 60)
    R = rng("C11")
    cases = [replay(R, i, b) for i, b in enumerate(beh)]
    # every type, with and without every single flag, some lengths
    for t in [0, 2, 3, 5, 6] + list(range(10, 256, 1 if THOROUGH else 9)):
        cs = Case("type%d" % t)
        data = PREFACE + settings()
        for n in (0, 1, 4, 5, 8, 16384 if t in (0, 6, 10) else 9):
            for fl in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255) if n < 10 else (0, 255):
                data += frame(t, fl, R.choice([0, 1, 99, 2**31 - 1]), bytes(R.randrange(256) for _ in range(n)), R.randrange(2))
            data += request(R, cs, R.choice(ANY))
        cs.feed(*cutup(R, data, R.choice([0, 3])))("proc 3")
        cases.append(cs.done())
    # the same requests with and without noise give the same output
    for g in range(N(10)):
        ref = {}
        for v in range(4):
            r1 = rng("C11r%d" % g)
            cs = Case("q%d.%d" % (g, v))
            data = PREFACE + settings()
            for _ in range(6):
                data += request(r1, cs, r1.choice(ANY + LONG[:1]))
                for _ in range(R.choice([0, 1, 4]) if v else 0):
                    data += neutral(R)
            cs.feed(*cutup(R, data, 3 if v % 2 else 0))("proc 3")
            cases.append(cs.done(ref))
    # many of them at once, and then a request
    for n in (64, 200, 500, 1100, 1700) + ((4000, 9000) if THOROUGH else ()):
        for v in range(2):
            cs = Case("dense%d.%d" % (n, v))
            cs.feed(PREFACE + settings() + (dense(R, cs, n) if v else b""))("proc 2")
            cs.feed(dense(R, cs, n))("proc 2")
            cases.append(cs.done())
    # padding, priority, flags, reserved bit: the request stays the same
    for i in range(N(40)):
        cs = Case("p%d" % i)
        data = PREFACE + settings()
        for _ in range(8):
            data += request(R, cs, R.choice(ANY)) + (neutral(R) if R.random() < 0.6 else b"")
        cs.feed(*cutup(R, data, R.choice([0, 2, 3])))("proc 3")
        cases.append(cs.done())
    for fl in range(256):
        if fl & 4 and not fl & 0x28:
            cs = Case("fl%d" % fl)
            cs.feed(PREFACE + settings() + frame(1, fl, 1, b"\x82\x84\x87", fl & 1) + cs.req(R, stream=3))("proc 2")
            cases.append(cs.done())
    for pad in range(0, 256, 1 if THOROUGH else 15):
        cs = Case("pd%d" % pad)
        cs.feed(PREFACE + settings() + cs.req(R, pad=pad, extra=[(b"x", b"y" * (pad % 7))]) + cs.req(R, pad=pad, prio=b"\x80\x00\x00\x01\xff") + cs.req(R))("proc 2")
        cases.append(cs.done())
    go(c, cases)


def C12(c):
    beh = start(c, 250)
    R = rng("C12")
    cases = [replay(R, i, b, atomic=i % 2 == 0) for i, b in enumerate(beh)]
    # a reader that accepts little, while a lot of input waits
    for i in range(N(30)):
        cs = Case("slow%d" % i)
        if i % 3 == 0:
            cs("atomic 1")
        n = R.choice([20, 60, 120])
        data = PREFACE + settings() + b"".join(request(R, cs, R.choice(ANY + LONG)) for _ in range(n))
        cs.feed(*cutup(R, data, R.choice([0, 2])))
        for _ in range(R.choice([5, 20])):
            cs(*CAP[R.choice([0, 1, 1, 99])](R))
            cs("wdef 0", "proc")
        cs("wdef -1", "proc 3")
        cases.append(cs.done())
    # much more input than the read buffer takes
    for i in range(N(6)):
        cs = Case("flood%d" % i)
        data = PREFACE + settings()
        while len(data) < (150000 if i < 4 else 90000):
            data += request(R, cs, R.choice(ANY)) if R.random() < 0.5 else frame(R.choice([0, 6, 99]), 0, 1, bytes(R.choice([16384, 9000, 100])))
        cs.feed(*cutup(R, data, 0 if i % 2 else 3))("wdef 0", "proc 3", "w 4000", "proc", "w 20", "proc", "wdef -1", "proc 3")
        cases.append(cs.done())
    # more frames at once than any sensible bound on the work done in one go
    for i, n in enumerate((40, 130, 260, 520, 1030, 1600)):
        cs = Case("dense%d" % n)
        cs.feed(PREFACE + settings())("proc")
        cs.feed(b"".join(cs.req(R, path=R.choice([b"/s", b"/none"])) for _ in range(n // 4)) if i % 2 else b"".join(settings() for _ in range(n)) + cs.req(R))("proc")
        cs.feed(dense(R, cs, n))("proc")
        cases.append(cs.done())
    # blocked at every octet of a response
    rts = [Route(G, b"/s", 200, 5, 2)]
    for k in range(1, 110, 1 if THOROUGH else 3):
        cs = Case("at%d" % k, rts)
        cs.feed(PREFACE + settings() + cs.req(R) + cs.req(R))("w %d" % k, "wdef 0", "proc 3").feed(cs.req(R))("proc", "w 1", "proc", "wdef -1", "proc 2")
        cases.append(cs.done())
    go(c, cases)


def C13(c):
    import server_checks as sv
    beh = start(c, 250)
    c.net = sv.harness()
    R = rng("C13")
    cases = [replay(R, i, b) for i, b in enumerate(beh)]
    # departure at every octet of a short session
    cs0 = Case("x")
    data = PREFACE + settings() + cs0.req(R) + cs0.req(R, path=b"/none") + goaway()
    for k in range(0, len(data), 1 if THOROUGH else 2):
        for f in ("eof", "rerr protocol") if k % 3 else ("eof", "rerr protocol", "rerr closed", "rerr other", "rerr write"):
            cs = Case("at%d.%s" % (k, f[-5:].strip().replace(" ", "")))
            if k % 2:
                cs.feed(data[:k])("proc", f, "proc")
            else:
                cs.feed(data[:k])(f, "proc")
            if f in ("rerr other", "rerr write"):
                cs("eof", "proc")
            cases.append(cs.done())
    # failure of every write of a session, with every kind of error, after partial progress
    for k in range(0, 12):
        for f in ("write", "closed", "other", "protocol"):
            cs = Case("w%d.%s" % (k, f))
            cs.feed(PREFACE)("proc").feed(settings())("proc").feed(cs.req(R, path=b"/l"))
            for j in range(k):
                cs("w %d" % R.choice([1, 9, 5000, 16000]), "wdef 0", "proc")
            cs("werr " + f, "proc", "wdef -1", "proc")
            cases.append(cs.done())
    # handshake outcomes
    for k, h in enumerate(("closed", "protocol", "other", "write", "block closed", "block block protocol", "block other")):
        cs = Case("h%d" % k)
        cs("hs " + h).feed(PREFACE + settings())("proc 4")
        cases.append(cs.done())
    # GOAWAY at any place, with blocked output, with requests behind it
    for i in range(N(80)):
        cs = Case("ga%d" % i)
        d = PREFACE + settings()
        for _ in range(R.choice([0, 1, 3])):
            d += concrete(R, cs, R.choice("RLSN"))
        d += concrete(R, cs, "G")
        for _ in range(R.choice([0, 1, 3])):
            d += concrete(R, cs, R.choice("RLSNEG"))
        cs.feed(*cutup(R, d, R.choice([0, 0, 2, 3])))
        for _ in range(R.choice([0, 0, 2, 4])):
            cs(*CAP[R.choice([0, 1])](R))
            cs("proc")
        if R.random() < 0.3:
            cs(R.choice(["eof", "werr write"]))
        cs("wdef -1", "proc 4")
        cases.append(cs.done())
    cases += [random_session(R, "r%d" % i, R.choice([2, 5, 9]), faults=True) for i in range(N(60))]
    # server-side close
    for i in range(4):
        cs = Case("close%d" % i)
        cs.feed(PREFACE + settings() + cs.req(R, path=b"/l"))
        cs("w 20", "wdef 0" if i % 2 else "wdef -1", "proc", "close", "proc", "wdef -1", "proc 3")
        cases.append(cs.done())
    go(c, cases)
    import server_checks as sv
    c.cov["connection_events"] = c.cov.pop("events")
    sv.go(c, departures(R))


def departures(R):
    """Clients of the whole server that leave or fail at any point of their history, among others that stay."""
    import server_checks as sv
    out = []

    def scene(name, act):
        for when in ("backlog", "before", "with", "late"):
            s = sv.Srv("%s.%s" % (name, when))
            s("ord %s %d" % (R.choice(["asc", "desc", "lru", "rnd"]), R.randrange(1000)))
            good = s.hello(R)
            if when != "backlog":
                s("settle")
            act(s, when)
            s.ask(R, good, R.choice([b"/s", b"/l"]))("settle")
            s.ask(R, s.connect())("settle")
            out.append(s.done())
    # at every octet of a session, by end of stream or reset; in the backlog, before and after what was
    # sent is read, and in the midst of a round
    probe = sv.Client(1)
    data = probe.opening(R, probe.req(R)) + probe.req(R, b"/l") + probe.req(R, b"/none")
    for k in range(0, len(data), 1 if THOROUGH else 4):
        for how in ("fin", "rst"):
            def act(s, when):
                x = s.connect()
                if when == "before":
                    s("settle")
                if k:
                    s("feed %d %s" % (x.k, data[:k].hex()))
                if when == "with":
                    s("go")
                s(("late " if when == "late" else "") + "%s %d" % (how, x.k))
                if when == "late":
                    s("go")
            scene("%s%d" % (how, k), act)
    # with output pending, after any number of octets of it
    for i in range(N(40)):
        s = sv.Srv("out%d" % i)
        good = s.hello(R)
        xs = [s.connect() for _ in range(3)]
        for x in xs:
            if R.random() < 0.3:
                s("rst %d" % x.k if R.random() < 0.5 else "fin %d" % x.k)
                continue
            s("room %d %d" % (x.k, R.choice([0, 1, 9, 40, 200, 5000])))
            s.ask(R, x, R.choice([b"/h", b"/l", b"/s"]))
            for _ in range(R.choice([0, 1, 2])):
                s.ask(R, x, R.choice([b"/l", b"/s"]))
            s("go %d" % R.choice([1, 2, 3]))
            if R.random() < 0.3:
                s("room %d %d" % (x.k, R.choice([1, 60, 6000])))
                s("go")
            k = R.randrange(4)
            if k == 0:
                s.feed(x, R, goaway())
            else:
                s("%s%s %d" % ("late " if R.random() < 0.3 else "", "fin" if k == 1 else "rst", x.k))
            s("room %d -1" % x.k if R.random() < 0.5 else "go")
        s.ask(R, good, b"/l")("settle")
        out.append(s.done())
    # descriptors of clients that are gone report errors before they are ever read
    for i in range(N(20)):
        s = sv.Srv("gone%d" % i)
        good = s.hello(R)
        s("settle")
        for _ in range(R.choice([1, 3, 6])):
            x = s.connect(pre=R.choice(["", "late "]))
            s("%s %d" % (R.choice(["rst", "rst", "fin"]), x.k))
            if R.random() < 0.3:
                s("fail %s %d" % (R.choice(["getpeername", "setsockopt"]), 107))
            if R.random() < 0.4:
                s.ask(R, good)("go")
        s.ask(R, good)("settle")
        out.append(s.done())
    out += [sv.traffic(R, "t%d" % i, 8, 50, "rrlfxfxwo") for i in range(N(15))]
    return out


def C14(c):
    beh = start(c, 60)
    R = rng("C14")
    cases = [replay(R, i, b) for i, b in enumerate(beh)]
    odd = [(b"GET", None), (None, b"/s"), (None, None), (b"GET", b""), (b"", b"/s"), (b"get", b"/s"), (b"GET", b"/S"), (b"GET", b"/s/"), (b"GET", b"s"), (b"G", b"/s"),
           (b"GET ", b"/s"), (b"GET", b"/s\x00"), (b"GET", b"/s?"), (b"HEAD", b"/s"), (b"OPTIONS", b"*"), (b"GET", b"/%73"), (b"GET", b"/" * 3000), (b"\xff\x00", b"\xff")]
    thr = [(G, b"/t%d" % k) for k in (1, 2, 3, 4, 5)]
    for i in range(N(90)):
        cs = Case("f%d" % i)
        if R.random() < 0.3:
            cs.wrapping(*{R.randint(1, 8) for _ in range(R.choice([1, 2, 4]))})
        data = PREFACE + settings()
        for _ in range(R.choice([3, 6, 12])):
            k = R.random()
            if k < 0.35:
                data += cs.req(R, *R.choice(thr))
            elif k < 0.7:
                m, p = R.choice(odd)
                data += cs.req(R, m, p, extras(R))
            elif k < 0.75:
                data += headers(cs.stream(), cs.block(R, extras(R)))          # no pseudo headers at all, perhaps empty
            elif k < 0.8:
                data += headers(cs.stream(), cs.block(R, [(b"x", b"y"), (b":path", b"/s"), (b":method", b"GET"), (b":path", b"/t1"), (b":method", b"PUT")]))
            else:
                data += request(R, cs, R.choice(ANY + LONG))
        cs.feed(*cutup(R, data, R.choice([0, 2, 3])))
        if R.random() < 0.4:
            cs(*CAP[R.choice([0, 1])](R))("proc 2", "wdef -1")
        cs("proc 3")
        cases.append(cs.done())
    for m, p in odd + thr:
        cs = Case("one%d" % len(cases))
        cs.feed(PREFACE + settings() + cs.req(R, m, p))("proc 2").feed(cs.req(R))("proc").feed(cs.req(R, m, p) + cs.req(R, path=b"/l"))("proc 2")
        cases.append(cs.done())
    # no routes at all; a handler's own error statuses
    cs = Case("none", [])
    cs.feed(PREFACE + settings() + cs.req(R) + cs.req(R, path=b"/"))("proc 2")
    cases.append(cs.done())
    rts = [Route(G, b"/%d" % s, s, R.choice([0, 3]), s) for s in (400, 404, 405, 500, 501, 503, 418)] + [Route(G, b"/t1", thr=1)]
    cs = Case("own", rts)
    cs.feed(PREFACE + settings() + b"".join(cs.req(R, path=p) for s in (400, 404, 405, 500, 501, 503, 418) for p in (b"/%d" % s, b"/t1", b"/q")))("proc 2")
    cases.append(cs.done())
    go(c, cases)


def C03(c):
    c.exe = harness()
    hx = hpack_checks.harness()
    hpack_checks.C03_codec(c, hx, 250 if THOROUGH else 25)
    R = rng("C03conn")
    cases = []
    for i in range(N(24)):
        # many routes with distinct headers, table size changes in between
        rts = [Route(G, b"/%d" % j, R.choice([200, 200, 201, 302, 404]), R.choice([0, 0, 3]), j + 1,
                     hdrs=[(R.choice([b"x-%d" % R.randrange(60), b"content-type", b"etag", b"location", b"ETag", b"X-Up%d" % R.randrange(9), b"n" * R.choice([1, 90, 127, 130])]),
                            rstr(R, R.choice([0, 1, 3, 10, 40, 130, 600, 4000]))) for _ in range(R.choice([0, 1, 2, 5]))]) for j in range(R.choice([3, 12, 40]))]
        cs = Case("t%d" % i, rts)
        data = PREFACE + (settings((1, R.choice([0, 50, 100, 4096]))) if R.random() < 0.4 else settings())
        for _ in range(R.choice([10, 30, 70])):
            data += cs.req(R, path=R.choice(rts).p)
            if R.random() < (0.15 if i % 2 else 0.03):
                data += sett(R) if R.random() < 0.3 else settings((1, R.choice([0, 33, 64, 128, 300, 1000, 4096, 5000])))
        cs.feed(*cutup(R, data, R.choice([0, 0, 2])))("proc 3")
        cases.append(cs.done())
    for k, seq in enumerate(([0], [0, 4096], [100, 4096], [4096, 0], [64, 128], [128, 64], [10000], [0, 0], [2000, 1000, 3000], [40, 4096, 40])):
        rts = [Route(G, b"/%d" % j, 200, 0, 1, hdrs=[(b"x-%d" % j, b"v" * 20)]) for j in range(8)]
        for v in range(3):
            cs = Case("sz%d.%d" % (k, v), rts)
            data = PREFACE + settings() + b"".join(cs.req(R, path=b"/%d" % j) for j in range(8))
            if v == 0:
                data += b"".join(settings((1, s)) for s in seq)
            elif v == 1:
                data += settings(*[(1, s) for s in seq])
            else:
                data += b"".join(settings((1, s)) + cs.req(R, path=b"/2") for s in seq)
            data += b"".join(cs.req(R, path=b"/%d" % (j % 8)) for j in range(12))
            cs.feed(data)("proc 3")
            cases.append(cs.done())
    go(c, cases)

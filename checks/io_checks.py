"""C28-C30: the pollers, the TCP transport and TLS."""
import errno as E
from common import *
from driver import *
from hpack_checks import both, rstr
from conn_checks import cutup, neutral, erroneous
import server_checks as sv
from server_checks import Srv, N, traffic, go
from h2 import PREFACE, settings, frame, goaway

H2 = b"\x02h2"
OFFERS = [b"\x05\x02h2ab" + H2, H2, b"\x08http/1.1" + H2, H2 + b"\x08http/1.1", b"\x02h3\x03h2c" + H2, b"\x05h2-16" + H2]
NO_H2 = [b"\x05\x02h2ab", b"", b"\x08http/1.1", b"\x03h2c", b"\x05h2-16", b"\x01h", b"\x04\x02h2x", b"\x02H2", b"\x02h3\x08http/1.0"]


# --------------------------------------------------------------------------- C28
class Fds:
    """A script for poll_driver; follows the numbers so that before every poll each closed number was removed or set again."""

    def __init__(self, name, kind, n=0, kinds=("sp",), R=None):
        self.name, self.lines, self.fd, self.want, self.stale, self.next = name, ["poller " + kind], {}, {}, set(), 0
        for _ in range(n):
            self.open(R.choice(kinds))

    def __call__(self, *ls):
        self.lines += ls
        return self

    def open(self, kind):
        used = set(self.fd.values())
        n = next(i for i in range(9999) if i not in used)
        self.next += 1
        self.fd[self.next] = n
        self("open %d %s" % (self.next, kind))
        return self.next

    def close(self, i, rm=False):
        n = self.fd.pop(i)
        self(("closerm %d" if rm else "close %d") % i)
        if rm:
            self.want.pop(n, None)
            self.stale.discard(n)
        elif n in self.want:
            self.stale.add(n)

    def set(self, i, m):
        n = self.fd[i]
        self.want[n] = m
        self.stale.discard(n)
        self("set %d %d" % (i, m))

    def rm(self, i):
        self.want.pop(self.fd[i], None)
        self.stale.discard(self.fd[i])
        self("rm %d" % i)

    def poll(self, ms=0, more=""):
        if not self.stale:
            self("poll %d%s" % (ms, " " + more if more else ""))

    def done(self):
        return self.name, self.lines, {}


def pairs(s):
    return [] if s == "-" else [[int(y) for y in x.split(":")] for x in s.split(",")]


def poll_events(lines, meta):
    evs = []
    for ln in lines:
        w = ln.split()
        if w[0] == "poll":
            evs.append({"op": "poll", "res": w[1], "ms": int(w[2]), "el": int(w[3]), "sig": len(w) > 7,
                        "before": pairs(w[4]), "after": pairs(w[5]), "ev": pairs(w[6])})
        elif w[0] == "set":
            evs.append({"op": "set", "fd": int(w[1]), "mask": int(w[2])})
        else:
            evs.append({"op": w[0], "fd": int(w[1])})
    return {"ev": evs}


KINDS = ["sp", "sp", "tcp", "pr", "pw", "lis", "ev"]


def make_ready(s, i, r):
    """bring item i towards readiness r"""
    s("in %d" % i if 1 in r else "drain %d" % i, "take %d" % i if 2 in r else "fill %d" % i)
    if 8 in r:
        s("prst %d" % i)
    elif 4 in r:
        s("pclose %d" % i)


def poll_replay(R, name, kind, b):
    s = Fds(name, kind)
    num = {}                       # number of the model -> item
    for k in range(1, 5):
        num[k] = s.open(R.choice(KINDS))
    for op in b:
        o = op[0]
        if o == "open":
            k = min(x for x in range(1, 5) if x not in num)
            num[k] = s.open(R.choice(KINDS))
        elif o == "close":
            s.close(num.pop(op[1]))
        elif o == "set":
            s.set(num[op[1]], sum(op[2]))
        elif o == "rm":
            k = op[1]
            if k in num:
                s.rm(num[k])
            else:                  # the number is not in use: removed after it was closed
                s.want.pop(k - 1, None)
                s.stale.discard(k - 1)
                s("rmslot %d" % (k - 1))
        elif o == "ready":
            make_ready(s, num[op[1]], op[2])
        if o == "poll" or R.random() < 0.4:
            s.poll(R.choice([0, 0, 0, 1, 5]))
    s.poll()
    return s.done()


def poll_random(R, name, kind, n, steps, kinds):
    s = Fds(name, kind, n, kinds, R)
    for _ in range(steps):
        live = list(s.fd)
        k = R.randrange(16)
        i = R.choice(live) if live else 0
        if k == 0 or not live:
            s.open(R.choice(kinds))
        elif k == 1:
            s.close(i, R.random() < 0.5)
            if s.stale and R.random() < 0.8:       # the number is reused at once
                j = s.open(R.choice(kinds))
                if s.fd[j] in s.stale:
                    s.set(j, R.randrange(4))
        elif k in (2, 3, 4):
            s.set(i, R.randrange(4))
        elif k == 5:
            s.rm(i)
        elif k < 11:
            s("%s %d" % (R.choice(["in", "in", "drain", "fill", "take", "take"]), i))
        elif k == 11:
            s("%s %d" % (R.choice(["pshut", "pclose", "prst"]), i))
        for n in sorted(s.stale):
            if R.random() < 0.5:
                j = [x for x in s.fd if s.fd[x] == n]
                if j:
                    s.set(j[0], R.randrange(4))
                else:
                    s("rmslot %d" % n)
                    s.want.pop(n, None)
                    s.stale.discard(n)
        if R.random() < 0.5:
            s.poll(R.choice([0, 0, 0, 1, 10]))
        elif R.random() < 0.06:
            j = R.choice(list(s.fd) or [0])
            if j:
                s.poll(30, "later 5 %s %d" % (R.choice(["in", "take", "drain", "pclose"]), j))
    s.poll()
    return s.done()


def crowd(R, name, kind, n, kinds):
    """more ready descriptors than one call of epoll_wait returns"""
    s = Fds(name, kind, n, kinds, R)
    for i in list(s.fd):
        s.set(i, R.choice([1, 1, 3, 2]))
        if R.random() < 0.9:
            s("in %d" % i)
    for _ in range(5):
        s.poll()
    for i in R.sample(list(s.fd), n // 4):
        s(R.choice(["drain %d", "fill %d", "pclose %d"]) % i)
        if R.random() < 0.3:
            s.rm(i)
        elif R.random() < 0.3:
            s.close(i, True)
    for _ in range(n + 2 if n < 30 else 20 + n // 16):
        s.poll()
    for i in list(s.fd):
        s.rm(i)
    s.poll(5)
    return s.done()


def signals(R, name, kind):
    s = Fds(name, kind, 3, KINDS, R)
    for i in list(s.fd):
        s("fill %d" % i, "drain %d" % i)
        s.set(i, R.choice([0, 1]))
    s.poll(3000, "sig %d" % R.choice([5, 20]))
    s.poll(20)
    s("in 1")
    s.set(1, 3)
    s.poll(3000, "sig 10")
    s.poll(50)
    for i in list(s.fd):
        s.rm(i)
    s.poll(3000, "sig 10")
    s.poll(30)
    return s.done()


def C28(c):
    exe, beh = both(lambda: build("poll", ["poll_driver.cpp"], only=lambda s: s.startswith("lib/pollers/")),
                    lambda: (tlc_check("PollerMC", over={"MaxOps": "7"} if THOROUGH else None, timeout=1500),
                             behaviours("PollerMC", "PollerGen.cfg", num=40 * (8 if THOROUGH else 1), depth=60))[1])
    R = rng("C28")
    cases = []
    for kind in ("epoll", "poll"):
        for i, b in enumerate(beh):
            cases.append(poll_replay(R, "%s.g%d" % (kind, i), kind, b))
        for i in range(N(30)):
            cases.append(poll_random(R, "%s.r%d" % (kind, i), kind, R.choice([1, 3, 8]), 60, R.choice([KINDS, ["sp"], ["tcp", "sp"], ["pr", "pw"]])))
        for i in range(N(3)):
            cases.append(crowd(R, "%s.c%d" % (kind, i), kind, [63, 64, 65, 70, 128, 129, 140, 300, 400][(i * 4 + (kind == "poll")) % 9], ["sp", "pr", "ev"]))
        cases.append(crowd(R, kind + ".huge", kind, 300, ["sp"]))
        for i in range(N(2)):
            cases.append(signals(R, "%s.s%d" % (kind, i), kind))
    cases.append(poll_random(R, "d", "default", 5, 100, KINDS))
    tr = decide(c, "PollerTrace", exe, cases, poll_events)
    evs = [e for t in tr.values() for e in t["ev"]]
    for op in ("poll", "set", "rm", "close", "open"):
        c.cov[op] = sum(e["op"] == op for e in evs)
    for r in ("ok", "timeout", "intr"):
        c.cov["poll_" + r] = sum(e["op"] == "poll" and e["res"] == r for e in evs)
    c.cov["reported"] = sum(len(e["ev"]) for e in evs if e["op"] == "poll")
    c.cov["most_reported_at_once"] = max(len(e["ev"]) for e in evs if e["op"] == "poll")
    c.sample(" ; ".join(cases[0][1])[:400])
    c.assumptions.append("what ::poll() with no timeout says about a descriptor just before and after is its readiness; descriptors are not duplicated; a closed number is removed or set again before the next poll")


# --------------------------------------------------------------------------- C29
ERRS = [104, 110, 32, 5, 9, 107, 105, 12, 113, 103]         # ECONNRESET ETIMEDOUT EPIPE EIO EBADF ENOTCONN ENOBUFS ENOMEM EHOSTUNREACH ECONNABORTED


def tcp_events(lines, meta):
    evs = []
    f = {"r": None, "w": None}
    none = {"f": "none", "k": 0}
    src = iter(meta["faults"])
    for ln in lines:
        w = ln.split()
        o = w[0]
        if o == "read":
            e = {"n": int(w[1]), "res": w[2], "k": int(w[3]), "ok": w[4] == "1", "clean": w[5] == "1", "av": int(w[7]), "f": next(src) if w[6] == "1" else (next(src), none)[1]}
        elif o == "write":
            e = {"n": int(w[1]), "res": w[2], "k": int(w[3]), "wr": w[4] == "1", "f": next(src) if w[5] == "1" else (next(src), none)[1]}
        elif o == "psend":
            e = {"k": int(w[1])}
        elif o == "pread":
            e = {"k": int(w[1]), "ok": w[2] == "1", "end": "some" if w[4] == "1" else w[3]}
        elif o == "pclose":
            e = {"rst": w[1] == "1"}
        elif o == "move":
            e = {"ok": w[1] == "1"}
        elif o == "hs":
            e = {"res": w[1]}
        elif o == "destroy":
            e = {"open": w[1] == "1", "unread": w[2] == "1"}
        else:
            e = {}
        e["op"] = o
        evs.append(e)
    return {"ev": evs}


class Pipe:
    """a script for the transport; keeps only what is needed to stay within sense"""

    def __init__(self, R, name, kind, small=0):
        self.R, self.name, self.lines, self.faults = R, name, ["open %s %d" % (kind, small)], []
        self.p, self.g, self.fin, self.sh = True, False, False, False

    def __call__(self, *ls):
        self.lines += ls

    def io(self, d, n, f=None):
        """read (r) or write (w) with a fault"""
        if self.g:
            return
        fault = {"f": "none", "k": 0}
        if f == "again":
            self("fault %s again" % d)
            fault = {"f": "again", "k": 0}
        elif f == "err":
            self("fault %s err:%d" % (d, self.R.choice(ERRS)))
            fault = {"f": "err", "k": 0}
        elif f == "eof":
            self("fault r eof")
            fault = {"f": "eof", "k": 0}
        elif f and f.startswith("short"):
            k = int(f[5:])
            self("fault %s short:%d" % (d, k))
            fault = {"f": "short", "k": k}
        self.faults.append(fault)
        self("%s %d" % ("read" if d == "r" else "write", n))

    def psend(self, n):
        if self.p and not self.fin and not self.g:
            self("psend %d" % n)

    def pread(self, n=None):
        if self.p:
            self("pread" + ("" if n is None else " %d" % n))

    def pend(self, o):
        if self.p and (o != "pshut" or not self.fin):
            self(o)
            self.fin = True
            self.p = o == "pshut"

    def me(self, o):
        if not self.g and not (o == "shutdown" and self.sh):
            self(o)
            self.sh |= o == "shutdown"
            self.g = o == "destroy"

    def done(self):
        return self.name, self.lines, {"faults": self.faults}


SIZES = [1, 2, 9, 24, 100, 1000, 16384, 65536]


def tcp_replay(R, name, kind, b):
    s = Pipe(R, name, kind, R.choice([0, 0, 4096]) if kind == "sp" else 0)
    unit = R.choice([1, 1, 7, 1000, 16384, 40000])
    for op in b:
        o = op[0]
        if o in ("read", "write"):
            f = op[2]["f"]
            s.io(o[0], op[1] * unit, None if f == "none" else "short%d" % R.choice([1, unit]) if f == "short" else f)
        elif o == "psend":
            s.psend(op[1] * unit)
        elif o == "pread":
            s.pread()
        elif o in ("pshut", "pclose", "prst"):
            s.pend(o)
        else:
            s.me(o)
    return s.done()


def tcp_random(R, name, kind, n):
    s = Pipe(R, name, kind, R.choice([0, 0, 2048, 20000]) if kind == "sp" else R.choice([0, 60000]))
    s("hs")
    end = R.choice(["none", "pshut", "pclose", "prst", "shutdown", "destroy", "mix"])
    for i in range(n):
        k = R.random()
        if k < 0.2:
            s.psend(R.choice(SIZES) * R.choice([1, 1, 3]))
        elif k < 0.5:
            s.io("r", R.choice(SIZES), R.choice([None] * 8 + ["again", "err", "eof", "short1", "short%d" % R.choice([5, 1000])]))
        elif k < 0.75:
            s.io("w", R.choice(SIZES + [200000, 3000000]), R.choice([None] * 8 + ["again", "err", "short1", "short%d" % R.choice([5, 1000])]))
        elif k < 0.88:
            s.pread(R.choice([None, None, 1, 500, 70000]))
        elif k < 0.94:
            s.me(R.choice(["move", "massign"]))
        elif k < 0.96 and i > n // 2 and end != "none":
            o = R.choice(["pshut", "pclose", "prst", "shutdown", "destroy"]) if end == "mix" else end
            (s.me if o in ("shutdown", "destroy") else s.pend)(o)
    if end == "shutdown":
        s.me("shutdown")
    s.pread()
    for _ in range(3):
        s.io("r", R.choice([100, 65536]))
    return s.done()


def tcp_full(R, name, kind, how):
    """fill the socket, let it drain bit by bit, then end: nothing may be lost"""
    s = Pipe(R, name, kind, R.choice([0, 4096]) if kind == "sp" else R.choice([0, 60000]))
    for _ in range(R.choice([3, 12])):
        for _ in range(R.choice([2, 5])):
            s.io("w", R.choice([16384, 65536, 500000, 3000000]))
        s.pread(R.choice([1, 1000, 30000, 100000]))
    s.io("w", 777)
    if how == "shutdown":
        s.psend(500)
        s.me("shutdown")
        s.io("r", 400)
        s.psend(100)
        s.io("r", 400)
        s.io("r", 400)
        s.io("w", 5)
        s.pread(1000)
        s.pread()
        s.pend("pshut")
        s.io("r", 4)
        s.me("destroy")
    elif how == "destroy":
        s.me("destroy")
        s.pread(5000)
        s.pread()
    else:
        s.pend("pclose")
        s.io("w", 10)
        s.io("w", 10)
        s.io("r", 10)
        s.io("r", 10)
    return s.done()


def own_events(lines, meta):
    evs = []
    for ln in lines:
        w = ln.split()
        o = w[0]
        if o == "own":
            ints = lambda x: [] if x == "-" else [int(y) for y in x.split(",")]
            evs[-1].update(open=ints(w[1]), lost=ints(w[2]), has=[[int(y) for y in x.split(":")] for x in w[3:]])
        elif o == "obj":
            evs.append({"op": o, "a": int(w[1]), "fd": int(w[2])})
        elif o in ("mv", "as"):
            evs.append({"op": o, "a": int(w[1]), "b": int(w[2])})
        elif o in ("cl", "del"):
            evs.append({"op": o, "a": int(w[1])})
        elif o == "listen":
            evs.append({"op": o, "nb": w[1] == "1"})
        elif o == "conn":
            evs.append({"op": o, "i": int(w[1]), "ip": w[2]})
        elif o == "acc":
            evs.append({"op": "none"} if w[1] == "none" else {"op": o, "who": int(w[1]), "ip": w[2], "nb": w[3] == "1"})
        else:
            evs.append({"op": o, "want": w[1], "got": w[2]})
    return {"ev": evs}


def own_replay(name, kind, b):
    ls, live = [], set()
    for op in b:
        if op[0] == "obj":
            ls.append("obj %s %d" % (kind, op[1]))
            live.add(op[1])
        elif op[0] == "mv":
            ls.append("mv %d %d" % (op[1], op[2]))
            live.add(op[2])
        elif op[0] == "as":
            ls.append("as %d %d" % (op[1], op[2]))
        elif op[0] == "cl":
            if kind == "s":
                ls.append("cl %d" % op[1])
            else:                      # transports cannot be closed: give up the object instead, and take the model along
                return own_replay(name, kind, [["del", x[1]] if x[0] == "cl" and i >= 0 else x for i, x in enumerate(prune(b))])
        else:
            ls.append("del %d" % op[1])
            live.discard(op[1])
    return name, ls, {}


def prune(b):
    """turn closes into deletions and drop what then refers to an object that is not there"""
    out, live = [], set()
    for op in b:
        o = "del" if op[0] == "cl" else op[0]
        if o == "obj":
            live.add(op[1])
        elif op[1] not in live or (o == "as" and op[2] not in live):
            continue
        elif o == "mv":
            live.add(op[2])
        elif o == "del":
            live.discard(op[1])
        out.append([o] + list(op[1:]))
    return out


def accepts(R, name):
    ls, q, i = ["listen", "acc"], 0, 0
    for _ in range(25):
        if R.random() < 0.5 and q < 10:
            ls.append("conn %d 127.0.%d.%d" % (i, R.choice([0, 0, 1, 99]), R.randint(1, 250)))
            i += 1
            q += 1
        else:
            ls.append("acc")
            q = max(0, q - 1)
    return name, ls + ["acc"] * (q + 1) + ["v6"], {}


def ownership(c, R, exe, beh):
    cases = [own_replay("own%s%d" % (k, i), k, b) for i, b in enumerate(beh) for k in "stx"]
    cases += [accepts(R, "acc%d" % i) for i in range(N(4))]
    tr = decide(c, "OwnTrace", exe, cases, own_events)
    c.cov["ownership_steps"] = sum(len(t["ev"]) for t in tr.values())


def tcp_harness():
    return build("tcp", ["tcp_driver.cpp"], only=lambda s: s in ("lib/socket_fd.cpp", "lib/tcp_listener.cpp") or s.startswith("lib/transports/"))


def own_model():
    tlc_check("OwnMC", over={"MaxOps": "8"} if THOROUGH else None)
    return behaviours("OwnMC", "OwnGen.cfg", num=30 * (8 if THOROUGH else 1), depth=40)


def C29(c):
    exe, (beh, own) = both(tcp_harness,
                           lambda: (tlc_check("TcpMC", over={"MaxOps": "8"} if THOROUGH else None, timeout=1500),
                                    (behaviours("TcpMC", "TcpGen.cfg", num=150 * (8 if THOROUGH else 1), depth=40), own_model()))[1])
    R = rng("C29")
    cases = []
    for kind in ("sp", "tcp"):
        cases += [tcp_replay(R, "%s.g%d" % (kind, i), kind, b) for i, b in enumerate(beh) if i % 2 == (kind == "tcp")]
        cases += [tcp_random(R, "%s.r%d" % (kind, i), kind, R.choice([10, 40])) for i in range(N(60))]
        for how in ("shutdown", "destroy", "pclose"):
            cases += [tcp_full(R, "%s.f%s%d" % (kind, how, i), kind, how) for i in range(N(4))]
    tr = decide(c, "TcpTrace", exe, cases, tcp_events)
    evs = [e for t in tr.values() for e in t["ev"]]
    for o in ("read", "write"):
        for r in ("data", "want", "closed", "fail"):
            c.cov["%s_%s" % (o, r)] = sum(e["op"] == o and e["res"] == r for e in evs)
    c.cov["octets_written"] = sum(e["k"] for e in evs if e["op"] == "write" and e["res"] == "data")
    c.cov["peer_end_of_stream"] = sum(e["op"] == "pread" and e["end"] == "eof" for e in evs)
    c.sample(" ; ".join(cases[0][1])[:400])
    ownership(c, R, exe, own)
    c.assumptions.append("octets sent on a loopback connection are readable within two seconds; buffers are not empty; EINTR is not reported by non-blocking calls")


# --------------------------------------------------------------------------- C30
def hx(b):
    return b.hex() if b else "-"


def tls_opts(R, s, x, odd=0.0):
    if R.random() < 0.4:
        s("tver %d %d" % (x.k, R.choice([12, 13])))
    if R.random() < 0.4:
        s("alpn %d %s" % (x.k, hx(R.choice(OFFERS if R.random() >= odd else NO_H2))))
    if R.random() < 0.3:
        s("cut %d %d" % (x.k, R.choice([1, 2, 5, 7, 100, 700])))


def misbehave(R, s, x):
    """something a TLS client should not do; the script does not use it afterwards"""
    k = R.randrange(12)
    if k == 0:
        s("raw %d %s" % (x.k, bytes(R.randrange(256) for _ in range(R.choice([1, 5, 60, 600]))).hex()))
    elif k == 1:
        s("raw %d %s" % (x.k, (b"GET / HTTP/1.1\r\nhost: h\r\n\r\n").hex()))
    elif k == 2:
        s("raw %d %s" % (x.k, R.choice([b"\x16\x03\x01\x40\x01", b"\x16\x03\x01\x00\x04\x01\x00\x00\x00", b"\x15\x03\x03\x00\x02\x02\x28",
                                        b"\x17\x03\x03\x00\x13" + bytes(19), b"\x14\x03\x03\x00\x01\x01", b"\x80\x2e\x01\x03\x01"]).hex()))
    elif k == 3:
        s("raw %d %s" % (x.k, x.opening(R).hex()))     # cleartext HTTP/2
    elif k == 4:
        s("rst %d" % x.k)
    elif k == 5:
        s("fin %d" % x.k)
    elif k == 6:
        s("notify %d" % x.k)
    elif k == 7:
        s("notify %d" % x.k, "fin %d" % x.k)
    elif k == 8:
        s.feed(x, R, x.opening(R, erroneous(R, x)))
    elif k == 9:
        s("gate %d 1" % x.k).ask(R, x)("release %d %d" % (x.k, R.choice([1, 5, 6, 20])))
    elif k == 10:
        s("gate %d 1" % x.k).ask(R, x)("release %d %d" % (x.k, R.choice([3, 30])), R.choice(["rst %d", "fin %d"]) % x.k)
    else:
        s("hold %d 1" % x.k)
    x.over = True


def session(R, name, n, steps, odd=0.0):
    """TLS clients with requests cut in any way, slow readers and misbehaving neighbours"""
    s = Srv(name, tls=True)
    s("ord %s %d" % (R.choice(["asc", "desc", "lru", "rnd"]), R.randrange(1000)))
    made = 0
    live = []
    for _ in range(steps):
        pre = "late " if R.random() < 0.1 else ""
        if made < n and (not live or R.random() < 0.3):
            made += 1
            x = s.client()
            tls_opts(R, s, x, odd)
            s.connect(x.k, pre)
            if R.random() < odd:
                if R.random() < 0.3:
                    s("quiet %d" % x.k)
                if R.random() < 0.5:
                    misbehave(R, s, x)
            live.append(x)
        x = R.choice(live)
        k = R.randrange(14)
        if x.over:
            pass
        elif k < 4:
            s.ask(R, x, R.choice([b"/s", b"/", b"/none", b"/t"]), extra=[(b"x-%d" % R.randrange(3), rstr(R, 10))])
        elif k < 6:
            s.ask(R, x, R.choice([b"/l", b"/h"]))
        elif k == 6:
            s("room %d %d" % (x.k, R.choice([0, 1, 5, 21, 22, 100, 5000, 16384, 16406, 40000])))
        elif k == 7:
            s("room %d -1" % x.k)
        elif k == 8 and x.begun:
            s.feed(x, R, neutral(R))
        elif k == 9:
            s("gate %d 1" % x.k).ask(R, x)
            for _ in range(R.randint(1, 5)):
                s("release %d %d" % (x.k, R.choice([1, 4, 5, 6, 21, 60, 300])), R.choice(["go", "settle"]))
            s("gate %d 0" % x.k)
        elif k == 10 and x.begun:
            s("settle", "keyup %d" % x.k)
        elif k == 11 and R.random() < odd:
            misbehave(R, s, x)
        elif k == 12 and R.random() < 0.3:
            s("spur %d" % x.k)
        if R.random() < 0.05:
            s("aerr %d" % R.choice(sv.ACCEPT_ERRORS))
        if R.random() < 0.6:
            s(R.choice(["go", "go", "go 2", "settle"]))
        if R.random() < 0.04:
            s("idle %d" % R.choice([100, 2500, 4900, 5100]))
    for x in s.cl.values():
        s("room %d -1" % x.k)
    s("settle", "check")
    return s.done()


def tls_full(R, i):
    """TLS itself has to write while nothing can be written: in the handshake and for new keys"""
    s = Srv("full%d" % i, tls=True)
    x, y = s.client(), s.client(2)
    s("tver %d %d" % (x.k, 13 if i % 2 else R.choice([12, 13])))
    if i % 2:
        s.connect(x.k)
        s.connect(y.k)
        s.ask(R, x)("settle", "room %d %d" % (x.k, R.choice([0, 1, 20])), "keyup %d" % x.k, R.choice(["go", "settle"]))
        s.ask(R, x)(R.choice(["go", "settle", "idle 500"]), "keyup %d" % x.k).ask(R, x)("settle")
    else:
        s("room %d %d" % (x.k, R.choice([0, 1, 100, 600])))
        s.connect(x.k)
        s.connect(y.k)
        s.ask(R, x)(R.choice(["go 3", "settle"]))
    s.ask(R, y)("idle %d" % R.choice([50, 2000, 4900])).ask(R, y)("room %d %d" % (x.k, R.choice([10, 30, 700, -1])), "settle")
    s("room %d -1" % x.k, "settle", "check")
    return s.done()


def records(R, i):
    """frames spread over many TLS records, all of which arrive together or in other pieces"""
    s = Srv("rec%d" % i, tls=True)
    x, y = s.client(), s.client(2)
    s("tver %d %d" % (x.k, 12 + i % 2))
    if R.random() < 0.4:
        s("cut %d %d" % (x.k, R.choice([7, 100, 1000])))
    s.connect(x.k)
    s.connect(y.k)
    if i % 3:
        s("settle")
    for j in range(R.randint(4, 8)):
        d = x.opening(R, b"".join(x.req(R, R.choice([b"/s", b"/s", b"/l"])) for _ in range(R.choice([1, 1, 2]))))
        s.feed(x, R, d, mode=R.choice([1, 2, 3]))
        if R.random() < 0.3:
            s.ask(R, y, mode=R.choice([0, 2]))
        s(R.choice(["settle", "settle", "settle", "go"]))
    s("settle", "check")
    return s.done()


def steady(R, i):
    """continuously but slowly read: never idle"""
    s = Srv("steady%d" % i, tls=True)
    x = s.connect()
    s("settle", "room %d 40000" % x.k).ask(R, x, b"/h")("settle")
    n, ms = [(20000, 1000), (17000, 2000), (33000, 4000), (9000, 2000)][i % 4]
    for _ in range(12):
        s("idle %d" % ms, "room %d %d" % (x.k, n), "settle")
    s("room %d -1" % x.k, "settle", "check")
    return s.done()


def stalled(R, i):
    """stalled at every phase of the handshake and after it"""
    s = Srv("stall%d" % i, tls=True)
    a, x = s.hello(R), s.client()
    s("tver %d %d" % (x.k, R.choice([12, 13])), "gate %d 1" % x.k)
    s.connect(x.k)
    s.ask(R, x)
    for _ in range(R.randint(0, 4)):
        s("release %d %d" % (x.k, R.choice([0, 1, 5, 50, 200, 400])), "settle")
    if R.random() < 0.3:
        s("hold %d 1" % x.k)
    s("idle %d" % R.choice([2400, 2500])).ask(R, a)("idle %d" % R.choice([2400, 2650]))
    if R.random() < 0.4:
        s("release %d 30" % x.k, "settle", "idle 4000").ask(R, a)
    s("idle 2000").ask(R, a)("idle 3200", "settle", "check")
    return s.done()


def shaken(R, i):
    """what counts is the end of the handshake, then the first octet"""
    s = Srv("shake%d" % i, tls=True)
    x = s.client()
    s("tver %d %d" % (x.k, 12 + i % 2), "gate %d 1" % x.k)
    s.connect(x.k)
    ms = R.choice([1000, 3000, 4800])
    s("settle", "idle %d" % ms, "release %d 10000" % x.k, "settle", "release %d 10000" % x.k, "settle", "idle %d" % (4900 if i % 3 else 5200), "gate %d 0" % x.k)
    s.ask(R, x)("settle", "idle 4900").ask(R, x)("settle", "idle 5200", "settle")
    return s.done()


def misbehaving(R, i):
    """every kind of misbehaviour next to clients in mid-session, before, during and after the handshake"""
    s = Srv("bad%d" % i, tls=True)
    s("ord %s %d" % (["asc", "desc", "rnd"][i % 3], i))
    a, b = s.hello(R), s.connect()
    s("settle", "room %d 5000" % a.k).ask(R, a, b"/h")("settle", "cut %d 3" % b.k)
    for j in range(5):
        x = s.client()
        tls_opts(R, s, x)
        if R.random() < 0.3:
            s("quiet %d" % x.k)
        s.connect(x.k)
        w = R.randrange(3)
        if w == 1:
            s("go %d" % R.randint(1, 3))
        elif w == 2:
            s("settle").ask(R, x, R.choice([b"/s", b"/h"]))("settle")
        misbehave(R, s, x)
        s.ask(R, b)
        s("room %d %d" % (a.k, R.choice([100, 16406, 30000])), R.choice(["go", "go 2", "settle"]))
    s("room %d -1" % a.k)
    s.ask(R, a).ask(R, b)("settle", "idle 5100").ask(R, s.connect())("settle", "check")
    return s.done()


def resuming(R, i):
    """clients that come back and resume the session of the one before"""
    s = Srv("again%d" % i, tls=True)
    a = s.hello(R)
    s("settle")
    for j in range(R.randint(3, 6)):
        x = s.client()
        s("tver %d %d" % (x.k, 12 + (i + (j == 4)) % 2))
        if j:
            s("again %d" % x.k)
        if R.random() < 0.3:
            s("cut %d %d" % (x.k, R.choice([1, 7, 100])))
        s.connect(x.k)
        s.ask(R, x)("settle" if R.random() < 0.7 else "go 2").ask(R, x, R.choice([b"/s", b"/l"]))("settle").ask(R, a)
        s(*R.choice([["notify %d" % x.k, "fin %d" % x.k], ["fin %d" % x.k], ["rst %d" % x.k], []]))
        s("settle")
    return s("settle", "check").done()


def C30(c):
    beh = sv.start(c, 70, True)
    R = rng("C30")
    cases = []
    for i, b in enumerate(beh[:50]):
        cases.append(sv.replay(R, "g%d" % i, b, sv.LIMIT, tls=True))
    # what is negotiated
    for i, o in enumerate(OFFERS + NO_H2):
        for v in (12, 13):
            s = Srv("alpn%d.%d" % (i, v), tls=True)
            a = s.hello(R)
            x = s.client()
            s("alpn %d %s" % (x.k, hx(o)), "tver %d %d" % (x.k, v))
            s.connect(x.k)
            s.ask(R, x)("settle").ask(R, x, b"/l").ask(R, a)("settle", "check")
            cases.append(s.done())
    # a single session cut at every size, and handed over octet by octet
    for v in (12, 13):
        for n in [1, 2, 3, 5, 6, 16, 33] if not THOROUGH else range(1, 60):
            s = Srv("cut%d.%d" % (v, n), tls=True)
            x = s.client()
            s("tver %d %d" % (x.k, v), "cut %d %d" % (x.k, n))
            s.connect(x.k)
            s("settle").ask(R, x).ask(R, x, b"/l")("settle").ask(R, x, b"/h")("settle", "check")
            cases.append(s.done())
    # large responses to slow readers
    for i in range(N(16)):
        s = Srv("slow%d" % i, tls=True)
        x, y = s.client(), s.client(2)
        s("tver %d %d" % (x.k, 12 + i % 2))
        s.connect(x.k)
        s.connect(y.k)
        first = R.choice([0, 1, 5, 300, 2000, 16405, 16406, 16407, 40000])
        if i % 3:
            s("settle").ask(R, y)
        s("room %d %d" % (x.k, first if i % 3 else max(first, 2000))).ask(R, x, b"/h")("settle")
        for j in range(R.randint(3, 20)):
            if R.random() < 0.3:
                s.ask(R, x, R.choice([b"/s", b"/l", b"/h"]))
            if R.random() < 0.3:
                s.ask(R, y, R.choice([b"/s", b"/l"]))
            s("room %d %d" % (x.k, R.choice([1, 5, 6, 21, 22, 1000, 16384, 16405, 16406, 16407, 20000, 32812, 50000])), R.choice(["go", "settle", "settle", "idle 300"]))
        s("room %d -1" % x.k, "settle", "check")
        cases.append(s.done())
    # TLS itself has to write while nothing can be written: in the handshake and for new keys
    cases += [tls_full(R, i) for i in range(N(8))]
    # continuously but slowly read: never idle
    cases += [steady(R, i) for i in range(N(2))]
    cases += [records(R, i) for i in range(N(24))]
    cases += [resuming(R, i) for i in range(N(8))]
    # stalled at every phase of the handshake and after it
    cases += [stalled(R, i) for i in range(N(10))]
    cases += [shaken(R, i) for i in range(N(4))]
    # every kind of misbehaviour next to clients in mid-session, before, during and after the handshake
    cases += [misbehaving(R, i) for i in range(N(24))]
    cases += [session(R, "t%d" % i, R.choice([2, 5, 8]), 40) for i in range(N(20))]
    cases += [session(R, "o%d" % i, R.choice([5, 8]), 50, 0.3) for i in range(N(30))]
    tr = go(c, cases, cases[:15] + cases[-10:])
    c.cov["tls_sessions_resumed"] = sum(x[2].get("again", 0) for x in cases)
    for op in ("hs", "alpn", "cout", "cblock", "hsfail", "cfail", "got"):
        c.cov["tls_" + op] = sum(e["op"] == op for t in tr.values() for e in t["ev"])


CHECKS = {f.__name__: f for f in (C28, C30)}

"""C22-C27: the server's event loop on a simulated kernel.  Design model: ServerMC; trace spec: ServerTrace."""
import errno as E
from common import *
from driver import *
from hpack_checks import both, rstr
import h2, hpack
from h2 import PREFACE, frame, settings, headers, goaway, window_update
from conn_checks import Route, G, cutup, neutral, dense, erroneous, sett

ROUTES = [Route(G, b"/"), Route(G, b"/s", 200, 5, 2, hdrs=[(b"content-type", b"text/plain")]), Route(G, b"/l", 200, 40000, 4),
          Route(b"POST", b"/s", 201, 1, 5), Route(G, b"/t", thr=1), Route(G, b"/h", 200, 200000, 6)]
LIMIT = 128
ACCEPT_ERRORS = [E.ECONNABORTED, E.EMFILE, E.ENFILE, E.ENOBUFS, E.ENOMEM, E.EINTR, E.EAGAIN, E.EPROTO, E.EPERM, E.ENETDOWN, E.EHOSTUNREACH,
                 E.ENETUNREACH, E.EHOSTDOWN, E.ENOPROTOOPT, E.ETIMEDOUT]


def harness(poll=False):
    if poll:
        return build("simpoll", ["simpoll_driver.cpp"], only=lambda s: s.startswith("lib/") and s != "lib/pollers/poller.cpp")
    return build("sim", ["sim_driver.cpp"], only=lambda s: s.startswith("lib/"))


class Client:
    def __init__(self, k):
        self.k, self.enc, self.next, self.begun, self.over = k, hpack.Encoder(4096), 1, False, False

    def block(self, R, hs):
        return self.enc.best(hs, R)

    def stream(self):
        self.next += 2
        return self.next - 2

    def req(self, R, path=b"/s", method=G, extra=()):
        hs = [(b":method", method), (b":scheme", b"http"), (b":path", path), (b":authority", b"h"), (b"x-c", b"%d" % self.k)] + list(extra)
        return headers(self.stream(), self.block(R, hs))

    def opening(self, R, data=b""):
        if self.begun:
            return data
        self.begun = True
        return PREFACE + (settings() if R.random() < 0.6 else sett(R)) + data


class Srv:
    """A script for the simulated kernel."""

    def __init__(self, name, routes=ROUTES, tls=False):
        self.name, self.routes, self.lines, self.cl, self.tls = name, routes, [r.line() for r in routes], {}, tls
        if tls:
            self.lines.append("tls")

    def __call__(self, *ls):
        self.lines += ls
        return self

    def client(self, k=None):
        k = k or len(self.cl) + 1
        return self.cl.setdefault(k, Client(k))

    def connect(self, k=None, pre=""):
        c = self.client(k)
        self(pre + "conn %d" % c.k)
        return c

    def feed(self, c, R, data, pre="", mode=0):
        ch = [x for x in cutup(R, data, mode) if x]
        if ch:
            self("%sfeed %d %s" % (pre, c.k, " ".join(x.hex() for x in ch)))
        return self

    def hello(self, R, k=None):
        c = self.connect(k)
        return self.feed(c, R, c.opening(R)) and c

    def ask(self, R, c, path=b"/s", pre="", mode=0, **kw):
        return self.feed(c, R, c.opening(R, c.req(R, path, **kw)), pre, mode)

    def done(self):
        # clients that do not take part in TLS as they should
        odd = set()
        for ln in "\n".join(self.lines).splitlines():
            w = (ln[5:] if ln.startswith("late ") else ln).split()
            if w and (w[0] in ("raw", "quiet") or (w[0] == "alpn" and w[2] != "-" and b"\x02h2" not in bytes.fromhex(w[2]))):
                odd.add(int(w[1]))
        n = max([0] + list(self.cl))
        return (self.name, self.lines, {"cfg": {"log": False, "ip": [], "n": n, "tls": self.tls, "fair": [k not in odd for k in range(1, n + 1)], "routes": [r.tla(i + 1) for i, r in enumerate(self.routes)]},
                                        "bodies": {i + 1: h2.body_of(r.n, r.seed) for i, r in enumerate(self.routes) if r.n and not r.thr}})


def ks(s):
    return [] if s == "-" else [int(x) for x in s.split(",")]


def target(s):
    return 0 if s == "L" else -1 if s == "E" else int(s)


def project(lines, meta):
    rd, evs, prev = {}, [], 0
    last = 0
    for ln in lines:
        w = ln.split()
        o = w[0]
        e = {"op": o}
        if o in ("rd", "rblock", "rwblock", "eof", "rerr", "wr", "wblock", "werr", "shut", "acc", "hs", "cin", "cout", "cblock", "ceof", "cerr",
                 "alpn", "hsfail", "cfail", "got", "misuse"):
            e["k"] = k = int(w[1])
            last = k
            if o == "rd":
                e["bytes"] = U(w[2])
            elif o == "rerr":
                e["kind"] = int(w[2]) if meta["cfg"]["tls"] else 4
            elif o == "hs":
                e["res"] = w[2]
            elif o in ("cin", "cout"):
                if evs and evs[-1]["op"] == o and evs[-1]["k"] == k:
                    evs[-1]["n"] += int(w[2])
                    continue
                e["n"] = int(w[2])
            elif o == "alpn":
                e.update(offer=U(w[2]), sel=U(w[3]))
            elif o == "got":
                e.update(sent=int(w[2]), got=int(w[3]), same=w[4] == "1")
            elif o == "wr":
                r = rd.setdefault(k, h2.Reader(meta["bodies"]))
                d = bytes(U(w[3]))
                e.update(off=int(w[2]), acc=len(d), frames=r.add(d), tail=0)
                e["tail"] = r.tail
        elif o == "close":
            e["k"] = target(w[1])
        elif o == "int":
            e.update(k=target(w[1]), mask=int(w[2]))
            if e["k"] < 0:
                continue
        elif o == "clock":
            e["now"] = int(w[1])
        elif o == "stall":
            e["ms"] = int(w[1])
        elif o == "again":
            meta["again"] = meta.get("again", 0) + 1
            continue
        elif o == "bad":
            e["call"] = w[1]
        elif o == "call":
            hs = [[U(w[i]), U(w[i + 1])] for i in range(4, len(w), 2)]
            c = [bytes(v) for n, v in hs if bytes(n) == b"x-c"]
            e.update(k=int(c[0]) if c and c[0].isdigit() else last, route=int(w[1]), m=U(w[2]), p=U(w[3]), hdrs=hs)
        elif o == "wait":
            e.update(to=int(w[1]), now=int(w[2]), prev=prev, backlog=int(w[3]), unread=ks(w[4]), held=ks(w[5]))
            # rounds in which nothing happens are one
            if len(evs) >= 3 and evs[-1]["op"] == "ready" and not evs[-1]["ev"] and evs[-2]["op"] == "wait" and evs[-3]["op"] == "ready" and \
                    not evs[-3]["ev"] and evs[-1]["unread"] == evs[-3]["unread"] and evs[-1]["canw"] == evs[-3]["canw"] and \
                    evs[-2]["to"] == e["to"] and not evs[-3]["intr"] and not evs[-1]["intr"]:
                del evs[-2:]
        elif o == "ready":
            prev = int(w[1])
            e.update(now=prev, intr=w[2] == "intr", backlog=int(w[3]), unread=ks(w[4]), canw=ks(w[5]),
                     ev=[[target(x.split(":")[0]), int(x.split(":")[1])] for x in w[6:] if x[0] != "?"])
        elif o == "stop":
            e["how"] = w[1]
        elif o not in ("sock", "epoll", "bind", "listen", "accerr", "accnone", "ret", "exc", "forever", "spin", "hang", "runs"):
            raise CheckError("unknown event " + ln[:80])
        evs.append(e)
    evs.append({"op": "end"})
    return {"cfg": meta["cfg"], "ev": evs}


def model(num):
    if THOROUGH:
        tlc_check("ServerMC", over={"MaxEnv": "6"}, timeout=2400)
    else:
        tlc_check("ServerMC", over={"MaxEnv": "4"})
    return behaviours("ServerMC", "ServerGen.cfg", num=num * (8 if THOROUGH else 1), depth=160)


def start(c, num, poll=False):
    def hs():
        return harness(), harness(True) if poll or THOROUGH else None
    (c.exe, c.exe2), beh = both(hs, lambda: model(num))
    return beh


def N(k):
    return k * (8 if THOROUGH else 1)


def fill(s, R, n, active=0):
    """n clients that stay connected, `active` of them having exchanged SETTINGS"""
    cs = []
    for i in range(n):
        c = s.connect()
        if i < active:
            s.feed(c, R, c.opening(R))
        cs.append(c)
    s("settle")
    return cs


def replay(R, name, b, places=2, orders=True, tls=False):
    """a behaviour of ServerMC; all but `places` of the 128 places are taken by other clients"""
    s = Srv(name, tls=tls)
    if orders:
        s("ord %s %d" % (R.choice(["asc", "desc", "lru", "rnd"]), R.randrange(1000)))
    n = max([op[1] for op in (o[1:] if o[0] == "late" else o for o in b) if len(op) > 1] + [0])
    for k in range(1, n + 1):
        s.client(k)
    others = fill(s, R, LIMIT - places) if places < LIMIT else []
    quiet = 0
    for op in b:
        pre = ""
        if op[0] == "late":
            pre, op = "late ", op[1:]
        o = op[0]
        if o in ("go", "intr", "stop"):
            s(pre + o)
        elif o == "idle":
            quiet += 1
            if others and quiet % 2 == 0:
                for c in others:
                    s("feed %d %02x" % (c.k, PREFACE[(quiet // 2 - 1) % 24]))
            s("idle 1750")
        elif o == "aerr":
            s(pre + "aerr %d" % R.choice(ACCEPT_ERRORS))
        elif o == "conn":
            s.connect(op[1], pre)
        elif o == "send":
            c = s.client(op[1])
            if c.over:
                continue
            if op[2] == "R":
                d = c.req(R, R.choice([b"/s", b"/s", b"/l", b"/none", b"/t", b"/"]))
            else:
                d, c.over = erroneous(R, c) if R.random() < 0.7 else goaway(), True
            s.feed(c, R, c.opening(R, d), pre, R.choice([0, 0, 3]))
        elif o == "room":
            n = -1 if op[2] else R.choice([0, 0, 1, 9, 30, 60, 5000])
            s("%sroom %d %d" % (pre, op[1], n))
        elif o in ("fin", "rst"):
            s("%s%s %d" % (pre, o, op[1]))
    if "stop" not in s.lines:
        for k in range(1, n + 1):
            s("room %d -1" % k)
        s("settle")
    return s.done()


def go(c, cases, poll=None):
    tr = decide(c, "ServerTrace", getattr(c, "net", None) or c.exe, cases, project, timeout=120)
    if poll:
        tr2 = decide(c, "ServerTrace", c.exe2, [("p." + str(i), ls, m) for i, ls, m in poll], project, timeout=120, what="with PollPoller")
        tr.update(tr2)
    evs = [e for t in tr.values() for e in t["ev"]]
    c.cov["events"] = len(evs)
    for op in ("acc", "close", "call", "wblock", "wait", "stop", "accerr", "eof", "werr", "rerr"):
        c.cov[op] = sum(e["op"] == op for e in evs)
    c.cov["virtual_seconds"] = round(sum(max([e["now"] for e in t["ev"] if e["op"] == "ready"] + [0]) for t in tr.values()) / 1000)
    for i in (0, -1):
        c.sample(" ; ".join(l for l in cases[i][1] if not l.startswith("route"))[:500])
    c.assumptions.append("sockets, epoll and the clock behave as simulated by harness/sim_driver.cpp (calls the simulation does not know reach the real kernel and fail)")
    return tr


def traffic(R, name, n, steps, kinds="rrrlbfxwo", extra=(), late=0.15, idle=0.04):
    """random clients and events"""
    s = Srv(name)
    s("ord %s %d" % (R.choice(["asc", "desc", "lru", "rnd"]), R.randrange(1000)))
    live, made = [], 0
    for _ in range(steps):
        pre = "late " if R.random() < late else ""
        if made < n and (not live or R.random() < 0.3):
            made += 1
            c = s.connect(pre=pre)
            live.append(c)
            if R.random() < 0.3:
                continue
        c = R.choice(live)
        k = R.choice(kinds)
        if c.over:
            k = R.choice("wog")
        if k == "r":
            s.ask(R, c, R.choice([b"/s", b"/", b"/none", b"/t"]), pre, extra=[(b"x-%d" % R.randrange(4), rstr(R, 6))])
        elif k == "l":
            s.ask(R, c, R.choice([b"/l", b"/l", b"/h"]), pre)
        elif k == "b":
            s.feed(c, R, c.opening(R, erroneous(R, c)), pre)
            c.over = True
        elif k == "p" and not c.begun:
            s.feed(c, R, bytes([R.randrange(256)]) + PREFACE[1:], pre)
            c.over = c.begun = True
        elif k in "fx":
            s(pre + ("fin" if k == "f" else "rst") + " %d" % c.k)
            c.over = True
        elif k == "w":
            s(pre + "room %d %d" % (c.k, R.choice([0, 0, 1, 8, 9, 10, 100, 5000, 20000])))
        elif k == "o":
            s(pre + "room %d -1" % c.k)
        elif k == "n" and c.begun:
            s.feed(c, R, neutral(R), pre)
        elif k == "g" and R.random() < 0.3:
            s("spur %d" % c.k)
        if R.random() < 0.1:
            s("%saerr %d" % (pre, R.choice(ACCEPT_ERRORS)))
        if R.random() < 0.05:
            s("intr")
        if R.random() < 0.05:
            s("tick %d" % R.choice([1, 20, 200, 1000, 2600]))
        for x in extra:
            if R.random() < x[0]:
                s(x[1](R, c))
        if R.random() < 0.6:
            s("go" if R.random() < 0.8 else "go %d" % R.randint(2, 4))
        if R.random() < idle:
            s("idle %d" % R.choice([100, 1000, 2500, 4900, 5100, 6000]))
    for c in s.cl.values():
        s("room %d -1" % c.k)
    s("settle")
    return s.done()


def C22(c):
    beh = start(c, 40, True)
    R = rng("C22")
    cases = [replay(R, "g%d" % i, b, R.choice([1, 2, 2, 2])) for i, b in enumerate(beh)]
    for i in range(N(3)):
        s = Srv("full%d" % i)
        s("ord %s %d" % (["asc", "desc", "rnd"][i % 3], i))
        cs = fill(s, R, LIMIT, 6 if i % 2 else 0)
        for rnd in range(3):
            late = [s.connect() for _ in range(R.choice([1, 3]))]      # no place for these
            for x in late:
                s.ask(R, x)
            s("settle")
            gone = R.sample(cs, 4)
            for x, how in zip(gone, R.sample(["fin", "rst", "bad", "goaway", "preface"], 4)):
                if how in ("fin", "rst"):
                    s("%s %d" % (how, x.k))
                else:
                    s.feed(x, R, x.opening(R, goaway() if how == "goaway" else frame(4, 0, 0, b"x")) if how != "preface" or x.begun else b"GET / HTTP/1.1\r\n\r\n")
            if R.random() < 0.5:
                s("settle")
            new = [s.connect() for _ in range(6)]                      # four of them find a place (or as many as are free by then)
            for x in new:
                s.ask(R, x)
            s("settle")
            cs = [x for x in cs if x not in gone] + new[:4]
            s.ask(R, R.choice(new[:4]), b"/l")("settle")
        # idleness frees all places
        s("idle 5200")
        for _ in range(5):
            s.ask(R, s.connect())
        s("settle")
        cases.append(s.done())
    # the same few places again and again
    for i in range(N(1)):
        s = Srv("churn%d" % i)
        fill(s, R, LIMIT - 1)
        for j in range(60 if not THOROUGH else 300):
            x = s.connect()
            s.ask(R, x)
            k = R.randrange(5)
            s(R.choice(["go", "go 2", "settle"]))
            if k == 0:
                s("fin %d" % x.k)
            elif k == 1:
                s("rst %d" % x.k)
            elif k == 2:
                s.feed(x, R, erroneous(R, x))
            elif k == 3:
                s.feed(x, R, goaway())
            else:
                s("late rst %d" % x.k)
            s("settle")
            if j % 20 == 19:
                s("tick 100")
        cases.append(s.done())
    cases.append(burst(R, "burst", 300))
    go(c, cases, cases[:6] + cases[-5:-3])


def burst(R, name, n):
    """more clients at once than there is place for"""
    s = Srv(name)
    for i in range(n):
        x = s.connect()
        if i % 3 == 0:
            s.ask(R, x)
    s("settle", "idle 5100", "settle")
    for i in range(5):
        s.ask(R, s.connect())
    s("settle")
    return s.done()


def C23(c):
    beh = start(c, 60)
    R = rng("C23")
    cases = [replay(R, "g%d" % i, b, LIMIT) for i, b in enumerate(beh)]
    phases = {
        "accepted": lambda s, x: None,
        "half a preface": lambda s, x: s.feed(x, R, PREFACE[:R.randint(1, 23)]),
        "preface": lambda s, x: s.feed(x, R, x.opening(R)),
        "answered": lambda s, x: s.ask(R, x),
        "half a frame": lambda s, x: s.feed(x, R, x.opening(R, x.req(R)[:-R.randint(1, 10)])),
        "frame header": lambda s, x: s.feed(x, R, x.opening(R, frame(4, 0, 0, b"", length=R.choice([6, 16384]))[:R.randint(1, 9)])),
        "reader accepts nothing": lambda s, x: s("room %d 0" % x.k).ask(R, x, b"/l"),
        "reader stopped": lambda s, x: s("room %d %d" % (x.k, R.choice([1, 30, 5000, 30000]))).ask(R, x, b"/l"),
        "goaway unsent": lambda s, x: s("room %d 0" % x.k).feed(x, R, x.opening(R, goaway())),
        "error unsent": lambda s, x: s("room %d 0" % x.k).feed(x, R, x.opening(R, erroneous(R, x))),
    }
    i = 0
    for nm, f in phases.items():
        for ms in (4900, 5001, 5100):
            for v in range(N(1)):
                i += 1
                s = Srv("idle%d" % i)
                a, x, b = s.hello(R), s.connect(), s.hello(R)
                s("settle")
                f(s, x)
                s("settle", "idle %d" % R.randint(0, 2000)) if v % 2 else s("settle")
                if R.random() < 0.5:     # neighbours that stay active
                    s("idle %d" % (ms // 2)).ask(R, a)("idle %d" % (ms - ms // 2))
                else:
                    s("idle %d" % ms)
                s.ask(R, a)
                s.ask(R, b)
                s("room %d -1" % x.k, "settle")
                if not x.over and R.random() < 0.5:
                    s.ask(R, x)("settle")
                s("idle 5100", "settle")
                cases.append(s.done())
    # progress of every kind keeps a connection
    for i in range(N(4)):
        s = Srv("alive%d" % i)
        x = s.connect()
        data = x.opening(R, b"".join(x.req(R) for _ in range(2)))
        step = R.choice([4000, 4900, 4975, 3333])
        for k in range(0, min(len(data), 60), 4):
            s.feed(x, R, data[k:k + 4])("settle", "idle %d" % step)
        s.feed(x, R, data[60:])("settle")
        cases.append(s.done())
        s = Srv("drip%d" % i)
        x = s.connect()
        s("room %d 0" % x.k).ask(R, x, b"/l")("settle")
        for k in range(12):
            s("room %d %d" % (x.k, R.choice([1, 9, 50, 5000])), "settle", "idle %d" % step)
        s("room %d -1" % x.k, "settle")
        cases.append(s.done())
        s = Srv("neutral%d" % i)
        x = s.hello(R)
        for k in range(6):
            s.feed(x, R, neutral(R))("settle", "idle %d" % R.choice([step, 4999, 4950]))
        s.ask(R, x)("settle", "idle 5050", "settle")
        cases.append(s.done())
    # time passing between the report and its handling, and in odd steps
    for i in range(N(12)):
        s = Srv("tick%d" % i)
        cs = [s.hello(R) for _ in range(4)]
        s("settle")
        for _ in range(14):
            x = R.choice(cs)
            pre = R.choice(["", "late "])
            s("%stick %d" % (R.choice(["", "late "]), R.choice([0, 1, 1000, 2499, 2500, 2501, 4999, 5000, 5001])))
            if R.random() < 0.7:
                s.ask(R, x, pre=pre)
            s("go")
        s("settle")
        cases.append(s.done())
    import io_checks as io
    cases += [io.stalled(R, i) for i in range(N(12))] + [io.steady(R, i) for i in range(N(3))] + [io.shaken(R, i) for i in range(N(6))] + [io.tls_full(R, i) for i in range(N(4))]
    cases += [traffic(R, "t%d" % i, 6, 40, idle=0.25) for i in range(N(25))]
    go(c, cases)


def C24(c):
    beh = start(c, 100, True)
    R = rng("C24")
    cases = [replay(R, "g%d" % i, b, R.choice([LIMIT, LIMIT, LIMIT, 2])) for i, b in enumerate(beh[:70])]
    poll = [replay(R, "q%d" % i, b, LIMIT) for i, b in enumerate(beh[70:])]
    # a number is given again: by way of every kind of ending, with events of the old owner still in the batch
    ends = ["fin", "rst", "bad", "goaway", "idle", "preface", "rstblocked", "lastwrite"]
    for i, how in enumerate(ends * N(3)):
        s = Srv("reuse%d" % i)
        s("ord %s %d" % (["asc", "desc", "rnd"][i % 3], i))
        a, x = s.hello(R), s.connect()
        s.ask(R, x, R.choice([b"/s", b"/l"]), extra=[(b"x-secret", b"of the first")])
        s("settle")
        both_in_batch = R.random() < 0.5
        for g in range(3):
            if R.random() < 0.3:    # a close() that is interrupted has closed all the same
                s("fail close %d" % R.choice([E.EINTR, E.EINTR, E.EIO]))
            if how == "fin":
                s("fin %d" % x.k)
            elif how == "rst":
                s("rst %d" % x.k)
            elif how == "bad":
                s.feed(x, R, x.opening(R, erroneous(R, x)))
            elif how == "goaway":
                s.feed(x, R, x.opening(R, goaway()))
            elif how == "preface":
                s.feed(x, R, x.opening(R, frame(8, 0, 0, b"")))
            elif how == "idle":
                s("idle 2600").ask(R, a)("idle 2600")
            elif how == "rstblocked":
                s("room %d 0" % x.k).ask(R, x, b"/l")("settle", "rst %d" % x.k)
            elif how == "lastwrite":
                s("room %d 0" % x.k).ask(R, x, b"/l")("settle", "fail write %d" % E.EPIPE, "room %d 100" % x.k)
            if both_in_batch:
                y = s.connect()
                s("go")
            else:
                s("settle")
                y = s.connect()
            if R.random() < 0.5:
                s("settle")
            s.ask(R, y, R.choice([b"/s", b"/l"]), extra=[(b"x-secret", b"of another")])
            s.ask(R, a)
            s("settle", "room %d 3000" % y.k).ask(R, y, b"/l")("settle", "room %d -1" % y.k, "settle")
            x = y
        cases.append(s.done())
        if i < len(ends):
            poll.append(("r" + cases[-1][0],) + cases[-1][1:])
    # stopping with connections in every state
    for i in range(N(10)):
        s = Srv("stop%d" % i)
        cs = [s.connect() for _ in range(6)]
        for x in cs[1:]:
            s.ask(R, x, R.choice([b"/s", b"/l"]))
        if i % 2:
            s("fail close %d" % E.EINTR)
        s("room 3 100", "settle", "rst 4", "fin 5", "conn 7", "aerr %d" % E.ECONNABORTED, "%sstop" % R.choice(["", "late "]), "go")
        s.client(7)
        cases.append(s.done())
    # no place for some: what became of their descriptors, while others keep theirs
    for i in range(N(2)):
        s = Srv("turned%d" % i)
        cs = fill(s, R, LIMIT, 4)
        for rnd in range(3):
            for x in [s.connect() for _ in range(R.choice([1, 4]))]:
                s.ask(R, x)
            s("settle", "%s %d" % (R.choice(["fin", "rst"]), cs.pop().k), "settle")
            x = s.connect()
            s.ask(R, x, extra=[(b"x-secret", b"of a late one")])("settle")
            cs.append(x)
        s.ask(R, cs[0])("settle")
        if i % 2:
            s("late stop", "go")
        cases.append(s.done())
    cases += [traffic(R, "t%d" % i, R.choice([4, 10, 20]), 50, "rrrlbfxwofx") for i in range(N(40))]
    poll += [traffic(R, "u%d" % i, 8, 40, "rrrlbfxwofx") for i in range(N(15))]
    go(c, cases, poll)
    import io_checks
    io_checks.ownership(c, R, io_checks.tcp_harness(), io_checks.own_model())


def C25(c):
    beh = start(c, 80)
    R = rng("C25")
    cases = [replay(R, "g%d" % i, b, LIMIT) for i, b in enumerate(beh)]
    # well-behaved clients among all kinds of others
    for i in range(N(40)):
        s = Srv("iso%d" % i)
        s("ord %s %d" % (R.choice(["asc", "desc", "lru", "rnd"]), i))
        good = [s.hello(R) for _ in range(3)]
        bad = []
        for _ in range(30):
            if R.random() < 0.35 or not bad:
                bad.append(s.connect())
            x = R.choice(bad)
            k = R.randrange(9)
            if x.over:
                pass
            elif k == 0:
                s.feed(x, R, x.opening(R, erroneous(R, x)))
                x.over = True
            elif k == 1:
                s("rst %d" % x.k)
                x.over = True
            elif k == 2:
                s("fin %d" % x.k)
                x.over = True
            elif k == 3:
                s("room %d 0" % x.k).ask(R, x, b"/h")
            elif k == 4 and not x.begun:
                s.feed(x, R, bytes(R.randrange(256) for _ in range(R.choice([1, 24, 200]))))
                x.over = x.begun = True
            elif k == 5:
                s.ask(R, x, b"/t")
            elif k == 6:
                s.feed(x, R, x.opening(R, settings((1, R.choice([0, 40, 4096])))))
            else:
                s.ask(R, x, R.choice([b"/s", b"/none", b"/l"]), extra=[(b"x-%d" % R.randrange(3), rstr(R, 10))])
            if R.random() < 0.4:
                s("aerr %d" % R.choice(ACCEPT_ERRORS))
            if R.random() < 0.1:
                s("fail %s %d" % (R.choice(["getpeername", "setsockopt"]), E.EINVAL if R.random() < 0.5 else E.ENOTCONN))
            if R.random() < 0.7:
                s.ask(R, R.choice(good), R.choice([b"/s", b"/l", b"/none"]), extra=[(b"x-%d" % R.randrange(3), rstr(R, 10))])
            if R.random() < 0.5:
                s("go")
        s.ask(R, s.connect())("settle")
        cases.append(s.done())
    # every error accept() may report, alone and in bursts
    for i, e in enumerate(ACCEPT_ERRORS):
        s = Srv("acc%d" % e)
        a = s.hello(R)
        s("settle", "aerr %d" % e, "go 2").ask(R, a)("settle", "aerr %d" % e, "aerr %d" % R.choice(ACCEPT_ERRORS))
        s.ask(R, s.connect())("aerr %d" % e)
        s.ask(R, s.connect())("settle")
        cases.append(s.done())
    # clients that stop reading and are dropped for it, or leave, with much still unsent
    for i in range(N(6)):
        s = Srv("stuck%d" % i)
        a = s.hello(R)
        xs = [s.connect() for _ in range(R.randint(1, 4))]
        for x in xs:
            s.ask(R, x)("settle", "room %d %d" % (x.k, R.choice([0, 100, 20000]))).ask(R, x, R.choice([b"/l", b"/h"]))("settle", "room %d 0" % x.k)
        for _ in range(14):
            s("idle 400").ask(R, a)
            if i % 2 and R.random() < 0.3:
                s("%s %d" % (R.choice(["fin", "rst", "room"]), R.choice(xs).k) + " 0")
        s.ask(R, s.connect())("settle")
        cases.append(s.done())
    import io_checks as io
    cases += [io.misbehaving(R, i) for i in range(N(10))] + [io.session(R, "o%d" % i, 8, 50, 0.3) for i in range(N(8))]
    cases += [traffic(R, "t%d" % i, 12, 60, "rrrlbpfxwoxn") for i in range(N(30))]
    go(c, cases)


def C26(c):
    beh = start(c, 60, True)
    R = rng("C26")
    cases = [replay(R, "g%d" % i, b, LIMIT) for i, b in enumerate(beh)]
    # stop() at every system call of a busy history
    def busy(name):
        s = Srv(name)
        a, b, d = s.hello(R), s.hello(R), s.connect()
        s("room %d 3000" % b.k).ask(R, b, b"/l").ask(R, a)("go 2", "conn 4", "aerr %d" % E.EMFILE, "go")
        s.client(4)
        s.ask(R, a, b"/l")("rst %d" % d.k, "go 2", "room %d -1" % b.k, "go 2", "fin %d" % a.k, "settle", "idle 200")
        return s
    for i in range(1, 80):
        s = busy("at%d" % i)
        s.lines.insert(len(ROUTES), "stopat %d" % i)
        cases.append(s.done())
    for i in range(3):          # before it has begun to serve, with clients that come at once
        s = Srv("early%d" % i)
        s("early")
        for _ in range(i):
            s.ask(R, s.connect())
        s("go 3")
        cases.append(s.done())
    for i in range(N(25)):
        s = Srv("load%d" % i)
        cs = [s.connect() for _ in range(R.choice([1, 5, 30]))]
        for x in cs:
            s.ask(R, x, R.choice([b"/s", b"/l"]))
            if R.random() < 0.3:
                s("room %d %d" % (x.k, R.choice([0, 100])))
        s(*["go"] * R.randint(0, 5))
        s("stopat %d" % R.randint(1, 400)) if R.random() < 0.5 else s(R.choice(["stop", "late stop", "intr\nstop", "stop\nintr"]))
        for x in cs[:3]:
            s.ask(R, x)
        s("go 3")
        cases.append(s.done())
    # nothing else stops it
    for i in range(N(20)):
        cases.append(traffic(R, "t%d" % i, 10, 60, "rrlbpfxwoxn", extra=[(0.3, lambda R, x: "intr"), (0.2, lambda R, x: "aerr %d" % R.choice(ACCEPT_ERRORS))]))
    go(c, cases, cases[:20] + cases[-3:] + [x for x in cases if x[0].startswith("early")])
    # the program: signals, a broken output, its exit status, and the port afterwards
    import app_checks
    app_checks.program_ends(c, R, app_checks.program())


def C27(c):
    beh = start(c, 100, True)
    R = rng("C27")
    cases = [replay(R, "g%d" % i, b, LIMIT) for i, b in enumerate(beh[:80])]
    poll = [replay(R, "q%d" % i, b, LIMIT) for i, b in enumerate(beh[80:])]
    # a slow reader who keeps asking
    for i in range(N(25)):
        s = Srv("slow%d" % i)
        s("ord %s %d" % (R.choice(["asc", "desc", "lru", "rnd"]), i))
        x, y = s.hello(R), s.hello(R)
        s("settle", "room %d %d" % (x.k, R.choice([0, 1, 9, 20, 5000])))
        for k in range(R.randint(3, 25)):
            if R.random() < 0.5:
                s.ask(R, x, R.choice([b"/s", b"/l", b"/h", b"/none"]))
            if R.random() < 0.2:
                s.ask(R, y, b"/l")
            s("room %d %d" % (x.k, R.choice([0, 1, 8, 9, 10, 55, 1000, 16384, 50000])), R.choice(["go", "go 2", "settle", "settle"]))
            if R.random() < 0.1:
                s("spur %d" % x.k, "go")
        s("room %d -1" % x.k, "settle")
        cases.append(s.done())
    # requests that arrive at once, cut in any way, and between report and read
    for i in range(N(25)):
        s = Srv("cut%d" % i)
        x = s.connect()
        data = x.opening(R, b"".join(R.choice([x.req(R), x.req(R, b"/l"), neutral(R)]) for _ in range(R.randint(1, 12))))
        for ch in cutup(R, data, R.choice([0, 2, 3])):
            s("%sfeed %d %s" % (R.choice(["", "", "late "]), x.k, ch.hex()))
            if R.random() < 0.5:
                s("go")
        s("settle")
        cases.append(s.done())
    # very many frames at once, then a request, and silence
    for i, n in enumerate((100, 300, 700, 1500)):
        s = Srv("dense%d" % n)
        x = s.connect()
        s.feed(x, R, x.opening(R, b""), mode=0)("settle")
        s.feed(x, R, dense(R, x, n), mode=0)("settle")
        s.feed(x, R, b"".join(x.req(R) for _ in range(n // 3)) + dense(R, x, n // 2), mode=0)("settle")
        cases.append(s.done())
    # more input and more ready clients than any buffer holds
    for i in range(N(2)):
        s = Srv("many%d" % i)
        s("ord rnd %d" % i)
        cs = [s.connect() for _ in range(R.choice([70, 128]))]
        s("settle")
        for x in cs:
            s.ask(R, x)
        s("settle")
        for x in R.sample(cs, 40):
            s("room %d 10" % x.k).ask(R, x)
        s("settle")
        for x in cs:
            s("room %d -1" % x.k)
        s("settle")
        cases.append(s.done())
        s = Srv("much%d" % i)
        x = s.connect()
        s.feed(x, R, x.opening(R, b"".join(x.req(R) for _ in range(200)) + b"".join(frame(0, 0, 1, bytes(16384)) for _ in range(12)) + x.req(R)), mode=0)("settle")
        s.ask(R, x)("settle")
        cases.append(s.done())
    cases += [traffic(R, "t%d" % i, 6, 60, "rrrllwwoonb") for i in range(N(25))]
    poll += [traffic(R, "u%d" % i, 6, 50, "rrrllwwoonb") for i in range(N(10))] + cases[90:96]
    go(c, cases, poll)


CHECKS = {f.__name__: f for f in (C22, C23, C24, C25, C26, C27)}

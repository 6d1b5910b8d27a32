"""C15-C21: routing, middleware, static files, access log, statistics, program options.
Specifications: Router.tla, StaticFs.tla (design models RouterMC, StaticMC; trace spec RouterTrace), AccessLog in
LogTrace.tla, the whole program in App.tla."""
import html as _html
from common import *
from driver import *
from hpack_checks import both, rstr
import h2


def harness():
    return build("web", ["web_driver.cpp"], app=True,
                 only=lambda s: s.startswith("lib/") or s in ("app/server_stats.cpp", "app/status_page.cpp"))


MIME = {"": "application/octet-stream", ".html": "text/html; charset=utf-8", ".htm": "text/html; charset=utf-8", ".css": "text/css; charset=utf-8",
        ".js": "application/javascript; charset=utf-8", ".json": "application/json", ".xml": "application/xml", ".png": "image/png", ".jpg": "image/jpeg",
        ".jpeg": "image/jpeg", ".gif": "image/gif", ".svg": "image/svg+xml", ".ico": "image/x-icon", ".txt": "text/plain; charset=utf-8",
        ".pdf": "application/pdf", ".zip": "application/zip", ".woff": "font/woff", ".woff2": "font/woff2", ".ttf": "font/ttf", ".webp": "image/webp"}
MIME_TLA = [{"ext": list(k.encode()), "type": list(v.encode())} for k, v in MIME.items()]
GET, HEAD, POST = b"GET", b"HEAD", b"POST"


def parts(p):
    return [list(x) for x in p.strip(b"/").split(b"/")]


class Tree:
    """A file tree in the scratch directory and its description for the specification."""

    def __init__(self):
        self.base = tempfile.mkdtemp(prefix="tree-", dir=work())
        self.base = os.path.realpath(self.base)
        self.b = self.base.encode()
        self.nodes, self.contents = [], {}
        parts = self.b.strip(b"/").split(b"/")
        for i in range(1, len(parts) + 1):
            self.nodes.append({"path": [list(x) for x in parts[:i]], "kind": "dir", "id": 0, "len": 0, "target": []})

    def _add(self, rel, kind, i=0, n=0, target=b""):
        self.nodes.append({"path": [list(x) for x in (self.b + b"/" + rel).strip(b"/").split(b"/")], "kind": kind, "id": i, "len": n, "target": list(target)})
        return os.path.join(self.b, rel)

    def dir(self, *rels):
        for rel in rels:
            os.mkdir(self._add(rel, "dir"))
        return self

    def file(self, rel, data):
        i = len(self.contents) + 1
        self.contents[i] = data
        with open(self._add(rel, "file", i, len(data)), "wb") as f:
            f.write(data)
        return self

    def link(self, rel, target):
        os.symlink(target, self._add(rel, "link", 0, 0, target))
        return self

    def fifo(self, rel):
        os.mkfifo(self._add(rel, "other"))
        return self

    def ids(self, body):
        return [i for i, d in self.contents.items() if d == body]


class Script:
    def __init__(self, name, tree=None):
        self.name, self.tree, self.lines, self.ops, self.routes, self.slot = name, tree, [], [], {}, 0

    def route(self, m, p, status=200, n=0, thr=0):
        i = len(self.routes) + 1
        self.routes[i] = h2.body_of(n, i)
        self.lines.append("route %s %s %d %d %d %d %d" % (H(m), H(p), i, status, n, i, thr))
        self.ops.append({"op": "route", "r": {"k": "route", "m": list(m), "p": list(p), "id": i, "status": status, "len": n, "body": 1000 + i, "thr": thr}})
        return self

    def static(self, prefix, root):
        self.lines.append("static %s %s" % (H(prefix), H(root)))
        self.ops.append({"op": "static", "prefix": list(prefix), "root": list(root)})
        return self

    def mw(self, i, kind, n=0):
        self.lines.append("mw %d %s %d" % (i, kind, n))
        self.ops.append({"op": "mw", "id": i, "kind": kind, "n": n})
        return self

    def page(self):
        self.lines.append("page")
        self.ops.append({"op": "mw", "id": 0, "kind": "stat", "n": 0})
        self.ops.append({"op": "route", "r": {"k": "page", "m": list(GET), "p": list(b"/_ion/status"), "id": 0, "status": 200, "len": 0, "body": 0, "thr": 0}})
        return self

    def get(self, slot, m, p):
        self.lines.append("get %d %s %s" % (slot, H(m), H(p)))
        self.ops.append({"op": "get", "slot": slot, "m": list(m), "p": list(p)})
        return self

    def call(self, slot, m, p, hdrs=()):
        self.lines.append("call %d %s %s %s" % (slot, H(m), H(p), " ".join(H(a) + " " + H(b) for a, b in hdrs)))
        self.ops.append({"op": "call", "slot": slot, "m": list(m), "p": list(p), "hdrs": [[list(a), list(b)] for a, b in hdrs]})
        return self

    def req(self, m, p, hdrs=()):
        self.slot += 1
        return self.get(self.slot, m, p).call(self.slot, m, p, hdrs)

    def many(self, m, p, n):
        self.slot += 1
        self.get(self.slot, m, p)
        self.lines.append("many %d %d %s %s" % (self.slot, n, H(m), H(p)))
        self.ops.append({"op": "many", "slot": self.slot, "n": n})
        return self

    def stats(self):
        self.lines.append("stats")
        self.ops.append({"op": "stats"})
        return self

    # edits of the tree while it is served
    def _put(self, rel, kind, i, data, target, word, arg):
        p = self.tree.b + b"/" + rel
        self.lines.append("fs %s %s %s" % (word, H(p), H(arg)))
        self.ops.append({"op": "put", "node": {"path": parts(p), "kind": kind, "id": i, "len": len(data), "target": list(target)}})
        return self

    def mkdir(self, rel):
        return self._put(rel, "dir", 0, b"", b"", "mkdir", b"")

    def write(self, rel, data):
        i = len(self.tree.contents) + 1
        self.tree.contents[i] = data
        return self._put(rel, "file", i, data, b"", "file", data)

    def link(self, rel, target):
        return self._put(rel, "link", 0, b"", target, "link", target)

    def rm(self, rel):
        p = self.tree.b + b"/" + rel
        self.lines.append("fs rm %s" % H(p))
        self.ops.append({"op": "rm", "path": parts(p)})
        return self

    def mv(self, rel, to):
        a, b = self.tree.b + b"/" + rel, self.tree.b + b"/" + to
        self.lines.append("fs mv %s %s" % (H(a), H(b)))
        self.ops.append({"op": "mv", "path": parts(a), "to": parts(b)})
        return self

    def drop(self, s):
        self.lines.append("drop %d" % s)
        return self

    def done(self):
        return (self.name, self.lines, self)


NOPAGE = {"total": -1, "codes": []}


def page_numbers(body):
    t = body.decode("utf-8", "replace")
    m = re.search(r'Requests</span><span class="value">\s*(\d+)\s*<', t)
    if not m:
        return NOPAGE
    codes = re.findall(r"code-num'>\s*(\d+)\s*</span>\s*(\d+)\s*<", t)
    if not codes and "No requests yet" not in t:
        return NOPAGE
    return {"total": int(m.group(1)), "codes": [[int(a), int(b)] for a, b in codes]}


def project(lines, s):
    known = {1000 + i: b for i, b in s.routes.items() if b}

    def res(w):
        body = bytes(U(w[1]))
        ids = [i for i, b in known.items() if b == body] + (s.tree.ids(body) if s.tree and body else [])
        return {"thrown": False, "status": int(w[0]), "len": len(body), "ids": ids, "hdrs": [[U(w[i]), U(w[i + 1])] for i in range(2, len(w), 2)],
                "page": page_numbers(body) if b"ion server status" in body else NOPAGE}
    thrown = {"thrown": True, "status": 0, "len": 0, "ids": [], "hdrs": [], "page": NOPAGE}
    none = {"m": [], "p": [], "hdrs": [], "res": thrown}
    results, cur, ev = [], None, []
    for ln in lines:
        w = ln.split()
        if w[0] == "begin":
            ev = []
        elif w[0] in ("enter", "handler"):
            ev.append(dict(none, k=w[0], id=int(w[1]), m=U(w[2]), p=U(w[3]), hdrs=[[U(w[i]), U(w[i + 1])] for i in range(4, len(w), 2)]))
        elif w[0] == "leave":
            ev.append(dict(none, k="leave", id=int(w[1]), res=res(w[2:])))
        elif w[0] in ("answer", "caught"):
            ev.append(dict(none, k=w[0], id=int(w[1])))
        elif w[0] == "res":
            results.append((ev, res(w[1:])))
        elif w[0] == "thrown":
            results.append((ev, thrown))
        elif w[0] == "many":
            results.append({"outs": [int(x) for x in w[1:]]})
        elif w[0] == "stats":
            results.append({"total": int(w[1]), "codes": [[int(w[i]), int(w[i + 1])] for i in range(2, len(w), 2)]})
    out, k = [], 0
    for o in s.ops:
        if o["op"] == "call":
            o = dict(o, ev=results[k][0], res=results[k][1])
            k += 1
        elif o["op"] in ("stats", "many"):
            o = dict(o, **results[k])
            k += 1
        out.append(o)
    return {"cfg": {"fs": s.tree.nodes if s.tree else [], "mime": MIME_TLA}, "ev": out}


def go(c, exe, scripts):
    tr = decide(c, "RouterTrace", exe, [s.done() for s in scripts], project)
    calls = [e for t in tr.values() for e in t["ev"] if e["op"] == "call"]
    c.cov["calls"] = len(calls)
    by = {}
    for e in calls:
        k = "thrown" if e["res"]["thrown"] else str(e["res"]["status"])
        by[k] = by.get(k, 0) + 1
    c.cov["results"] = by
    c.sample(" ; ".join(scripts[0].lines[:14])[:400])
    c.sample(" ; ".join(scripts[-1].lines[:14])[:400])


def N(k):
    return k * (8 if THOROUGH else 1)


def small_tree():
    t = Tree()
    t.dir(b"r1", b"r2", b"r3").file(b"r1/f", b"one").file(b"r2/f", b"twotwo").file(b"r3/f", b"3").file(b"r1/s", b"x").file(b"r3/index.html", b"<i>").dir(b"r3/s").file(b"r3/s/f", b"deep")
    return t


def from_model(i, hist, tree):
    s = Script("m%d" % i, tree)
    look = {}
    for e in hist:
        o = e["op"]
        if o == "route":
            s.route(bytes(e["m"]), bytes(e["p"]), e["status"] or 200, i % 3, e["thr"])
        elif o == "static":
            s.static(bytes(e["prefix"]), tree.b + b"/r%d" % (1 + (e["n"] - 1) % 3))
        elif o == "mw":
            s.mw(e["id"], e["kind"], e["n"])
        elif o == "page":
            s.page()
        elif o == "get":
            s.get(e["slot"], bytes(e["m"]), bytes(e["p"]))
            look[e["slot"]] = (bytes(e["m"]), bytes(e["p"]))
        else:
            m, p = look[e["slot"]]
            s.call(e["slot"], m, p, [(b"x-n", b"%d" % i)])
    return s.stats()


def router_model(num):
    tlc_check("RouterMC", over={"MaxOps": "4" if THOROUGH else "3"}, timeout=900)
    return behaviours("RouterMC", "RouterGen.cfg", num=N(num), depth=20)


PATHS = [b"/", b"/a", b"/b", b"/a/", b"/A", b"/a?x=1", b"/a?", b"", b"a", b"/s", b"/s/", b"/s/f", b"/s/f?q", b"/sf", b"/s/g", b"/s/index.html", b"/s//f", b"/%61", b"/a\x00", b"/\xff", b"/_ion/status", b"*",
         b"/s/../a", b"/st", b"/s/s/f"]
METHODS = [GET, GET, GET, HEAD, HEAD, POST, b"PUT", b"get", b"", b"GETX", b"OPTIONS"]
KINDS = ["pass", "pass", "tag", "tag", "short", "throwb", "throwa", "catch", "status"]


def random_router(R, i, tree, nmw=0, page=False, n=40, hold=True):
    s = Script("x%d" % i, tree)
    mid = 0
    if page:
        s.page()
    live = {}
    ops = [0] * 3 + [1] + [2] * (2 if nmw else 0) + [3] * 8 + [4] * 6
    for _ in range(n):
        k = R.choice(ops)
        if k == 0:
            s.route(R.choice(METHODS), R.choice(PATHS), R.choice([200, 200, 201, 204, 301, 404, 418, 500, 599, 100]), R.choice([0, 0, 1, 17]), R.choice([0, 0, 0, 0, 1, 2, 3]))
        elif k == 1:
            s.static(R.choice([b"/s", b"/s/", b"/", b"", b"/a", b"/st"]), tree.b + b"/" + R.choice([b"r1", b"r2", b"r3", b"r3/", b"none", b"r1/f", b"./r1", b"r2/../r1"]))
        elif k == 2 and mid < nmw:
            mid += 1
            kd = R.choice(KINDS)
            s.mw(mid, kd, R.choice([0, 1]) if kd == "throwb" else R.choice([200, 403, 404, 500, 503]))
        elif k == 3:
            m, p = R.choice(METHODS), R.choice(PATHS)
            if hold:
                sl = R.randrange(6)
                live[sl] = (m, p)
                s.get(sl, m, p)
            else:
                s.req(m, p)
        elif k == 4 and live:
            sl = R.choice(sorted(live))
            m, p = live[sl]
            # what is served is fixed by the lookup: the request given to the handler is only passed on
            s.call(sl, m, p, [(b"h%d" % R.randrange(3), rstr(R, R.choice([0, 3, 40])))] * R.choice([0, 1, 2]))
    return s.stats()


def C15(c):
    exe, beh = both(harness, lambda: router_model(120))
    R = rng("C15")
    tree = small_tree()
    sc = [from_model(i, b, tree) for i, b in enumerate(beh)]
    sc += [random_router(R, i, tree, n=60) for i in range(N(60))]
    # every pair of near-equal paths and methods registered against every request
    for i in range(N(6)):
        s = Script("p%d" % i, tree)
        for _ in range(12):
            s.route(R.choice(METHODS), R.choice(PATHS), 200, 1)
        for pf, r in R.sample([(b"/s", b"r1"), (b"/s/", b"r2"), (b"/", b"r3"), (b"/s", b"r2"), (b"", b"r1"), (b"/st", b"r3")], 3):
            s.static(pf, tree.b + b"/" + r)
        for p in PATHS:
            for m in (GET, HEAD, POST, b"get"):
                s.req(m, p)
        sc.append(s)
    # many routes and lookups held across many registrations
    s = Script("many", tree)
    for k in range(300):
        s.route(GET, b"/r%d" % k, 200, 1 if k % 50 == 0 else 0)
        s.get(k, GET, b"/r%d" % k)
        if k % 40 == 0:
            s.static(b"/s%d" % k, tree.b + b"/r%d" % (1 + k % 3)).get(1000 + k, HEAD if k % 80 else GET, b"/s%d/f" % k)
    for k in range(0, 300, 3):
        s.call(k, GET, b"/r%d" % k)
        if k % 40 == 0:
            s.call(1000 + k, HEAD if k % 80 else GET, b"/s%d/f" % k)
    sc.append(s)
    go(c, exe, sc)
    c.cov["model_behaviours_replayed"] = len(beh)


def C16(c):
    exe, beh = both(harness, lambda: router_model(160))
    R = rng("C16")
    tree = small_tree()
    sc = [from_model(i, b, tree) for i, b in enumerate(beh)]
    sc += [random_router(R, i, tree, nmw=6, n=50) for i in range(N(80))]
    # every ordering of up to three kinds around a route, a throwing route, a static file and nothing
    kinds = ["pass", "tag", "short", "throwb", "throwa", "catch", "status"]
    combos = [()] + [(a,) for a in kinds] + [(a, b) for a in kinds for b in kinds] + [(a, b, d) for a in kinds for b in kinds for d in kinds]
    s = None
    for i, cb in enumerate(combos):
        s = Script("k%d" % i, tree)
        s.route(GET, b"/a", 200, 1).route(GET, b"/t", 200, 0, 1 + i % 3).static(b"/s", tree.b + b"/r1")
        for j, kd in enumerate(cb):
            if j == 1:
                s.get(50, GET, b"/a")
            s.mw(j + 1, kd, i % 2 if kd == "throwb" else 403)
        for m, p in ((GET, b"/a"), (GET, b"/t"), (GET, b"/s/f"), (HEAD, b"/s/f"), (b"PUT", b"/n")):
            s.req(m, p, [(b"k", b"v")])
        if len(cb) > 1:
            s.call(50, GET, b"/a")
        sc.append(s)
    go(c, exe, sc)
    c.cov["model_behaviours_replayed"] = len(beh)


def C20(c):
    exe, beh = both(harness, lambda: router_model(120))
    R = rng("C20")
    tree = small_tree()
    sc = [from_model(i, b, tree) for i, b in enumerate(beh)]
    for i in range(N(60)):
        s = Script("s%d" % i, tree)
        if i % 3:
            s.page()
        for k in range(5):
            s.route(R.choice([GET, POST]), R.choice([b"/a", b"/b", b"/c", b"/d"]), R.choice([200, 201, 301, 404, 500, 503, 100, 999]), 0, R.choice([0, 0, 0, 1, 2, 3]))
        s.static(b"/s", tree.b + b"/r1")
        if i % 3 == 0:
            s.page()
        for k in range(R.choice([0, 0, 1, 2])):
            kd = R.choice(["pass", "status", "short", "throwa", "throwb", "catch"])
            s.mw(k + 1, kd, 0 if kd == "throwb" else R.choice([200, 404, 500, 503]))
        for _ in range(R.choice([5, 30, 60])):
            m, p = R.choice([(GET, b"/_ion/status"), (HEAD, b"/_ion/status"), (GET, b"/a"), (POST, b"/b"), (GET, b"/c"), (GET, b"/d"), (GET, b"/s/f"), (HEAD, b"/s/f"), (GET, b"/s/none"), (GET, b"/x"), (GET, b"/s/../x")])
            s.req(m, p)
            if R.random() < 0.2:
                s.stats()
        s.req(GET, b"/_ion/status").stats()
        sc.append(s)
    for i, n in enumerate([255, 65535, 66000] * (3 if THOROUGH else 1) + [140000, 1100000][:2 if THOROUGH else 1]):
        # many requests: the counters count all of them
        s = Script("n%d" % i, tree).page()
        s.route(GET, b"/a", 200).route(GET, b"/b", 503).route(GET, b"/c", 200, 0, 1).static(b"/s", tree.b + b"/r1")
        if i % 2:
            s.mw(1, "pass").mw(2, "catch", 404)
        paths = [b"/a", b"/b", b"/c", b"/none", b"/s/f"]
        R.shuffle(paths)
        for q in paths[:2]:
            s.req(GET, q).many(GET, q, n).req(GET, b"/_ion/status").stats().req(GET, q)
        s.req(GET, b"/_ion/status").stats()
        sc.append(s)
    go(c, exe, sc)
    c.cov["model_behaviours_replayed"] = len(beh)


# ------------------------------------------------------------------ static files
def mc_tree():
    """the tree of StaticMC"""
    t = Tree()
    t.dir(b"w", b"w/p", b"w/pq", b"w/o").file(b"w/o/a.txt", b"outside9!").file(b"w/pq/a.txt", b"sibling8")
    t.file(b"w/p/a.txt", b"1").dir(b"w/p/d").file(b"w/p/d/a.txt", b"22")
    t.link(b"w/p/l", b"../o/a.txt").link(b"w/p/ld", b"../o").link(b"w/p/li", b"d/a.txt").link(b"w/p/ll", b"ll").link(b"w/p/lx", b"../o/x").link(b"w/p/la", t.b + b"/w/p/d")
    t.link(b"w/p/d/l", b"../../pq").file(b"w/p/index.html", b"333").fifo(b"w/p/d/x")
    return t


def static_model():
    return behaviours("StaticMC", "StaticMC.cfg", over={"MaxLen": "4"} if THOROUGH else None, timeout=900)


def live(name):
    """a tree that is built, changed and served by one script"""
    t = Tree()
    s = Script(name, t)
    s.mkdir(b"w").rm(b"w").mkdir(b"w").mkdir(b"w/p").mkdir(b"w/o").write(b"w/o/a.txt", b"secret 01").mkdir(b"w/o/d").write(b"w/o/d/a.txt", b"secret 02")
    s.write(b"w/p/a.txt", b"content03").mkdir(b"w/p/d").write(b"w/p/d/a.txt", b"content04").write(b"w/p/index.html", b"content05")
    return s


def replay_hist(i, hist):
    """a behaviour of StaticHist; every lookup but some is made just before its call"""
    s = live("h%d" % i)
    s.static(b"/s", s.tree.b + b"/w/p")
    early = None
    for k, e in enumerate(hist):
        q = b"w/p/" + b"/".join(bytes(x) for x in e["path"]) if e["op"] != "get" else None
        if e["op"] == "put" and e["kind"] == "file":
            s.write(q, b"content%02d" % (len(s.tree.contents) + 1))
        elif e["op"] == "put" and e["kind"] == "dir":
            s.rm(q).mkdir(q)
        elif e["op"] == "put":
            x = bytes(e["target"])
            s.link(q, s.tree.b + x if x.startswith(b"/") else x)
        elif e["op"] == "rm":
            s.rm(q)
        elif e["op"] == "mv":
            s.mv(q, b"w/p/" + b"/".join(bytes(x) for x in e["to"]))
        else:
            p = b"/s" + bytes(e["path"])
            s.req(GET if k % 3 else HEAD, p)
            if early is not None and i % 2:
                s.call(*early)
            early = (s.slot, GET if k % 3 else HEAD, p)
    for p in (b"/s/a.txt", b"/s/d/a.txt", b"/s/l", b"/s/l/a.txt", b"/s"):
        s.req(GET, p).req(HEAD, p)
    return s


def changing(R, i):
    """files replaced by others, by links and by nothing, between requests for the same paths"""
    s = live("c%d" % i)
    s.static(b"/s", s.tree.b + b"/w/p").static(b"/q/", s.tree.b + b"/w/p/d")
    there = {b"a.txt": "f", b"d": "d", b"d/a.txt": "f", b"index.html": "f"}
    for _ in range(R.choice([10, 25, 40])):
        k = R.random()
        if k < 0.6:
            p = R.choice([b"/s/a.txt", b"/s/a.txt", b"/s/d/a.txt", b"/s/d/a.txt", b"/s/l", b"/s/l/a.txt", b"/s", b"/q/a.txt", b"/q/../a.txt", b"/s/d", b"/s/x.css", b"/s/a.txt?v=%d" % R.randrange(3)])
            s.req(R.choice([GET, GET, HEAD]), p)
            continue
        q = R.choice([b"a.txt", b"a.txt", b"d/a.txt", b"l", b"x.css", b"index.html", b"d"])
        if q == b"d/a.txt" and there.get(b"d") != "d":
            q = b"a.txt"
        if q == b"d":
            there.pop(b"d/a.txt", None)
        if k < 0.78 and q != b"d":
            s.write(b"w/p/" + q, R.choice([b"content%02d" % (len(s.tree.contents) + 1), b"longer content %d" % len(s.tree.contents) * R.choice([1, 50, 2000]), b""]))
            there[q] = "f"
        elif k < 0.88:
            s.link(b"w/p/" + q, R.choice([b"../o" if b"/" not in q else b"../../o", b"../o/a.txt", s.tree.b + b"/w/o/a.txt", s.tree.b + b"/w/p/d", b"index.html", b"d/a.txt", s.tree.b + b"/w/o/d"]))
            there[q] = "l"
        elif k < 0.93 and q in (b"d", b"l"):
            s.rm(b"w/p/" + q).mkdir(b"w/p/" + q)
            there[q] = "d"
        else:
            s.rm(b"w/p/" + q)
            there.pop(q, None)
    return s


def hist_model(num):
    tlc_check("StaticHist", over={"MaxOps": "4"} if THOROUGH else None, timeout=900)
    return behaviours("StaticHist", "StaticHistGen.cfg", num=num * (8 if THOROUGH else 1), depth=12)


def replay_static(paths, tree, chunk=350, tag="m"):
    sc = []
    for i in range(0, len(paths), chunk):
        s = Script("e%d.%s" % (i, tag), tree)
        s.static(b"/s", tree.b + (b"/w/p", b"/w/p/", b"/w/./p", b"/w/pq/../p")[i // chunk % 4])
        for j, p in enumerate(paths[i:i + chunk]):
            p = bytes(p)
            if p.startswith(b"/s//w"):
                p = b"/s/" + tree.b + p[3:]
            s.req(HEAD if (i + j) % 5 == 0 else GET, p)
        sc.append(s)
    return sc


NAMES = [b"a.txt", b"d", b"l", b"ld", b"li", b"ll", b"lx", b"la", b"x", b"..", b".", b"", b"w", b"p", b"pq", b"o", b"index.html", b"missing", b"...", b"..a", b"a.txt ", b"%2e%2e", b"..%2f", b"\\..", b"~", b"A.TXT", b"n" * 255,
         b"\xff\xfe", b"a.txt\x00", b"a\nb"]


def random_paths(R, tree, n):
    r = []
    for _ in range(n):
        k = R.choice([1, 2, 3, 5, 8, 14])
        p = b"/".join(R.choice(NAMES) for _ in range(k))
        j = R.random()
        if j < 0.08:
            p = tree.b + R.choice([b"/w/p/", b"/w/pq/", b"/w/", b"/w/o/", b"/w/p"]) + p
        elif j < 0.16:
            p = b"../" * R.randint(1, 14) + tree.b[1:] + R.choice([b"/w/p/", b"/w/o/", b"/w/pq/"]) + p
        elif j < 0.2:
            p = b"/etc/passwd"
        elif j < 0.24:
            p = b"../" * R.randint(1, 20) + b"etc/passwd"
        elif j < 0.3:
            p = R.choice([b"l", b"ld/a.txt", b"lx", b"../o/a.txt", b"../pq/a.txt", b"d/l/a.txt", b"la/../../o/a.txt"])
            for _ in range(R.randint(1, 4)):
                p = R.choice([b"missing/../", b"d/../", b"a.txt/../", b"./", b"/", b"missing/../d/../", b"ll/../", b"lx/../", b"../p/", b"li/../"]) + p
        if R.random() < 0.1:
            p += R.choice([b"?", b"?a=b", b"?/../../x", b"/", b"//", b"#f", b"?a?b"])
        r.append(R.choice([b"/s/", b"/s/", b"/s/", b"/s", b"/s//"]) + p)
    return r


def random_tree(R):
    """directories, files and links to anywhere"""
    t = Tree()
    dirs, files = [b""], []
    for k in range(R.choice([3, 6])):
        d = (R.choice(dirs) + b"/" + R.choice([b"d%d" % k, b"p", b"pq", b"p.html", b".h"])).strip(b"/")
        if d not in dirs and d not in files:
            t.dir(d)
            dirs.append(d)
    for k in range(R.choice([3, 8])):
        f = (R.choice(dirs) + b"/" + R.choice([b"a.txt", b"f%d.css" % k, b"n%d" % k, b"index.html", b"x.tar.png", b".js", b"sp ace.pdf", b"\xc3\xa9.webp"])).strip(b"/")
        if f not in files and f not in dirs:
            t.file(f, b"content %d " % k * R.choice([0, 1, 3, 700]))
            files.append(f)
    links = []
    for k in range(R.choice([2, 5])):
        at = (R.choice(dirs) + b"/l%d" % k).strip(b"/")
        up = b"../" * at.count(b"/")
        tgt = R.choice([up + R.choice(dirs + files), t.b + b"/" + R.choice(dirs + files), b"../" * R.randint(0, 3) + R.choice([b"missing", b"p", b"pq/a.txt", b"l%d" % R.randrange(5), b"l0/../p", b".", b".."]),
                        up + b"missing/../" + R.choice(files or [b"x"])])
        t.link(at, tgt.rstrip(b"/") or b".")
        links.append(at)
    return t, dirs, files, links


def C17(c):
    exe, (beh, hist) = both(harness, lambda: (static_model(), hist_model(250)))
    R = rng("C17")
    tree = mc_tree()
    sc = replay_static(beh, tree)
    sc += replay_static(random_paths(R, tree, N(2500)), tree, 250, "r")
    for i in range(N(40)):
        t, dirs, files, links = random_tree(R)
        s = Script("t%d" % i, t)
        root = R.choice([d for d in dirs if d] + links)
        s.static(b"/s", t.b + b"/" + root)
        names = sorted({x for p in dirs + files + links for x in p.split(b"/")}) + [b"..", b"..", b"..", b".", b"missing", b""]
        for _ in range(60):
            p = b"/".join(R.choice(names) for _ in range(R.choice([1, 1, 2, 3, 4, 6])))
            s.req(R.choice([GET, GET, HEAD]), R.choice([b"/s/", b"/s", b"/s/" + t.b + b"/"]) + p)
        sc.append(s)
    sc += [replay_hist(i, h) for i, h in enumerate(hist)] + [changing(R, i) for i in range(N(40))]
    go(c, exe, sc)
    c.cov["model_paths_replayed"] = len(beh)
    c.cov["model_behaviours_replayed"] = len(hist)


def C18(c):
    exe, (beh, hist) = both(harness, lambda: (static_model(), hist_model(150)))
    R = rng("C18")
    mt = mc_tree()
    sc = replay_static(beh[::3], mt)
    t = Tree()
    t.dir(b"r", b"r/d", b"r/e.html", b"r/a b")
    exts = sorted(MIME) + [".HTML", ".Txt", ".htmlx", ".ht", ".tar", ".jpg.bak", ".", "..js", ".woff3"]
    names = []
    for i, e in enumerate(exts):
        for stem in ("f", "x.y", "é"):
            n = (stem + e).encode()
            if n not in names:
                t.file(b"r/" + n, b"%d:%s" % (i, n))
                names.append(n)
    for e in (".css", "", ".json"):
        n = (e or "none").encode()
        t.file(b"r/d/" + n, b"hidden " + n).file(b"r/e.html/" + n, b"in dir with dot " + n)
        names += [b"d/" + n, b"e.html/" + n]
    # names that mean something else to others
    for n in (b"100%.txt", b"a%20b.txt", b"%2e%2e.txt", b"%2F.css", b"a+b.js", b"a&b=c;d.txt", b"a#b.txt", b"~x.txt", b"*.css", b"a\\b.txt", b"a\"b'.txt", b"\x01\x7f.txt", b"\xff\xfe.bin", b"...txt", b".x", b"c:d.txt", b"a\nb.txt"):
        t.file(b"r/" + n, b"of " + n)
        names.append(n)
    names += [b"a b.txt", b"%41.txt", b"f%2etxt", b"%66.css"]
    sizes = [0, 1, 2, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 300000] + ([5000000] if THOROUGH else [])
    for k in sizes:
        t.file(b"r/z%d.bin" % k, bytes(R.getrandbits(8) for _ in range(k)) if k < 70000 else os.urandom(1000) * (k // 1000))
        names.append(b"z%d.bin" % k)
    t.file(b"r/nl.txt", b"\r\n\r\n\x00\x1a\n").file(b"r/index.html", b"<h1>index</h1>").file(b"r/d/index.html", b"sub").file(b"r/a b/c d.txt", b"spaces").fifo(b"r/fifo").link(b"r/good.css", b"f.txt").link(b"r/dl", b"d")
    names += [b"nl.txt", b"index.html", b"a b/c d.txt", b"fifo", b"good.css", b"dl/.css", b"d", b"d/", b"dl/", b"e.html", b"", b"/", b"//", b"none", b"f.html/", b"f.html/x", b"./f.css", b"d/../f.js", b"dl/../f.js", b"F.html"]
    for i, pf in enumerate((b"/s", b"/s/", b"/", b"", b"/s/d")):
        s = Script("f%d" % i, t)
        s.static(pf, t.b + b"/r" + (b"/" if i % 2 else b""))
        for j, n in enumerate(names):
            for q in ((b"", b"?", b"?v=1&x=/..") if j % 3 == 0 or len(n) < 3 else (b"",)):
                p = pf + (b"" if pf.endswith(b"/") and j % 2 else b"/") + n + q
                s.req(GET, p).req(HEAD, p)
                if j % 7 == 0:
                    s.req(POST, p)
        for q in (b"", b"?a", b"/?a", b"?a/b", b"?"):
            s.req(GET, pf + q).req(HEAD, pf + q)
        sc.append(s)
    # several mappings; a file that changes between requests
    s = Script("multi", t)
    s.static(b"/s", t.b + b"/r").static(b"/s", t.b + b"/r/d").static(b"/s/d", t.b + b"/none").static(b"/q", t.b + b"/r/fifo").static(b"/l", t.b + b"/r/dl")
    for p in (b"/s/.css", b"/s/f.css", b"/s/d/.css", b"/q/x", b"/q", b"/l/.css", b"/l", b"/l/../f.css"):
        s.req(GET, p).req(HEAD, p)
    sc.append(s)
    sc += [replay_hist(i, h) for i, h in enumerate(hist)] + [changing(R, i) for i in range(N(60))]
    go(c, exe, sc)
    c.cov["model_paths_replayed"] = len(beh[::3])
    c.cov["model_behaviours_replayed"] = len(hist)


# ------------------------------------------------------------------ access log
def C19(c):
    import conn_checks as cc
    from conn_checks import Case, Route, PREFACE, settings, headers
    c.exe, beh = both(cc.harness, lambda: cc.model(c, 60))
    R = rng("C19")
    cases = []
    for i, b in enumerate(beh):
        n, ls, m = cc.replay(R, i, b)
        m["cfg"]["log"] = True
        cases.append((n, ["log"] + ls, m))
    tricky = [b'"', b"\\", b'" 200 5 "-" "-', b"\n", b"\r\n203.0.113.9 - - [x]", b"\x00", b"\x7f", b"\xff\xfe", b"\t", b"-", b"", b" ", b"%22", b"\\x22", b"\\\"", b"a b c", b"{}", b"{0}", b"%s%n", b"\xe2\x98\x83",
              b"x" * 3000, b"\x1b[31m", b"'", b"HTTP/2\" 200 1", b"\x80\x9f\xa0", b"~", b"\x1f", b"\x0b\x0c\x08"]
    rts = cc.BIG + [Route(b"PO\"ST", b"/q", 200, 3, 1), Route(b"GET", b'/q"x', 404, 12, 1), Route(b"GET", b"/e" * 700, 503, 1, 1)]
    for i in range(N(60)):
        cs = Case("l%d" % i, rts).logged(R.choice([None, None, b"", b"2001:db8::1", b"10.0.0.1"]))
        data = PREFACE + settings()
        for _ in range(R.choice([2, 6, 12])):
            hs = []
            val = lambda: R.choice(tricky) if R.random() < 0.6 else rstr(R, R.choice([0, 1, 9, 80]), R.choice(["alpha", "any"]))
            for nm in (b"user-agent", b"referer", b"User-Agent", b"referrer", b"x"):
                if R.random() < 0.5:
                    hs.append((nm, val()))
            if R.random() < 0.1:
                hs += [(b"user-agent", val())]
            R.shuffle(hs)
            m = R.choice([b"GET"] * 5 + [b"POST", b'PO"ST', None, b"", val()])
            p = R.choice([b"/s", b"/", b"/n", b"/l", b"/t1", b"/t3", b"/none", b"/x", b'/q"x', b"/e" * 700, None, b"", b"/s?q=" + val(), val()])
            data += cs.req(R, m, p, hs)
            if R.random() < 0.2:
                data += cc.neutral(R)
            if R.random() < 0.1:
                data += headers(cs.stream(), cs.block(R, hs))
        cs.feed(*cc.cutup(R, data, R.choice([0, 2, 3])))
        if R.random() < 0.4:
            cs(*cc.CAP[R.choice([0, 1])](R))("proc 2", "wdef -1")
        cs("drain")
        if R.random() < 0.2:
            cs.feed(cc.erroneous(R, cs))("proc 2")
        cases.append(cs.done())
    # values of every length
    for f in range(4):
        cs = Case("n%d" % f, rts).logged()
        data = PREFACE + settings()
        for n in (1, 2, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 3000, 4000, 4095, 4096):
            v = bytes(R.choice(b"abcdefghijklmnopqrstuvwxyz0123456789 %\"") for _ in range(n - 1)) + b"Z"
            data += cs.req(R, v if f == 0 else b"GET", b"/" + v[1:] if f == 1 else b"/s", [((b"referer", b"user-agent")[f - 2], v)] if f > 1 else [])
        cs.feed(*cc.cutup(R, data, 0))("drain")
        cases.append(cs.done())
    # at all times, everywhere
    zones = ["UTC0", "AAA-5:30", "BBB3:30", "CCC-14", "DDD12", "EEE-5:45", "FFF8", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "AEST-10AEDT,M10.1.0,M4.1.0/3", "GGG0:01"]
    months = [1735689600 + sum((31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:m]) * 86400 for m in range(12)]
    for i in range(N(24)):
        cs = Case("w%d" % i, rts).logged()
        cs.feed(PREFACE + settings())("drain")
        for j in range(16):
            t = R.choice([months[(i + j) % 12] + R.choice([-1, 0, 1, 86399, 43199, 43200, 12 * 3600 + 1, 14 * 86400]) + R.choice([0, 3600 * R.randrange(24)]),
                          R.choice([951782399, 951782400, 951868800, 1709164800, 1709251200, 4 * 365 * 86400, 172800, 172801, 978307199, 1230767999, 2145800000, 1743296400, 1761440400]), R.randrange(172800, 2145800000)])
            cs("time %d %s" % (t, R.choice(zones))).feed(cs.req(R, b"GET", R.choice([b"/s", b"/none"]), []))("drain")
        cases.append(cs.done())
    # every octet value in every logged field
    for f in range(4):
        for lo in range(0, 256, 16):
            cs = Case("b%d.%d" % (f, lo), rts).logged()
            data = PREFACE + settings()
            for o in range(lo, lo + 16):
                v = bytes([o])
                m, p, hs = b"GET", b"/s", []
                if f == 0:
                    m = b"A" + v + b"B"
                elif f == 1:
                    p = b"/" + v + b"z"
                else:
                    hs = [((b"referer", b"user-agent")[f - 2], b"a" + v + v + b"b")]
                data += cs.req(R, m, p, hs)
            cs.feed(data)("drain")
            cases.append(cs.done())
    # exhaustive over presence of the four values and kinds of answer
    for mask in range(16):
        cs = Case("m%d" % mask, rts).logged(b"" if mask % 3 == 0 else None)
        data = PREFACE + settings()
        for p in (b"/s", b"/l", b"/none", b"/t2", b"/n"):
            data += cs.req(R, b"GET" if mask & 1 else None, p if mask & 2 else None, ([(b"referer", b"r" + p)] if mask & 4 else []) + ([(b"user-agent", b"u")] if mask & 8 else []))
        cs.feed(data)("drain")
        cases.append(cs.done())
    tr = cc.go(c, cases)
    c.cov["log_lines"] = sum(e["op"] == "log" for t in tr.values() for e in t["ev"])

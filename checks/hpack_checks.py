"""C01-C06: header compression.  Specification: Hpack.tla; trace spec: HpackTrace.tla."""
import threading
from common import *
from driver import *
import hpack
from hpack import enc_int, enc_str, huff, huff_bits, pack, Encoder
from hpackdata import STATIC, HUFF

LIM = 4096


def harness():
    return build("hpack", ["hpack_driver.cpp"], only=lambda s: s.startswith("lib/hpack/"))


def limbs(v):
    return [v >> 16, v & 0xffff]


def pairs(ws):
    return [[U(ws[i]), U(ws[i + 1])] for i in range(0, len(ws), 2)]


def project(lines, meta):
    """meta: per script line the event without its result."""
    evs = []
    for ln, m in zip(lines, meta):
        w = ln.split()
        e = dict(m)
        op = e["op"]
        e["res"] = w[0]
        if op == "dec":
            e["hdrs"] = pairs(w[2:]) if w[0] == "ok" else []
        elif op == "int":
            e["val"], e["used"] = (limbs(int(w[1])), int(w[2])) if w[0] == "ok" else ([0, 0], 0)
        elif op == "huff":        # a block with one literal field whose value is the Huffman string
            e["val"] = U(w[3]) if w[0] == "ok" else []
        elif op in ("intenc", "str", "enc"):
            e["bytes"] = U(w[1])
        elif op in ("new", "ins", "max"):
            e["count"], e["size"], e["find"], e["findname"] = map(int, w[1:5])
            e["ents"] = pairs(w[5:])
        evs.append(e)
    return {"ev": evs}


def ev_dec(b):
    return "dec " + H(b), {"op": "dec", "bytes": list(b)}


def ev_enc(hs):
    return "enc " + " ".join(H(n) + " " + H(v) for n, v in hs), {"op": "enc", "hdrs": [[list(n), list(v)] for n, v in hs]}


def ev_huff(d):
    return "dec 000178" + (enc_int(len(d), 7, 0x80) + bytes(d)).hex(), {"op": "huff", "bytes": list(d)}


def case(i, evs):
    return (i, [e[0] for e in evs], [e[1] for e in evs])


def rstr(R, n, kind=None):
    kind = kind or R.choice(["alpha", "any", "low", "high"])
    rg = {"alpha": b"abcdefghijklmnopqrstuvwxyz0123456789-_/", "any": bytes(range(256)), "low": bytes(range(128)), "high": bytes(range(128, 256))}[kind]
    return bytes(R.choice(rg) for _ in range(n))


def rlen(R):
    return R.choice([0, 1, 1, 2, 3, 5, 8, 13, 20, 30, 31, 63, 94, 126, 127, 128, R.randint(0, 200)])


def random_history(R, nblocks, big=False, sizes=(0, 40, 64, 100, 200, 500, 4096, 65536)):
    """A conforming encoder's blocks: [(bytes)]"""
    E = Encoder(65536)
    pool = [(rstr(R, rlen(R), "alpha") or b"n", rstr(R, rlen(R))) for _ in range(R.randint(3, 20))]
    out = []
    for _ in range(nblocks):
        b = b""
        if R.random() < 0.3:
            for _ in range(R.randint(1, 2)):
                b += E.resize(R.choice(sizes + (R.randint(0, 400),)))
        for _ in range(R.choice([1, 1, 2, 3, 5, 8])):
            k = R.random()
            if k < 0.35:
                b += E.indexed(R.choice([R.randint(1, E.top()), E.top(), R.randint(1, 61)]) if E.top() > 61 else R.randint(1, 61))
            else:
                form = R.choice(["inc", "inc", "inc", "no", "never"])
                idx = R.choice([0, 0, R.randint(1, E.top()), E.top()])
                n, v = R.choice(pool) if R.random() < 0.8 else (rstr(R, rlen(R)), rstr(R, rlen(R)))
                if big and R.random() < 0.1:
                    v = rstr(R, R.choice([4096, 4095, 1000, 4000]), "alpha")
                b += E.literal(form, n, v, idx, R.random() < 0.5, R.random() < 0.5)
        out.append(b)
    return out


def model(c):
    """Exhaustive check of the design model, and behaviours to replay."""
    if THOROUGH:
        tlc_check("HpackMC", timeout=900)
    else:
        tlc_check("HpackMC", over={"MaxFields": "1", "MaxBlocks": "4"})
    return behaviours("HpackMC", "HpackGen.cfg", num=600 if THOROUGH else 90, depth=60)


def both(f, g):
    """run two independent jobs side by side"""
    box = []

    def run2():
        try:
            box.append(("ok", f()))
        except BaseException as e:
            box.append(("err", e))
    th = threading.Thread(target=run2)
    th.start()
    try:
        b = g()
    finally:
        th.join()
    if box[0][0] == "err":
        raise box[0][1]
    return box[0][1], b


def C01(c):
    exe, beh = both(harness, lambda: model(c))
    R = rng("C01")
    cases = [case("g%d" % i, [ev_dec(bytes(x["bytes"])) for x in b]) for i, b in enumerate(beh)]
    k = 900 if THOROUGH else 120
    for i in range(k):
        cases.append(case("r%d" % i, [ev_dec(b) for b in random_history(R, R.choice([2, 5, 10, 20]), big=i % 6 == 0)]))
    # every static index, as field and as name; every dynamic index over a long table
    cases.append(case("static", [ev_dec(enc_int(i, 7, 0x80)) for i in range(1, 62)] +
                      [ev_dec(Encoder().literal(f, b"", b"v", i)) for i in range(1, 62) for f in ("no", "never")]))
    for name, cnt, size in (("deep", 130, 65536), ("deep2", 300 if not THOROUGH else 1300, 65536)):
        E = Encoder(size)
        evs = []
        for i in range(cnt):
            evs.append(ev_dec(E.literal("inc", b"n%d" % i, b"v%d" % (i * 7))))
        evs += [ev_dec(E.indexed(i)) for i in range(62, E.top() + 1, 1 if cnt < 200 else 7)]
        evs += [ev_dec(E.literal("inc", b"", b"w", E.top())) for _ in range(5)]
        cases.append(case(name, evs))
    # fill the largest table with few big entries, so that eviction happens at the size limit
    E = Encoder(65536)
    evs = []
    for i in range(40):
        evs.append(ev_dec(E.literal("inc", b"k%d" % i, bytes([97 + i % 26]) * R.choice([4096, 4000, 3000, 2013]))))
        evs.append(ev_dec(E.indexed(E.top()) + E.indexed(62)))
    cases.append(case("full", evs))
    for L in (4095, 4096):
        for hv in (False, True):
            cases.append(case("long%d%s" % (L, hv), [ev_dec(Encoder().literal("no", b"a", rstr(R, L, "alpha"), 0, False, hv))]))
    tr = decide(c, "HpackTrace", exe, cases, project)
    c.cov["blocks_decoded"] = sum(len(t["ev"]) for t in tr.values())
    c.cov["model_behaviours_replayed"] = len(beh)
    c.sample("model behaviour g0: " + " | ".join(bytes(x["bytes"]).hex() for x in beh[0])[:400])
    c.sample("random history r0: " + " | ".join(cases[len(beh)][1])[:400])
    c.assumptions.append("the client's encoder conforms to RFC 7541 (modelled by HpackMC and lib/hpack.py)")


def C02(c):
    exe = harness()
    R = rng("C02")
    cases = []

    def add(name, pre, b):
        cases.append(case(name, [ev_dec(x) for x in pre] + [ev_dec(b)]))
    # every truncation of blocks of every representation
    nb = 0
    for i in range(40 if THOROUGH else 7):
        h = random_history(R, R.choice([1, 2, 3]))
        while sum(map(len, h)) > 900:
            h = random_history(R, 2)
        for cut in range(1, len(h[-1])):
            add("t%d.%d" % (i, cut), h[:-1], h[-1][:cut])
            nb += 1
    # indexes outside the tables
    for k, nd in enumerate((0, 1, 3)):
        E = Encoder()
        pre = [E.literal("inc", b"n%d" % j, b"v") for j in range(nd)]
        for ix in [0, E.top() + 1, E.top() + 2, 127, 128, 190, 255, 256, 1000, 65535, 65536, 65598, 2**24, 2**31 - 1, 2**31, 2**32 - 62, 2**32 - 2, 2**32 - 1,
                   2**32, 2**32 + 1, 2**32 + 62, 2**35, 2**64, 2**64 + 62]:
            add("ix%d.%d" % (k, ix), pre, enc_int(ix, 7, 0x80))
            for f, (p, bt) in {"inc": (6, 0x40), "no": (4, 0), "never": (4, 0x10)}.items():
                if ix:
                    add("ln%s%d.%d" % (f, k, ix), pre, enc_int(ix, p, bt) + b"\x01v")
            add("mid%d.%d" % (k, ix), pre, b"\x82" + enc_int(ix, 7, 0x80) + b"\x84")
    # an index that was valid until its entry was evicted
    E = Encoder()
    pre = [E.literal("inc", b"n%d" % j, b"v") for j in range(4)] + [E.resize(40) + b"\x82"]
    for ix in range(62, 67):
        add("ev%d" % ix, pre, enc_int(ix, 7, 0x80))
        add("evn%d" % ix, pre, enc_int(ix, 6, 0x40) + b"\x01v")
    add("ev0", pre + [b"\x20\x82"], enc_int(62, 7, 0x80))
    # string lengths
    for L in (4097, 4098, 5000, 70000):
        for hv in (False, True):
            add("long%d%s" % (L, hv), [], Encoder().literal("no", b"a", rstr(R, L, "alpha"), 0, False, hv))
            add("longn%d%s" % (L, hv), [], Encoder().literal("inc", rstr(R, L, "alpha"), b"v", 0, hv, False))
    for L in (2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**64 + 1, 100, 3):
        for bt in (0, 0x80):
            add("len%d.%d" % (L, bt), [], b"\x00\x01a" + enc_int(L, 7, bt) + b"v")
            add("lnn%d.%d" % (L, bt), [], b"\x00" + enc_int(L, 7, bt) + b"a\x01v")
    # size updates
    for n in (65537, 65536 + 128, 2**20, 2**31, 2**32 - 1, 2**32, 2**40):
        add("up%d" % n, [], enc_int(n, 5, 0x20) + b"\x82")
    for b in ("3f", "3fff", "3f80", "ff", "ff80", "7f", "0f", "1f", "40", "00", "10", "4001", "400161", "8280", "80", "c0"):
        add("raw" + b, [], bytes.fromhex(b))
    for n in range(4, 14):
        add("ff%d" % n, [], b"\xff" * n)
        add("ffe%d" % n, [], b"\xff" * n + b"\x7f")
    # Huffman padding, EOS, truncated codes
    for s in (b"a", b"abc", b"\x00", b"&", b"hello world"):
        d = huff(s)
        nbits = len(huff_bits(s)) % 8
        for tail in (b"\xff", b"\xff\xff", b"\xff\xff\xff\xff", b"\xff\xff\xff\xfc", b"\x00"):
            add("hp%s.%s" % (s.hex(), tail.hex()), [], b"\x00\x01a" + enc_int(len(d + tail), 7, 0x80) + d + tail)
        if nbits:
            for w in range(8 - nbits):
                bad = d[:-1] + bytes([d[-1] ^ (1 << w)])
                add("hz%s.%d" % (s.hex(), w), [], b"\x00\x01a" + enc_int(len(bad), 7, 0x80) + bad)
    for cut in range(1, 4):
        d = huff(b"\x00\x01\xff")
        add("hc%d" % cut, [], b"\x00\x01a" + enc_int(len(d) - cut, 7, 0x80) + d[:len(d) - cut])
    # mutations of valid blocks after valid histories; the specification says which are malformed
    for i in range(4000 if THOROUGH else 500):
        h = random_history(R, R.choice([1, 2, 3]))
        b = bytearray(h[-1])
        if len(b) > 600 or not b:
            continue
        for _ in range(R.choice([1, 1, 2, 3])):
            k = R.randrange(len(b))
            w = R.random()
            if w < 0.5:
                b[k] ^= 1 << R.randrange(8)
            elif w < 0.7:
                b[k] = R.choice([0, 0x7f, 0x80, 0xff, 0x3f, 0x40, 0x1f, 0x20])
            elif w < 0.85 and len(b) > 1:
                del b[k]
            else:
                b.insert(k, R.randrange(256))
        add("m%d" % i, h[:-1], bytes(b))
    for i in range(3000 if THOROUGH else 300):
        add("x%d" % i, [], bytes(R.randrange(256) for _ in range(R.randint(1, 24))))
    tr = decide(c, "HpackTrace", exe, cases, project)
    last = [t["ev"][-1] for t in tr.values()]
    c.cov["blocks_rejected"] = sum(e["res"] == "err" for e in last)
    c.cov["mutants_still_valid"] = sum(e["res"] == "ok" for e in last)
    c.cov["truncations"] = nb
    for k in (0, len(cases) // 2, -1):
        c.sample("%s: %s" % (cases[k][0], cases[k][1][-1][:200]))
    c.assumptions.append("an integer with more than five continuation octets may be accepted or rejected (RFC 7541 section 5.1 leaves it open)")


def C03_codec(c, exe, n):
    """histories of header lists through one encoder, read by the specification's client"""
    R = rng("C03")
    cases = []
    for i in range(n):
        pool = [(rstr(R, rlen(R), "alpha") or b"n", rstr(R, rlen(R))) for _ in range(R.choice([2, 6, 30, 90]))]
        evs = []
        for _ in range(R.choice([3, 10, 30, 60])):
            hs = [(b":status", R.choice([b"200", b"404", b"500", b"201", b"418", b"304"]))]
            for _ in range(R.choice([0, 1, 3, 6])):
                k = R.random()
                if k < 0.7:
                    hs.append(R.choice(pool))
                elif k < 0.8:
                    hs.append(R.choice(STATIC[14:]))
                elif k < 0.9:
                    hs.append((R.choice(STATIC[14:])[0], rstr(R, rlen(R))))
                elif k < 0.95:      # any name at all
                    hs.append((R.choice([rstr(R, R.choice([1, 2, 5, 40])) or b"X", R.choice(STATIC[14:])[0].title(), b"X-" + rstr(R, 3, "alpha").upper(), b" a ", b"a:b"]), rstr(R, rlen(R))))
                else:
                    hs.append((rstr(R, rlen(R), "alpha") or b"x", rstr(R, R.choice([3, 300, 1500, 3990, 4010, 4100]))))
            evs.append(ev_enc(hs))
        cases.append(case("e%d" % i, evs))
    # more than 128 distinct names: indices of two and three octets; then eviction at 4096
    for k, (ln, cnt) in enumerate(((1, 140), (10, 120), (60, 90), (200, 60))):
        evs = []
        for j in range(cnt):
            evs.append(ev_enc([(b"h%d" % j, b"v" * ln)]))
            evs.append(ev_enc([(b"h%d" % q, b"v" * ln) for q in {0, j // 2, max(0, j - 67), max(0, j - 20), j}]))
            evs.append(ev_enc([(b"h%d" % max(0, j - 70), b"w%d" % j)]))
        cases.append(case("deep%d" % k, evs))
    for t in cases:
        t[1].insert(0, "table")
        t[2].insert(0, {"op": "table", "max": 4096})

    def proj(lines, meta):
        return project(["ok"] + lines, meta)
    tr = decide(c, "HpackTrace", exe, [(i, [x for x in l if x != "table"], m) for i, l, m in cases], proj, what="encoder")
    c.cov["blocks_encoded"] = sum(len(t["ev"]) - 1 for t in tr.values())
    c.sample("encoder history e0: " + " | ".join(cases[0][1][1:])[:400])


def C04(c):
    def gen():
        out = behaviours("TableMC", "TableMC.cfg", over={"Depth": "5" if THOROUGH else "4"})
        return out
    exe, beh = both(harness, gen)
    R = rng("C04")

    def ev(op, q):
        qn, qv = q
        m = {"op": op[0], "qname": list(qn), "qval": list(qv)}
        if op[0] == "ins":
            m.update(name=list(op[1]), val=list(op[2]))
            s = "ins %s %s" % (H(op[1]), H(op[2]))
        else:
            m.update(max=op[1])
            s = "%s %d" % (op[0], op[1])
        return s + " %s %s" % (H(qn), H(qv)), m
    cases = []
    for i, b in enumerate(beh):
        cases.append(case("b%d" % i, [ev((o["op"], o["max"]) if o["op"] != "ins" else ("ins", o["name"], o["val"]), (o["qname"], o["qval"])) for o in b]))
    for i in range(400 if THOROUGH else 60):
        mx = R.choice([0, 31, 32, 33, 64, 65, 100, 128, 200, 500, 1000, 4096, 65536])
        names = [rstr(R, R.choice([0, 1, 2, 5, 30, 40]), "alpha") for _ in range(4)]
        vals = [rstr(R, R.choice([0, 0, 1, 2, 28, 33, 64, 100])) for _ in range(4)]
        evs = [ev(("new", mx), (b"", b""))]
        for _ in range(R.choice([10, 30])):
            q = (R.choice(names), R.choice(vals))
            if R.random() < 0.8:
                evs.append(ev(("ins", R.choice(names), R.choice(vals)), q))
            else:
                evs.append(ev(("max", R.choice([0, 31, 32, 33, 64, 96, 97, 100, 130, mx, mx, 4096, 65536, R.randint(0, 300)])), q))
        cases.append(case("r%d" % i, evs))
    # the largest table, filled by entries close to the limit
    evs = [ev(("new", 65536), (b"", b""))]
    for i in range(30):
        evs.append(ev(("ins", b"n%d" % i, b"v" * R.choice([4000, 8000, 16384, 32766])), (b"n%d" % max(0, i - 2), b"")))
    evs.append(ev(("ins", b"n", b"v" * 65503), (b"n", b"")))
    evs.append(ev(("ins", b"n", b"v" * 65504), (b"n", b"")))
    cases.append(case("big", evs))
    tr = decide(c, "HpackTrace", exe, cases, project)
    c.cov["operations"] = sum(len(t["ev"]) for t in tr.values())
    c.cov["model_behaviours_replayed"] = len(beh)
    c.sample("behaviour b0: " + " ; ".join(cases[0][1]))
    c.sample("random r0: " + " ; ".join(cases[len(beh)][1])[:500])


def C05(c):
    exe, _ = both(harness, lambda: tlc_check("IntMC", over={"Top": "70000"} if THOROUGH else None))
    R = rng("C05")
    cases = []
    for p in range(1, 9):
        m = (1 << p) - 1
        vals = set(range(0, 700 if THOROUGH else 300)) | {m + d for d in range(-2, 3)}
        for k in range(5, 33):
            for base in (0, m):
                vals |= {(1 << k) + base + d for d in range(-2, 3)}
        vals |= {m + x for x in (127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 268435455, 268435456)}
        vals |= {R.getrandbits(R.randint(1, 32)) for _ in range(3000 if THOROUGH else 300)}
        vals = sorted(v for v in vals if 0 <= v < 2**32)
        evs = [("intenc %d %d" % (p, v), {"op": "intenc", "prefix": p, "val": limbs(v)}) for v in vals]
        cases.append(case("enc%d" % p, evs))

        def dec(b):
            return "int %d %s" % (p, H(b)), {"op": "int", "prefix": p, "bytes": list(b)}
        evs = []
        for v in vals:
            b = enc_int(v, p)
            hi = R.getrandbits(8 - p) << p if p < 8 else 0
            b = bytes([b[0] | hi]) + b[1:]
            evs.append(dec(b))
            if R.random() < 0.3:
                evs.append(dec(b + bytes(R.randrange(256) for _ in range(R.randint(1, 3)))))
            if v > 2**20 or R.random() < 0.1:
                for cut in range(0, len(b)):
                    evs.append(dec(b[:cut]))
        # above 32 bits, and around that edge
        for v in [2**32 + d for d in range(-3, 4)] + [2**32 + m + d for d in range(-2, 3)] + [2**k + d for k in range(33, 71) for d in (-1, 0, 1, m)]:
            evs.append(dec(enc_int(v, p)))
        # redundant zero octets, arbitrary continuation octets
        for v in (0, 1, 5, 127, 128, 300):
            for z in range(1, 9):
                b = enc_int(v + m, p)
                evs.append(dec(b[:-1] + bytes([b[-1] | 0x80]) + b"\x80" * (z - 1) + b"\x00"))
        for _ in range(2000 if THOROUGH else 250):
            evs.append(dec(bytes([m]) + bytes(R.choice([0x80, 0xff, R.randrange(256), R.randrange(128, 256)]) for _ in range(R.randint(0, 7)))))
        cases.append(case("dec%d" % p, evs))
    # split, so that all workers have something to do
    parts = []
    for i, ls, ms in cases:
        for k in range(0, len(ls), 400):
            parts.append(("%s.%d" % (i, k), ls[k:k + 400], ms[k:k + 400]))
    tr = decide(c, "HpackTrace", exe, parts, project)
    c.cov["integers"] = sum(len(t["ev"]) for t in tr.values())
    for p in parts[:2] + parts[-2:]:
        c.sample("%s: %s" % (p[0], " ; ".join(p[1][:12])))


def C06(c):
    exe, _ = both(harness, lambda: tlc_check("HuffMC"))
    R = rng("C06")
    evs = []
    for a in range(256):
        evs.append(ev_huff(bytes([a])))
    for a in range(256):
        for b in (range(256) if THOROUGH else sorted({0, 255, 254, 0x7f, 0x80, a, a ^ 255} | {R.randrange(256) for _ in range(20)})):
            evs.append(ev_huff(bytes([a, b])))
    # every symbol's code with every padding length and content (0..16 bits of ones, one zero somewhere)
    for s in range(256):
        bits = huff_bits(bytes([s]))
        for extra in range(0, 3):
            full = bits + "1" * (-len(bits) % 8) + "1" * (8 * extra)
            evs.append(ev_huff(pack(full)))
        k = -len(bits) % 8
        for z in range(k):
            pad = ["1"] * k
            pad[z] = "0"
            evs.append(ev_huff(pack(bits + "".join(pad))))
        pre = huff_bits(b"a" * R.randint(0, 3))
        evs.append(ev_huff(pack(pre + bits)))
        evs.append(ev_huff(pack(pre + bits)[:-1]))
    eos = "1" * 30
    for s in (b"", b"a", b"ab", b"\xff", b"0123"):
        evs.append(ev_huff(pack(huff_bits(s) + eos)))
        evs.append(ev_huff(pack(huff_bits(s) + eos + huff_bits(b"a"))))
    for n in range(1, 9):
        evs.append(ev_huff(b"\xff" * n))
    for _ in range(6000 if THOROUGH else 600):
        s = rstr(R, R.randint(0, 12))
        evs.append(ev_huff(huff(s)))
        evs.append(ev_huff(bytes(R.randrange(256) for _ in range(R.randint(1, 8)))))
        d = bytearray(huff(s) or b"\xff")
        d[R.randrange(len(d))] ^= 1 << R.randrange(8)
        evs.append(ev_huff(bytes(d)))
    # what the server emits
    out = []

    def ev_str(n, v):
        return "str %s %s" % (H(n), H(v)), {"op": "str", "name": list(n), "val": list(v)}
    for a in range(256):
        out.append(ev_str(b"n", bytes([a])))
        out.append(ev_str(b"x" + bytes([a]), b"v"))
        out.append(ev_str(b"n", bytes([a, R.randrange(256), a])))
        out.append(ev_str(b"n", b"a" * (a % 9) + bytes([a]) * 3))
    for L in list(range(0, 40)) + [120, 125, 126, 127, 128, 129, 150, 160, 200, 254, 255, 256, 300, 1000, 4096]:
        for kind in ("alpha", "any", "low", "high"):
            out.append(ev_str(b"name", rstr(R, L, kind)))
        out.append(ev_str(rstr(R, L, "alpha") or b"n", b"v"))
    cases = [case("h%d" % k, evs[k:k + 300]) for k in range(0, len(evs), 300)] + [case("s%d" % k, out[k:k + 100]) for k in range(0, len(out), 100)]
    tr = decide(c, "HpackTrace", exe, cases, project)
    c.cov["strings_decoded"] = len(evs)
    c.cov["strings_encoded"] = len(out)
    c.cov["accepted"] = sum(e["res"] == "ok" for t in tr.values() for e in t["ev"])
    c.sample("; ".join(e[0] for e in evs[2000:2006]))
    c.sample("; ".join(e[0] for e in out[:4]))

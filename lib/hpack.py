"""An HPACK encoder that can be told which representation to use (workload generation only)."""
from hpackdata import STATIC, HUFF


def enc_int(v, prefix, bits=0):
    m = (1 << prefix) - 1
    if v < m:
        return bytes([bits | v])
    out = [bits | m]
    v -= m
    while v >= 128:
        out.append(128 | (v & 127))
        v >>= 7
    out.append(v)
    return bytes(out)


def huff_bits(s):
    return "".join(format(HUFF[c][0], "0%db" % HUFF[c][1]) for c in s)


def pack(bits, pad="1"):
    bits += pad * (-len(bits) % 8)
    return bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))


def huff(s):
    return pack(huff_bits(s))


def enc_str(s, h):
    if h:
        d = huff(s)
        return enc_int(len(d), 7, 0x80) + d
    return enc_int(len(s), 7) + bytes(s)


class Encoder:
    """Keeps the table a conforming encoder keeps; the caller picks the representation."""

    def __init__(self, size=4096):
        self.ents, self.max = [], size

    def size(self):
        return sum(len(a) + len(b) + 32 for a, b in self.ents)

    def _evict(self, room=0):
        while self.ents and self.size() + room > self.max:
            self.ents.pop()

    def resize(self, n):
        self.max = n
        self._evict()
        return enc_int(n, 5, 0x20)

    def insert(self, n, v):
        self._evict(len(n) + len(v) + 32)
        if len(n) + len(v) + 32 <= self.max:
            self.ents.insert(0, (n, v))

    def lookup(self, i):
        return STATIC[i - 1] if i <= 61 else self.ents[i - 62]

    def top(self):
        return 61 + len(self.ents)

    def indexed(self, i):
        return enc_int(i, 7, 0x80)

    def literal(self, form, name, value, idx=0, hn=False, hv=False):
        """form: inc / no / never"""
        p, b = {"inc": (6, 0x40), "no": (4, 0), "never": (4, 0x10)}[form]
        out = enc_int(idx, p, b) + (b"" if idx else enc_str(name, hn)) + enc_str(value, hv)
        if form == "inc":
            self.insert(self.lookup(idx)[0] if idx else name, value)
        return out

    def best(self, hdrs, R, incl=None):
        """A plausible client: random choices, indexed when possible."""
        out = b""
        for n, v in hdrs:
            full = [i for i in range(1, self.top() + 1) if self.lookup(i) == (n, v)]
            nm = [i for i in range(1, self.top() + 1) if self.lookup(i)[0] == n]
            k = R.random()
            if full and k < 0.7:
                out += self.indexed(R.choice(full))
            else:
                form = R.choice(["inc", "inc", "no", "never"]) if incl is None else incl
                idx = R.choice(nm) if nm and R.random() < 0.7 else 0
                out += self.literal(form, n, v, idx, R.random() < 0.5, R.random() < 0.5)
        return out

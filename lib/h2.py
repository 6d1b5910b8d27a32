"""HTTP/2 on the wire: building client octets, and reading what the server sent (projection for the trace specs)."""
from functools import lru_cache
import hpack

PREFACE = b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"


def frame(t, flags, stream, payload=b"", rbit=0, length=None):
    n = len(payload) if length is None else length
    return n.to_bytes(3, "big") + bytes([t, flags]) + (stream | (rbit << 31)).to_bytes(4, "big") + bytes(payload)


def settings(*pairs, ack=False, stream=0, flags=0):
    return frame(4, flags | (1 if ack else 0), stream, b"".join(i.to_bytes(2, "big") + v.to_bytes(4, "big") for i, v in pairs))


def headers(stream, block, end=True, pad=None, prio=None, flags=0, rbit=0):
    """pad: number of padding octets; prio: five octets"""
    f = flags | 4 | (1 if end else 0)
    p = bytes(block)
    if prio is not None:
        f |= 32
        p = bytes(prio) + p
    if pad is not None:
        f |= 8
        p = bytes([pad]) + p + bytes(pad)
    return frame(1, f, stream, p, rbit)


def goaway(last=0, code=0, debug=b""):
    return frame(7, 0, 0, last.to_bytes(4, "big") + code.to_bytes(4, "big") + debug)


def window_update(stream, inc):
    return frame(8, 0, stream, inc.to_bytes(4, "big"))


@lru_cache(maxsize=256)
def body_of(n, seed):
    """the pattern of the C++ harnesses"""
    x = (seed * 2654435761 + 12345) & 0xffffffff
    out = bytearray(n)
    for i in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        out[i] = x >> 24
    return bytes(out)


class Reader:
    """Cuts the server's octets into frames.  bodies: {id: bytes}, to locate DATA payloads."""

    def __init__(self, bodies):
        self.bodies, self.buf, self.pos = bodies, b"", {}

    def add(self, data):
        self.buf += data
        out = []
        while len(self.buf) >= 9:
            n = int.from_bytes(self.buf[:3], "big")
            if len(self.buf) < 9 + n:
                break
            t, fl = self.buf[3], self.buf[4]
            st = bytes([self.buf[5] & 127]) + self.buf[6:9]
            pl = self.buf[9:9 + n]
            self.buf = self.buf[9 + n:]
            f = {"type": t, "flags": fl, "stream": list(st), "len": n, "pl": [], "m": []}
            if t == 0:
                at = self.pos.get(st, 0)
                f["m"] = [i for i, b in self.bodies.items() if at + n <= len(b) and b[at:at + n] == pl]
                self.pos[st] = at + n
            else:
                f["pl"] = list(pl)
                if t == 1:
                    self.pos[st] = 0
            out.append(f)
        return out

    @property
    def tail(self):
        return len(self.buf)

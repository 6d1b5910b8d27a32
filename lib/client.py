"""A small HTTP/2 client for the program under test: blocking, one socket, h2c or TLS."""
import socket, ssl, struct, time
import h2, hpack
from hpackdata import STATIC, HUFF


def _huff_tree():
    return {format(c, "0%db" % n): i for i, (c, n) in enumerate(HUFF)}


_T = None


def unhuff(b):
    global _T
    if _T is None:
        _T = _huff_tree()
    out, cur = bytearray(), ""
    for bit in "".join(format(x, "08b") for x in b):
        cur += bit
        if cur in _T:
            out.append(_T[cur])
            cur = ""
    return bytes(out)


class Decoder:
    def __init__(self):
        self.dyn, self.max = [], 4096

    def _int(self, b, i, n):
        v = b[i] & ((1 << n) - 1)
        i += 1
        if v < (1 << n) - 1:
            return v, i
        s = 0
        while True:
            v += (b[i] & 127) << s
            s += 7
            i += 1
            if not b[i - 1] & 128:
                return v, i

    def _str(self, b, i):
        h = b[i] & 128
        n, i = self._int(b, i, 7)
        if i + n > len(b):
            raise ValueError("string too long")
        v = b[i:i + n]
        return (unhuff(v) if h else v), i + n

    def _at(self, k):
        return STATIC[k - 1] if k <= 61 else self.dyn[k - 62]

    def _evict(self):
        while sum(len(a) + len(c) + 32 for a, c in self.dyn) > self.max:
            self.dyn.pop()

    def block(self, b):
        out, i = [], 0
        while i < len(b):
            x = b[i]
            if x & 128:
                k, i = self._int(b, i, 7)
                out.append(tuple(self._at(k)))
            elif x & 0xe0 == 0x20:
                self.max, i = self._int(b, i, 5)
                self._evict()
            else:
                k, i = self._int(b, i, 6 if x & 64 else 4)
                if k:
                    n = self._at(k)[0]
                else:
                    n, i = self._str(b, i)
                v, i = self._str(b, i)
                out.append((n, v))
                if x & 64:
                    self.dyn.insert(0, (n, v))
                    self._evict()
        return out


class Gone(Exception):
    pass


class Client:
    def __init__(self, port, tls=False, timeout=15.0, rcvbuf=None, hello=True):
        self.timeout = timeout
        s = socket.socket()
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.settimeout(timeout)
        self.alpn = ""
        try:
            s.connect(("127.0.0.1", port))
            if tls:
                ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
                ctx.check_hostname, ctx.verify_mode = False, ssl.CERT_NONE
                ctx.set_alpn_protocols(["http/1.1", "h2"])
                s = ctx.wrap_socket(s)
                self.alpn = s.selected_alpn_protocol() or ""
        except OSError as e:
            s.close()
            raise Gone("connect: %r" % e)
        self.s, self.buf, self.next, self.used = s, b"", 1, time.time()
        self.dec = Decoder()
        if hello:
            self.send(h2.PREFACE + h2.settings())

    def send(self, b):
        try:
            self.s.sendall(b)
        except OSError as e:
            raise Gone("send: %r" % e)
        self.used = time.time()

    def ask(self, m, p, hdrs=()):
        """send a request; returns its stream"""
        hs = ([(b":method", m)] if m is not None else []) + ([(b":path", p)] if p is not None else []) + [(b":scheme", b"http")] + list(hdrs)
        blk = b"".join(_lit(n, v) for n, v in hs)
        st = self.next
        self.next += 2
        self.send(h2.headers(st, blk))
        return st

    def _frame(self, until):
        while True:
            if len(self.buf) >= 9:
                n = int.from_bytes(self.buf[:3], "big")
                if len(self.buf) >= 9 + n:
                    f = (self.buf[3], self.buf[4], int.from_bytes(self.buf[5:9], "big") & 0x7fffffff, self.buf[9:9 + n])
                    self.buf = self.buf[9 + n:]
                    return f
            left = until - time.time()
            if left <= 0:
                raise Gone("no answer in time")
            self.s.settimeout(left)
            try:
                d = self.s.recv(1 << 18)
            except OSError as e:
                raise Gone("recv: %r" % e)
            if not d:
                raise Gone("end of stream")
            self.buf += d

    def answer(self, want):
        """the response on that stream: (status, headers, body); responses come in order"""
        until = time.time() + self.timeout
        hs, body, frag = None, [], b""
        while True:
            t, fl, st, pl = self._frame(until)
            if t == 4 and not fl & 1:
                self.send(h2.settings(ack=True))
            elif t == 7:
                raise Gone("goaway")
            elif t in (1, 9) and st == want:
                frag += pl
                if fl & 4:
                    hs = self.dec.block(frag)
                if t == 1:
                    end = fl & 1
            elif t == 0 and st == want:
                body.append(pl)
                end = fl & 1
            elif t in (0, 1, 3):
                raise Gone("frame %d on stream %d" % (t, st))
            else:
                continue
            if hs is not None and end:
                return int(dict(hs).get(b":status", b"0")), hs, b"".join(body)

    def get(self, m, p, hdrs=()):
        return self.answer(self.ask(m, p, hdrs))

    def reset(self):
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        except OSError:
            pass
        self.close()

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


def _lit(n, v):
    return b"\x00" + hpack.enc_str(n, False) + hpack.enc_str(v, False)

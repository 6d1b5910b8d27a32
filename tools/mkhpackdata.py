#!/usr/bin/env python3
"""Generates spec/HpackData.tla and lib/hpackdata.py (RFC 7541 appendices A and B).

Development-time only.  The code table is read from a copy of the RFC's appendix B (via the text of
the pinned upstream revision) and every entry is cross-checked against libnghttp2, an independent
implementation: nghttp2 has to inflate each code to its symbol, and the static table is read from it.
"""
import ctypes, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = subprocess.run(["git", "-C", "/repo", "show", "4e78547:lib/hpack/huffman_codes.h"], capture_output=True, text=True).stdout
codes = [(int(a, 16), int(b)) for a, b in re.findall(r"\{(0x[0-9a-f]+),\s*(\d+)\}", src)]
assert len(codes) == 256
codes.append((0x3fffffff, 30))  # EOS
ng = ctypes.CDLL("libnghttp2.so.14")
class NV(ctypes.Structure):
    _fields_ = [("name", ctypes.POINTER(ctypes.c_ubyte)), ("value", ctypes.POINTER(ctypes.c_ubyte)),
                ("namelen", ctypes.c_size_t), ("valuelen", ctypes.c_size_t), ("flags", ctypes.c_uint8)]
ng.nghttp2_hd_inflate_hd2.restype = ctypes.c_ssize_t
def inflate(block):
    inf = ctypes.c_void_p(); assert ng.nghttp2_hd_inflate_new(ctypes.byref(inf)) == 0
    out = []; buf = (ctypes.c_ubyte * len(block))(*block); off = 0
    while True:
        nv = NV(); fl = ctypes.c_int(0)
        r = ng.nghttp2_hd_inflate_hd2(inf, ctypes.byref(nv), ctypes.byref(fl), ctypes.byref(buf, off), ctypes.c_size_t(len(block) - off), 1)
        if r < 0: return r
        off += r
        if fl.value & 2: out.append((bytes(nv.name[:nv.namelen]), bytes(nv.value[:nv.valuelen])))
        if fl.value & 1: break
        if off == len(block) and not fl.value & 2: break
    return out
static = [inflate([0x80 | i])[0] for i in range(1, 62)]
for s in range(256):
    c, n = codes[s]
    bits = format(c, "0%db" % n); bits += "1" * (-len(bits) % 8)
    by = [int(bits[i:i + 8], 2) for i in range(0, len(bits), 8)]
    r = inflate([0, 1, ord("a"), 0x80 | len(by)] + by)
    assert r == [(b"a", bytes([s]))], (s, r)
# decoding tree: node 1 is the root; child > 0 is a node, child < 0 is symbol -(child+1)
nodes = [[0, 0]]
for s, (c, n) in enumerate(codes):
    cur = 0
    for i in range(n - 1, -1, -1):
        b = (c >> i) & 1
        if i == 0:
            assert nodes[cur][b] == 0; nodes[cur][b] = -(s + 1)
        else:
            if nodes[cur][b] == 0: nodes.append([0, 0]); nodes[cur][b] = len(nodes)
            assert nodes[cur][b] > 0; cur = nodes[cur][b] - 1
assert all(a and b for a, b in nodes)
tl = lambda bs: "<<" + ",".join(str(x) for x in bs) + ">>"
with open(V + "/spec/HpackData.tla", "w") as f:
    f.write("------------------------------ MODULE HpackData ------------------------------\n"
            "(* RFC 7541 appendices A (static table) and B (Huffman code).  Generated by\n"
            "   tools/mkhpackdata.py and cross-checked there against libnghttp2.\n"
            "   Octet strings are sequences of numbers 0..255. *)\nEXTENDS Integers\n")
    f.write("StaticTable == <<\n" + ",\n".join("  <<%s, %s>>" % (tl(a), tl(b)) for a, b in static) + ">>\n\n")
    f.write("\\* Huffman decoding tree: <<child on 0, child on 1>>; n > 0 is node n, n < 0 is symbol -(n+1), 256 is EOS\n")
    f.write("HuffTree == <<\n" + ",\n".join("  " + ", ".join("<<%d,%d>>" % tuple(x) for x in nodes[i:i + 8]) for i in range(0, len(nodes), 8)) + ">>\n\n")
    f.write("\\* Number of bits of the code of each symbol 0..255 (at position symbol + 1)\n")
    f.write("HuffLen == " + tl([n for _, n in codes[:256]]) + "\n")
    f.write("\n\\* The code of each symbol 0..255 as a sequence of bits\n")
    f.write("HuffCode == <<\n" + ",\n".join("  " + tl(format(c, "0%db" % n)) for c, n in codes[:256]) + ">>\n")
    f.write("=============================================================================\n")
with open(V + "/lib/hpackdata.py", "w") as f:
    f.write('"""Generated by tools/mkhpackdata.py."""\nSTATIC = %r\nHUFF = %r\n' % (static, codes))
print(len(nodes), static[:3], static[-1])

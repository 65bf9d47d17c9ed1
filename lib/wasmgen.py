"""Circom-style witness programs: the compiled template js/circuit.c (js/circuit.b64) with the table of
one circuit in its data section.  (clang --target=wasm32 -O2 -nostdlib -fno-builtin -mno-bulk-memory -c;
wasm-ld --no-entry --allow-undefined --initial-memory=4194304 -z stack-size=65536 --stack-first)"""
import base64, os, struct
BN254 = 21888242871839275222246405745257275088548364400416034343698204186575808495617
_T = base64.b64decode(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "js/circuit.b64")).read())

def fnv(s):
    h = 0xCBF29CE484222325
    for c in s:
        h = ((h ^ ord(c)) * 0x100000001b3) % (1 << 64)
    return h >> 32, h & 0xffffffff

def leb(n):
    r = b""
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            r += bytes([b | 0x80])
        else:
            return r + bytes([b])

def sleb(n):
    r = b""
    while True:
        b = n & 0x7f
        n >>= 7
        if (n == 0 and not b & 0x40) or (n == -1 and b & 0x40):
            return r + bytes([b])
        r += bytes([b | 0x80])

def rd(b, i):
    n = s = 0
    while True:
        c = b[i]; i += 1
        n |= (c & 0x7f) << s
        s += 7
        if not c & 0x80:
            return n, i

def lims(v, n):
    return [(v >> (32 * i)) & 0xffffffff for i in range(n)]

OPS = {"add": 1, "mul": 2, "const": 3, "eq": 4, "copy": 5, "log": 6, "sub": 7}

def program(nwires, signals, ops=(), prime=BN254, n32=None, version=2):
    """signals: [(name, [wire, ...])]; ops: [(op, dst, a, b)] with constants given as values."""
    n32 = n32 or max(1, (prime.bit_length() + 31) // 32)
    inw, sig, kon, po = [], [], [], []
    for name, wires in signals:
        m, l = fnv(name)
        sig += [m, l, len(wires), len(inw)]
        inw += list(wires)
    for o in ops:
        o = list(o) + [0] * (4 - len(o))
        if o[0] == "const":
            kon += lims(o[2], n32)
            o[2] = len(kon) // n32 - 1
        po += [OPS[o[0]]] + o[1:]
    cfg = [n32, version, nwires, len(inw), len(signals), len(po) // 4, len(kon) // n32, 0] + lims(prime, 16)
    assert len(sig) * 4 <= 0x7000 and len(inw) * 4 <= 0x18000 and len(po) * 4 <= 0x20000 and len(kon) * 4 <= 0x10000 and nwires * n32 * 4 < 0x300000 and len(inw) <= 0x70000
    segs = [(0x40000, cfg), (0x41000, sig), (0x48000, inw), (0x60000, po), (0x80000, kon)]
    segs = [(a, struct.pack(f"<{len(d)}I", *d)) for a, d in segs if d]
    body = leb(len(segs)) + b"".join(b"\0" + b"\x41" + sleb(a) + b"\x0b" + leb(len(d)) + d for a, d in segs)
    out, i, done = _T[:8], 8, False
    rest = b""
    while i < len(_T):
        sid = _T[i]
        n, j = rd(_T, i + 1)
        if sid not in (0, 11, 12):
            out += _T[i:j + n]
        i = j + n
    return out + b"\x0b" + leb(len(body)) + body

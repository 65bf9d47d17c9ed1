"""Concrete files for abstract cases: .r1cs, .wtns, .sym, JSON."""
import json, struct
P = 21888242871839275222246405745257275088548364400416034343698204186575808495617

def res(v): return v % P
def signed(r):
    """residue (int or decimal text) back to the small integer it stands for; a sentinel when it is not small"""
    r = int(r)
    v = r if r <= P // 2 else r - P
    return v if abs(v) < 1 << 30 else 1 << 30
def le(v, n=32): return (v % P).to_bytes(n, "little") if n == 32 else v.to_bytes(n, "little")

def lc(row, fs=32, enc=None):
    enc = enc or (lambda c: le(c, fs))
    return struct.pack("<I", len(row)) + b"".join(struct.pack("<I", w) + enc(c) for w, c in row)

def header(circ, prime=P, fs=32, labels=None, ncons=None):
    return struct.pack("<I", fs) + prime.to_bytes(fs, "little") + struct.pack("<IIIIQI", circ["nw"], circ["nout"], circ["nin"], circ["nprv"],
            labels if labels is not None else circ["nw"], len(circ["cons"]) if ncons is None else ncons)

def container(magic, version, secs):
    return magic + struct.pack("<II", version, len(secs)) + b"".join(struct.pack("<IQ", t, len(b)) + b for t, b in secs)

def r1cs(circ, order=(1, 2, 3), prime=P, fs=32, labels=None, extra=()):
    """order: section types in file order; extra: (type, bytes) available under types > 3"""
    body = {1: header(circ, prime, fs, len(labels) if labels is not None else circ["nw"]),
            2: b"".join(lc(r, fs) for c in circ["cons"] for r in c),
            3: b"".join(struct.pack("<Q", x) for x in (labels if labels is not None else range(circ["nw"])))}
    body.update(dict(extra))
    return container(b"r1cs", 1, [(t, body[t]) for t in order])

def wtns(vals, prime=P, fs=32, n=None, order=(1, 2), extra=(), raw=False):
    body = {1: struct.pack("<I", fs) + prime.to_bytes(fs, "little") + struct.pack("<I", len(vals) if n is None else n),
            2: b"".join((v if raw else v % prime).to_bytes(fs, "little") for v in vals)}
    body.update(dict(extra))
    return container(b"wtns", 2, [(t, body[t]) for t in order])

def sym(lines):
    return "".join(f"{i + 1},{l['wire']},{i % 3},{l['name']}\n" for i, l in enumerate(lines))

def value(v, num=lambda x: x):
    return num(v["v"]) if v["t"] == "n" else [value(x, num) for x in v["e"]] if v["t"] == "a" else {m["key"]: value(m["val"], num) for m in v["e"]}

def doc(members, num=lambda x: x):
    return {m["key"]: value(m["val"], num) for m in members}

def forms(rng):
    """a number as an integer or as decimal text"""
    return lambda v: v if rng.random() < 0.6 else str(v)

def indoc(signals, asg, num=lambda x: x):
    """an input object with a value for every wire"""
    d = {}
    for s in signals:
        dims, w = s["dims"], s["wire"]
        if not dims: d[s["name"]] = num(asg[w])
        elif len(dims) == 1: d[s["name"]] = [num(asg[w + i]) for i in range(dims[0])]
        else: d[s["name"]] = [[num(asg[w + i * dims[1] + j]) for j in range(dims[1])] for i in range(dims[0])]
    return d
def size(s):
    n = 1
    for d in s["dims"]: n *= d
    return n

"""Circuit and witness files, well-formed and damaged, read by both tools; traces for FilesTrace."""
import os, random, struct
from concurrent.futures import ThreadPoolExecutor
import fmt, scen, sysd, vk

MEM = 768 << 20          # address space of a reading process
NOPE = {"cut": -1, "at": -1, "vals": [], "app": []}

def edit(cut=-1, at=-1, vals=(), app=()):
    return {"cut": cut, "at": at, "vals": list(vals), "app": list(app)}

def damaged(b, e):
    c = bytearray(b if e["cut"] < 0 else b[:e["cut"]])
    for i, x in enumerate(e["vals"]):
        if 0 <= e["at"] + i < len(c):
            c[e["at"] + i] = x
    return bytes(c) + bytes(e["app"])

def bl(h): return list(bytes.fromhex(h))
def le(n, k): return list((int(n) % (1 << (8 * k))).to_bytes(k, "little"))

class Readers:
    """The readers of both tools, in processes of bounded memory."""
    def __init__(self, ctx, n=6, timeout=20):
        ctx.build("std-drv", "io-drv")
        self.ctx = ctx
        mk = lambda x: ctx.driver(vk.exe(x), env={"RUST_BACKTRACE": "0"}, timeout=timeout, mem=MEM)
        self.std, self.io = [mk("std-drv") for _ in range(n)], [mk("io-drv") for _ in range(n)]
        self.n = n

    def map(self, f, xs):
        """f(worker, x) with worker-private drivers, in order"""
        def part(k):
            return [(i, f(k, xs[i])) for i in range(k, len(xs), self.n)]
        with ThreadPoolExecutor(self.n) as ex:
            r = dict(p for ps in ex.map(part, range(self.n)) for p in ps)
        return [r[i] for i in range(len(xs))]

    def tmp(self, k, data):
        p = self.ctx.scratch(f"rd{k}")
        with open(p, "wb") as f:
            f.write(data)
        return p

    def out(self, r):
        return "ok" if "ok" in r else "err" if "err" in r else "hang" if "hang" in r else "crash"

    def r1cs_cli(self, k, b, e):
        r = self.std[k].call({"op": "r1cs", "path": self.tmp(k, damaged(b, e))})
        v = {}
        if "ok" in r:
            o = r["ok"]
            lc = lambda l: [[le(w, 4), bl(c)] for w, c in l]
            v = {"h": {"fs": le(o["field_size"], 4), "prime": bl(o["prime"]), "nw": le(o["n_wires"], 4), "nout": le(o["n_pub_out"], 4), "nin": le(o["n_pub_in"], 4),
                       "nprv": le(o["n_prv_in"], 4), "nlab": le(o["n_labels"], 8), "ncons": le(o["n_constraints"], 4)},
                 "cons": [[lc(x) for x in c] for c in o["constraints"]], "labels": [le(x, 8) for x in o["labels"]] if len(o["labels"]) < 5000 else []}
        return {"ev": "r1cs", "tool": "cli", **e, "out": self.out(r), "val": v, "note": str(r)[:200] if "ok" not in r else ""}

    def r1cs_js(self, k, b, e, vals=40):
        r = self.io[k].call({"op": "js_encap", "r1cs": damaged(b, e).hex(), "wtns": fmt.wtns([1] + [0] * vals).hex()})
        return {"ev": "r1cs", "tool": "js", **e, "out": self.out(r), "val": {}, "note": str(r)[:200] if "ok" not in r else ""}

    def wtns_cli(self, k, b, e):
        r = self.io[k].call({"op": "wtns", "path": self.tmp(k, damaged(b, e))})
        v = {}
        if "ok" in r:
            o = r["ok"]
            f = o["field"].get("ok")
            v = {"n": o["n"], "prime": bl(o["prime"]), "raw": [bl(x) for i, (w, x) in enumerate(o["raw"]) if w == i], "field": [le(x, 32) for i, (w, x) in enumerate(f) if w == i] if f is not None else []}
        return {"ev": "wtns", "tool": "cli", **e, "out": self.out(r), "val": v, "npub": 0, "note": str(r)[:200] if "ok" not in r else ""}

    def wtns_js(self, k, b, e, npub=3):
        circ = {"nw": npub + 2, "nout": 1, "nin": npub - 1, "nprv": 1, "cons": []}
        r = self.io[k].call({"op": "js_encap", "r1cs": fmt.r1cs(circ).hex(), "wtns": damaged(b, e).hex()})
        v = []
        if "ok" in r:
            c = self.io[k].call({"op": "ct", "ct": r["ok"]["ct"]})
            v = [le(x, 32) for x in c["ok"]["pub"]] if "ok" in c else [[0]]
        return {"ev": "wtns", "tool": "js", **e, "out": self.out(r), "val": v, "npub": npub, "note": str(r)[:200] if "ok" not in r else ""}

def describe(e):
    return str({k: v for k, v in e.items() if k not in ("val", "bytes")})[:400]

def validate(ctx, traces, checks, what, heap="2g"):
    """traces: lists of events, each beginning with its base, validated side by side"""
    cfg = 'CONSTANTS Checks = {%s}\nINIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n' % ",".join('"%s"' % c for c in checks)
    groups, load = [[] for _ in range(min(8, len(traces)))], [0] * min(8, len(traces))
    for w, t in sorted(((sum(len(e.get("bytes", "")) + 20 + 400 * (e["ev"] == "r1cs") for e in t), t) for t in traces), key=lambda x: -x[0]):
        k = load.index(min(load))
        groups[k].extend(t)
        load[k] += w
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: ctx.validate("FilesTrace", cfg, g, what, n_traces=len(g), describe=describe, heap=heap), groups))

def raw(rng, c):
    """an encoding of a coefficient: canonical or another representative that fits 32 bytes"""
    v = c % fmt.P
    return v + fmt.P * rng.randrange((2 ** 256 - v - 1) // fmt.P + 1) if rng.random() < 0.25 else v

def r1cs_file(rng, circ, order, wide=None):
    fs = wide or 32
    prime = fmt.P if wide is None else rng.randrange(256 ** fs)
    enc = (lambda c: raw(rng, c).to_bytes(32, "little")) if wide is None else (lambda c: rng.randrange(256 ** fs).to_bytes(fs, "little"))
    labels = [rng.choice([rng.randrange(50), rng.randrange(1 << 64)]) for _ in range(circ["nw"])]
    body = {1: fmt.header(circ, prime, fs, rng.choice([circ["nw"], rng.randrange(1 << 64)])), 2: b"".join(fmt.lc(r, fs, enc) for c in circ["cons"] for r in c),
            3: b"".join(struct.pack("<Q", x) for x in labels)}
    for t in order:
        if t > 3:
            body[t] = rng.randbytes(rng.randrange(30))
    return fmt.container(b"r1cs", 1, [(t, body[t]) for t in order])

ORDERS = [(1, 2, 3), (2, 1, 3), (3, 2, 1), (1, 3, 2), (2, 3, 1), (3, 1, 2), (9, 1, 2, 3), (1, 2), (2, 1), (2, 9, 3, 1), (4, 1, 5, 2), (1, 9, 2, 3, 9), (7, 3, 2, 8, 1)]

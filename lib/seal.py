"""Encryptions and decryptions of both implementations as traces for SealTrace."""
import hashlib
from concurrent.futures import ThreadPoolExecutor
import files, sysd, vk

class Boxes:
    def __init__(self, ctx, n=6, js=True):
        ctx.build("std-drv")
        self.ctx, self.n = ctx, n
        self.rs = [ctx.driver(vk.exe("std-drv")) for _ in range(n)]
        self.js = []
        if js:
            ctx.build("io-drv")
            dest = sysd.build_js(ctx)
            self.js = [sysd.jsdrv(ctx, dest) for _ in range(n)]

    def map(self, f, xs):
        def part(k):
            return [(i, f(k, xs[i])) for i in range(k, len(xs), self.n)]
        with ThreadPoolExecutor(self.n) as ex:
            r = dict(p for ps in ex.map(part, range(self.n)) for p in ps)
        return [r[i] for i in range(len(xs))]

    def call(self, k, tool, op, mode, key, data, view=0):
        d = self.js[k] if tool == "js" else self.rs[k]
        r = d.call({"op": f"{mode}_{op}", "key": key.hex(), "data": data.hex(), **({"pre": view, "post": view} if tool == "js" else {})}, timeout=120)
        o = sysd.out_js(r) if tool == "js" else "ok" if "ok" in r else "err" if "err" in r else "crash"
        return o, bytes.fromhex(r["ok"]) if o == "ok" else b"", "" if o == "ok" else str(r)[:160]

    def seal(self, k, tool, mode, key, msg, view=0):
        o, b, note = self.call(k, tool, "enc", mode, key, msg, view)
        return {"ev": "seal", "tool": tool, "mode": mode, "msg": list(msg), "out": o, "bytes": list(b), "note": note}

    def open(self, k, tool, mode, key, data, e=files.NOPE, view=0):
        o, b, note = self.call(k, tool, "dec", mode, key, files.damaged(data, e), view)
        return {"ev": "open", "tool": tool, "mode": mode, **e, "out": o, "msg": list(b), "note": note}

    def round(self, k, tool, by, mode, key, msg):
        o, c, note = self.call(k, tool, "enc", mode, key, msg)
        o2, m, note2 = self.call(k, by, "dec", mode, key, c) if o == "ok" else (o, b"", note)
        return {"ev": "round", "tool": tool, "by": by, "mode": mode, "mlen": len(msg), "clen": len(c), "sent": hashlib.sha256(msg).hexdigest(), "out": o2, "got": hashlib.sha256(m).hexdigest() + ("" if len(m) == len(msg) else f"/{len(m)}")}

def key(k, gcm=True):
    return {"ev": "key", "bytes": list(k), "gcm": gcm}

def validate(ctx, traces, what):
    load, groups = [0] * 8, [[] for _ in range(8)]
    for t in sorted(traces, key=len, reverse=True):
        k = load.index(min(load))
        groups[k].extend(t)
        load[k] += sum(1 + (len(e.get("msg", ())) + len(e.get("bytes", ()))) // 100 for e in t)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: g and ctx.validate("SealTrace", cfg, g, what, n_traces=sum(e["ev"] in ("seal", "open", "round") for e in g), describe=files.describe), groups))
    ctx.count("sealings", sum(e["ev"] == "seal" for t in traces for e in t))
    ctx.count("openings", sum(e["ev"] == "open" for t in traces for e in t))
    ctx.count("openings_that_succeeded", sum(e["ev"] == "open" and e["out"] == "ok" for t in traces for e in t))
    ctx.sample([e for e in traces[0] if e["ev"] != "key"][:3])

DESIGN = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"

import json
from concurrent.futures import ThreadPoolExecutor
import fmt, sysd, vk, wasmgen
LEVEL = "model_checking"
LEAD = [(f"p{k}", k) for k in range(3, 30)]      # (texts, files and keys differ in a place somewhere inside)
lines = lambda q: "".join(f"{w},{w},1,main.{n}\n" for n, w in LEAD + q + [("q", 30)] + [(f"q{k}", k) for k in range(31, 50)])
SYM = {"s1": lines([("x", 1), ("y", 2)]), "s3": lines([("x", 2), ("y", 1)]), "s2": "1,1,1,main.a\n2,2,1,main.b[0]\n3,3,1,main.b[1]\n4,4,0,main.c.d\n"}
DOCS = {"i1": (4, 2), "i2": (9, 3), "i3": (6, 3), "i4": (5, 1), "i5": (0, 0), "i6": (1, 1), "i7": (9, 4), "i8": (2, 1)}
def contents(k):
    circ = lambda a: fmt.r1cs({"nw": 3, "nout": 0, "nin": 1, "nprv": 1, "npub": 1, "cons": [[[(2, 1)] if a else [(0, 2)], [(2, 1)], [(1, 1)]]]}, (9, 1, 2, 3, 8), extra=[(8, bytes(300)), (9, bytes(300))]).hex()
    c = {"A": circ(True), "B": circ(False), "m1": (bytes(99) + b"hello" + bytes(99)).hex(), "m2": (bytes(99) + b"world" + bytes(99)).hex(), "k1": bytes(range(32)).hex()}
    c["k2"] = bytes(j ^ (0x80 if j == (5, 11, 17, 23, 30, 0, 31, 15)[k] else 0) for j in range(32)).hex()
    c.update({k: {"x": x, "y": y} for k, (x, y) in DOCS.items()})
    return c
def text(x):
    return "b:" + x if isinstance(x, str) else "o:" + json.dumps(x, separators=(",", ":"))
def run(ctx):
    if ctx.thorough:
        ctx.prove("MemoryProof")
    ctx.tlc("MemoryMC", "CONSTANTS Max = 4\n Private = TRUE\nSPECIFICATION Spec\nPROPERTY Alone\nCHECK_DEADLOCK FALSE\n", workers=4)
    if ctx.tlc("MemoryMC", "CONSTANTS Max = 4\n Private = FALSE\nSPECIFICATION Spec\nPROPERTY Alone\nCHECK_DEADLOCK FALSE\n", workers=4, design=False).ok:
        raise vk.ToolError("the design check cannot tell a broken design")
    n, length = (2400, 60) if ctx.thorough else (320, 45)
    out = ctx.scratch("mem.ndjson")
    ctx.tlc("MemGen", f"CONSTANTS N = {n}\n Base = {ctx.seed}\n Len0 = {length}\n", env={"OUT": out}, workers=1)
    with open(out) as f: ses = [json.loads(x) for x in f]
    dest = sysd.build_js(ctx)
    ctx.build("io-drv")
    w = ctx.scratch("mem.wasm")
    progs = [wasmgen.program(3, [("x", range(i, i + 1)), ("y", range(3 - i, 4 - i))]) for i in (1, 2)]
    with open(w, "wb") as f: f.write(progs[0])
    # (custom sections before and behind the code)
    pad = b"\0" + wasmgen.leb(252) + b"\3pad" + bytes(248)
    progs = [b[:8] + pad + b[8:] + pad for b in progs]
    C = [dict(contents(k), P=progs[0].hex(), Q=progs[1].hex()) for k in range(8)]
    known = {text(x): k for q in C for k, x in q.items()}
    known.update({f"a:1,{x},{y}": f"num:{k}" for k, (x, y) in DOCS.items()})
    for k, (x, y) in DOCS.items(): known.setdefault(f"a:1,{y},{x}", f"mun:{k}")
    more = lambda x, y: {**{"main." + n: w for n, w in LEAD}, "main.x": x, "main.y": y, "main.q": 30, **{f"main.q{k}": k for k in range(31, 50)}}
    entries = {"s1": more(1, 2), "s3": more(2, 1), "s2": {"main.a": 1, "main.b[0]": 2, "main.b[1]": 3, "main.c.d": 4}}
    for k, m in entries.items():
        known["m:" + json.dumps(sorted(m.items()), separators=(",", ":"))] = f"map:{k}"
        known["m:" + json.dumps(sorted((a[5:], b) for a, b in m.items()), separators=(",", ":"))] = f"sig:{k}"
    known.update({"none": "none", "wiped": "wiped"})
    def part(k):
        d = sysd.jsdrv(ctx, dest)
        ev = []
        for s in ses[k::8]:
            r = d.call({"op": "memory", "init": ["A", "i1", "m1", "k1", "P"], "contents": C[k], "sym": SYM, "steps": s["steps"], "wasm_path": w}, timeout=300)
            names = dict(known)
            name = lambda t: names.setdefault(t, f"r{len(names)}")
            ev.append({"ev": "start", "rd": [name(t) for t in r["ok"][0]["rd"]]})
            for st, x in zip(s["steps"], r["ok"][1:]):
                ev.append({**{q: st[q] for q in ("ev", "op", "a", "b", "c", "v", "k", "g")}, "out": x["out"], "res": [name(t) for t in x["res"]], "rd": [name(t) for t in x["rd"]]})
        d.close()
        return ev
    with ThreadPoolExecutor(8) as ex: tr = list(ex.map(part, range(8)))
    calls = {}
    for t in tr:
        for e in t:
            if e["ev"] == "call" and e["out"] != "skip": calls.setdefault(e["op"], [0, 0])[e["out"] == "err"] += 1
    ctx.notes["calls_ok_err"] = calls
    ctx.count("sessions", n)
    ctx.sample(tr[0][1:5])
    for op in ("encap", "encrypt", "decap", "decrypt", "getpub", "enc", "dec", "num", "bin", "wtns", "arr", "file", "sym", "sig"):
        if calls.get(op, [0])[0] < n // 20:
            ctx.notes.setdefault("rare", []).append(op)
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda t: ctx.validate("MemTrace", cfg, t, "sessions over objects that callers keep", n_traces=sum(e["ev"] == "start" for e in t), describe=lambda e: json.dumps({k: e[k] for k in e if k != "rd"})[:300]), tr))

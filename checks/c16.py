import hashlib, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import core, files, sysd, vk
LEVEL = "model_checking"
TXT = ["", "signature_circuit", "main.a[0]", "é☃𝒳 \"\\\n\u0001", "x" * 300, "名稱", "null", "\u2028"]
def num(r): return r.choice([0, 1, 2, 3, 31, 32, 255, 256, 65535, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, r.randrange(1 << 32)])
def lc(r): return [[num(r), r.randbytes(r.choice([0, 1, 32, 32, 48])).hex()] for _ in range(r.choice([0, 1, 2, 5]))]
def circuit(r):
    lb = r.random()
    keys = {num(r) for _ in range(r.randrange(6))}
    return {"field_size": num(r), "prime": r.randbytes(r.choice([0, 1, 32, 48])).hex(), **{k: num(r) for k in ("n_wires", "n_pub_out", "n_pub_in", "n_prv_in", "n_constraints")},
            "constraints": [[lc(r), lc(r), lc(r)] for _ in range(r.choice([0, 1, 2, 6]))], "labels": None if lb < 0.3 else [] if lb < 0.4 else sorted([k, r.choice(TXT)] for k in keys)}
def witness(r): return sorted([k, r.randbytes(r.choice([0, 1, 32])).hex()] for k in {num(r) for _ in range(r.choice([0, 1, 3, 12]))})
def large(r, kind):
    """values with more than 65536 members at one place or another"""
    n, some = 66003, lambda: r.randbytes(r.choice([1, 32])).hex()
    if kind == "witness": return [[3 * i, some()] for i in range(n)]
    c = circuit(r)
    k = r.randrange(4)
    if k == 0: c["constraints"] = [[lc(r)[:1], [], []] for _ in range(n)]
    elif k == 1: c["constraints"] = [[[], [], []], [[[i, "05"] for i in range(n)], [], [[7, "01"]]]]
    elif k == 2: c["labels"] = [[i, f"main.s[{i}]"] for i in range(n)]
    else: c["constraints"] = [[[[1, r.randbytes(70001).hex()]], [], []]]
    return c if kind == "circuit" else {"circuit": c, "witness": witness(r), "name": "n" * 70001, "description": r.choice([None, "d" * (1 << 20)])}
def value(r, kind):
    return circuit(r) if kind == "circuit" else witness(r) if kind == "witness" else {"circuit": circuit(r), "witness": witness(r), "name": r.choice(TXT), "description": r.choice([None] + TXT)}
def twin(r, v):
    """a different value whose exports have the same size"""
    if isinstance(v, bool) or v is None: return v
    if isinstance(v, int): return v ^ 1 if r.random() < .3 else v
    if isinstance(v, list):
        if len(v) == 2 and isinstance(v[0], int): return [v[0], twin(r, v[1])]  # (a wire's value or name)
        return [twin(r, x) for x in v]
    if isinstance(v, dict): return {k: twin(r, x) for k, x in v.items()}
    if len(v) >= 2 and re.fullmatch("[0-9a-f]+", v) and r.random() < .5: return v[:-2] + "%02x" % (int(v[-2:], 16) ^ 1)
    return v[:-1] + ("y" if v[-1] == "x" else v[-1]) if v else v
def twin1(r, v):
    """like twin, but different in one byte only"""
    at = []
    def walk(v, put, n=0):
        if isinstance(v, list):
            for k, x in enumerate(v):
                if not (len(v) == 2 and isinstance(v[0], int) and k == 0): walk(x, (lambda y, k=k: put(v[:k] + [y] + v[k + 1:])))
        elif isinstance(v, dict):
            for k, x in v.items(): walk(x, (lambda y, k=k: put({**v, k: y})))
        elif isinstance(v, str) and len(v) >= 2 and re.fullmatch("([0-9a-f]{2})+", v):
            j = 2 * r.randrange(len(v) // 2)
            at.append(lambda: put(v[:j] + "%02x" % (int(v[j:j + 2], 16) ^ 1) + v[j + 2:]))
    walk(v, lambda y: y)
    return r.choice(at)() if at else v
def canon(v):
    s = json.dumps(v, sort_keys=True, separators=(",", ":"))
    return s if len(s) < 20000 else hashlib.sha256(s.encode()).hexdigest()
NV, PATHS, REGS = 3, 3, 2
def cfg(extra=""):
    return consts(NV) + extra
def upto(n): return "{" + ",".join(str(i + 1) for i in range(n)) + "}"
def consts(nv): return f"CONSTANTS Vals = {upto(nv)}\n Paths = {upto(PATHS)}\n Regs = {upto(REGS)}\n"
def run(ctx):
    small = "CONSTANTS Vals = {1,2}\n Paths = {1}\n Regs = {1}\n Depth = 0\n"
    if ctx.thorough:
        ctx.prove("StoreProof")
    ctx.tlc("StoreMC", small + "INIT MCInit\nNEXT Next\nINVARIANT Faithful NoPartial\nCHECK_DEADLOCK FALSE\n", workers=8)
    H = 600 if ctx.thorough else 60
    t = ctx.tlc("StoreMC", cfg(" Depth = 40\n") + "INIT MCInit\nNEXT Next\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1, simulate=f"num={H}", extra=["-depth", "42", "-seed", str(ctx.seed)])
    hists = [json.loads(json.loads(x[0])) if x[0].startswith('"') else json.loads(x[0]) for x in re.findall(r'HIST (\[.*\])"?\s*$', t.out.replace('\\"', '"'), re.M) for x in [[x]]]
    if len(hists) < H // 2:
        raise vk.ToolError(f"{len(hists)} histories")
    ctx.build("std-drv")
    N = 6
    ds = [ctx.driver(vk.exe("std-drv")) for _ in range(N)]
    def out(x): return files.Readers.out(None, x)
    def play(k, i, h):
        r = random.Random(f"{ctx.seed}-{i}")
        d = ctx.scratch(f"st{k}-{i}")
        os.mkdir(d)
        vals = {(kd, v): (large if v == NV and i % 12 == 5 else value)(r, kd) for kd in ("circuit", "witness", "testcase") for v in range(1, NV + 1)}
        if i % 2 == 0:
            for kd in ("circuit", "witness", "testcase"):
                w = r.choice([twin, twin1])(r, vals[kd, 1])
                if w != vals[kd, 1]: vals[kd, 2] = w
        texts, ev = {}, [{"ev": "start"}]
        # a value id stands for one value of each kind: its text is kept per kind by separate ids below
        ids = {kv: j + 1 for j, kv in enumerate(vals)}
        for kv, j in ids.items():
            ev.append({"ev": "val", "id": j, "text": canon(vals[kv])})
        P = lambda p: f"{d}/p{p}"
        call = lambda lib, q: ds[k].call({"op": "serial", "lib": lib, **q})
        def load(lib, kind, fmt, path): return call(lib, {"kind": kind, "act": f"load_{fmt}", "path": path})
        def both(kind, fmt, reg):
            x = texts.get(reg, b"")
            return {"text": x.decode("utf-8", "replace")} if fmt == "json" else {"hex": x.hex()}
        for s in h:
            lib, a = r.choice(["cli", "core"]), s["act"]
            kind, fmt, p, g = s["kind"], s["fmt"], s["path"], s["reg"]
            e = {"ev": a, "lib": lib, "kind": kind, "fmt": fmt, "path": p, "reg": g, "v": ids[kind, s["v"]]}
            v = vals[kind, s["v"]]
            if a == "save":
                e["out"] = out(call(lib, {"kind": kind, "act": f"save_{fmt}", "path": P(p), "value": v}))
            elif a == "savebad":
                e["out"] = out(call(lib, {"kind": kind, "act": f"save_{fmt}", "path": r.choice([d, d + "/no/such", ""]), "value": v}))
            elif a == "to":
                x = call(lib, {"kind": kind, "act": f"to_{fmt}", "value": v})
                e["out"] = out(x)
                if "ok" in x: texts[g] = x["ok"].encode() if fmt == "json" else bytes.fromhex(x["ok"])
            elif a == "load":
                x = load(lib, kind, fmt, P(p))
                e.update(out=out(x), text=canon(x["ok"]) if "ok" in x else "")
            elif a == "from":
                x = call(lib, {"kind": kind, "act": f"from_{fmt}", **both(kind, fmt, g)})
                e.update(out=out(x), text=canon(x["ok"]) if "ok" in x else "")
            elif a == "put":
                with open(P(p), "wb") as f: f.write(texts[g])
            elif a == "take":
                texts[g] = sysd.rd(P(p))
            elif a == "cutfile":
                b = sysd.rd(P(p))
                with open(P(p), "wb") as f: f.write(b[:r.choice([0, len(b) - 1, r.randrange(len(b))] if b else [0])])
            elif a == "cuttext":
                b = texts[g]
                texts[g] = b[:r.choice([0, len(b) - 1, r.randrange(len(b))] if b else [0])]
            elif a == "remove":
                if os.path.exists(P(p)): os.unlink(P(p))
            ev.append(e)
        # values whose exports have the same size replace one another
        for kind, fmt in (("circuit", "bin"), ("circuit", "json"), ("witness", "json"), ("testcase", "json")):
            for lib in ("cli", "core") if i % 4 == 0 else ():
                ev.append({"ev": "savebad", "lib": lib, "kind": kind, "fmt": fmt, "path": 2, "out": out(call(lib, {"kind": kind, "act": f"save_{fmt}", "path": r.choice([d, d + "/no/such", "", d + "/p\0"]), "value": vals[kind, 1]}))})
            lib, by = r.choice(["cli", "core"]), r.choice(["cli", "core"])
            for v in (1, 2, 1):
                o = out(call(lib, {"kind": kind, "act": f"save_{fmt}", "path": P(2), "value": vals[kind, v]}))
                ev.append({"ev": "save", "lib": lib, "kind": kind, "fmt": fmt, "path": 2, "v": ids[kind, v], "out": o})
                ev += [{"ev": "load", "lib": by, "kind": kind, "fmt": fmt, "path": 2, "out": out(x), "text": canon(x.get("ok"))} for x in [load(by, kind, fmt, P(2))]]
        # every cut of some exports, and damaged bytes
        for kind, fmt in (("circuit", "bin"), ("circuit", "json"), ("witness", "json"), ("testcase", "json")):
            if i % 6: break
            lib = r.choice(["cli", "core"])
            o = out(call(lib, {"kind": kind, "act": f"save_{fmt}", "path": P(1), "value": vals[kind, 1]}))
            ev.append({"ev": "save", "lib": lib, "kind": kind, "fmt": fmt, "path": 1, "v": ids[kind, 1], "out": o})
            b = sysd.rd(P(1))
            lib = r.choice(["cli", "core"])
            ev += [{"ev": "load", "lib": lib, "kind": kind, "fmt": fmt, "path": 1, "out": out(x), "text": canon(x.get("ok"))} for x in [load(lib, kind, fmt, P(1))]]
            ev.append({"ev": "cutfile", "path": 1})
            for c in range(len(b)) if len(b) < 400 else sorted(r.sample(range(len(b)), 200 if fmt == "bin" else 60)) + [len(b) - 1]:
                with open(P(1), "wb") as f: f.write(b[:c])
                x = load(lib, kind, fmt, P(1))
                ev.append({"ev": "load", "lib": lib, "kind": kind, "fmt": fmt, "path": 1, "out": out(x), "text": canon(x.get("ok")), "cut": c})
            for _ in range(30):
                y = bytearray(b)
                y[r.randrange(len(b))] = r.randrange(256)
                with open(P(1), "wb") as f: f.write(y)
                ev.append({"ev": "damage", "out": out(load(lib, kind, fmt, P(1))), "kind": kind, "fmt": fmt})
        return ev
    rd = files.Readers(ctx, n=N)
    cases = core.cases(ctx, 300 if ctx.thorough else 60)
    # and large ones: many constraints, many factors, many wires
    row = lambda s, n, nw: [[(5 * i + s) % nw, i % 250 + 1] for i in range(n)]
    cases += [{"seed": j, "circ": {"npub": 5, "nw": nw, "cons": [[row(a, k, nw), row(a + 1, 1, nw), row(a + 2, 2, nw)] for a in range(m)]}} for j, (nw, m, k) in enumerate([(40, 66001, 2), (30, 3, 66001), (66001, 5, 5)])]
    def convert(k, c):
        r = random.Random(f"{ctx.seed}-{c['seed']}")
        q = c["circ"]
        w = dict(nout=q.get("nout", r.randrange(q["npub"] + 1)), nin=0, nprv=r.randrange(5), nw=q["nw"], cons=q["cons"])
        w["nin"] = q["npub"] - w["nout"]
        b = files.r1cs_file(r, w, r.choice(files.ORDERS), r.choice([None, None, 8, 48]))
        x = rd.std[k].call({"op": "r1cs_ser", "path": rd.tmp(k, b)})
        if "ok" not in x:
            raise vk.Broken("cannot read a circuit: " + str(x)[:200])
        F = ("field_size", "prime", "n_wires", "n_pub_out", "n_pub_in", "n_prv_in", "n_constraints", "constraints")
        return {"ev": "convert", "r": [canon(x["ok"][f]) for f in F], "s": [canon(x["ser"][f]) for f in F]}
    with ThreadPoolExecutor(N) as ex:
        tr = list(ex.map(lambda k: [e for i in range(k, len(hists), N) for e in play(k, i, hists[i])], range(N)))
    tr[0] += rd.map(convert, cases)
    ctx.count("histories", len(hists))
    ctx.count("imports", sum(e["ev"] in ("load", "from") for x in tr for e in x))
    ctx.sample(tr[0][NV * 3 + 1:NV * 3 + 5])
    tcfg = consts(3 * NV) + "INIT TInit\nNEXT TNext\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: ctx.validate("StoreTrace", tcfg, g, "exports and imports", n_traces=len(g), describe=lambda e: str({k: v for k, v in e.items() if k != "text"})), tr))

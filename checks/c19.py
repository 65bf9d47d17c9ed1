import glob, hashlib, json, os, random
from concurrent.futures import ThreadPoolExecutor
import sysd, vk, wasmgen
LEVEL = "model_checking"
BLS = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
P384 = 2 ** 384 - 2 ** 128 - 2 ** 96 + 2 ** 32 - 1
PRIMES = [(257, 1), (65537, 1), (2 ** 31 - 1, 1), (4294967291, 1), (2 ** 64 - 2 ** 32 + 1, 2), (2 ** 61 - 1, 2), (65537, 3), (wasmgen.BN254, 8), (wasmgen.BN254, 8), (wasmgen.BN254, 8), (BLS, 8), (2 ** 255 - 19, 8), (P384, 12), (2 ** 127 - 1, 4), (2 ** 127 - 1, 5)]
NAMES = ["a", "b", "in", "root", "x_1", "Preimage", "constructor", "toString", "left", "zz", "signal_with_a_rather_long_name_0123456789", "é", "k0"]
def le(n):
    n = abs(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, "little"))
def circuit(r):
    p, n32 = r.choice(PRIMES)
    sigs, nw, shapes = [], 1, {}
    for nm in r.sample(NAMES, r.choice([0, 1, 1, 2, 3, 4])):
        d = r.choice([[], [], [1], [2], [5], [2, 2], [1, 3], [2, 1, 2], [3, 2], [0]])
        n = 1
        for x in d: n *= x
        sigs.append([nm, nw, n])
        shapes[nm] = d
        nw += n
    nout = r.choice([0, 1, 2, 4, 7])
    # signals in wires behind the outputs, as circom lays them out, in another order
    order, at = r.sample(range(len(sigs)), len(sigs)), 1 + nout
    wires = {}
    for k in order:
        wires[sigs[k][0]] = list(range(at, at + sigs[k][2]))
        at += sigs[k][2]
    nwires = at + r.choice([0, 0, 3])
    free = [w for w in range(1, nwires) if not any(w in x for x in wires.values())]
    have = [0] + [w for x in wires.values() for w in x]
    r.shuffle(free)
    ops, spec = [], []
    for d in free:
        k = r.choice(["add", "mul", "mul", "sub", "copy", "const"])
        a, b = r.choice(have), r.choice(have)
        if k == "const":
            v = r.choice([0, 1, 2, p - 1, p - 2, r.randrange(p), 2 ** 31 % p, 2 ** 32 % p])
            ops.append(("const", d, v)); spec.append({"k": k, "d": d, "a": 0, "b": 0, "c": le(v), "v": v})
        else:
            ops.append((k, d, a, b)); spec.append({"k": k, "d": d, "a": a, "b": b, "c": []})
        have.append(d)
        if r.random() < 0.2:
            ops.append(("log", 0, d, 0))
    if len(have) > 2 and r.random() < 0.5:
        a, b = r.sample(have, 2)
        if r.random() < 0.5: b = a
        ops.append(("eq", 0, a, b)); spec.append({"k": "eq", "d": 0, "a": a, "b": b, "c": []})
    ver = r.choice([2, 2, 2, 1, 5])
    return {"p": p, "n32": n32, "nw": nwires, "wires": [(s[0], wires[s[0]]) for s in sigs], "shapes": shapes, "spec": spec, "ver": ver,
            "wasm": wasmgen.program(nwires, [(s[0], wires[s[0]]) for s in sigs], ops, p, n32, ver)}
def evaluate(c, vals):
    p, w, q = c["p"], [0] * c["nw"], []
    w[0] = 1
    for nm, ws in c["wires"]:
        for i, x in zip(ws, vals[nm]): w[i] = x % p
    for o in c["spec"]:
        a, b = w[o["a"]], w[o["b"]]
        if o["k"] == "add": w[o["d"]] = (a + b) % p; q.append((a + b) // p)
        elif o["k"] == "mul": w[o["d"]] = a * b % p; q.append(a * b // p)
        elif o["k"] == "sub": w[o["d"]] = (a - b) % p; q.append((w[o["d"]] + b - a) // p)
        elif o["k"] == "copy": w[o["d"]] = a; q.append(0)
        elif o["k"] == "const": w[o["d"]] = o["v"]; q.append(0)
        else: q.append(0)
    return w, q
def quot(x, p): return x // p if x >= 0 else (x % p - x) // p
def value(r, p):
    return r.choice([0, 1, 2, p - 1, p, p + 1, 2 * p, 2 * p + 5, -1, -p, -p - 1, 1 - p, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53, 2 ** 53 - 1, 2 ** 63, 2 ** 64, -2 ** 64, 2 ** 256, p * p - 1, -p * p, r.randrange(p), r.randrange(p), r.randrange(p), -r.randrange(p), r.randrange(2 ** 300), 2 ** 512 + 3, r.randrange(100), r.randrange(100)])
def text(r, v):
    "a value as the caller writes it: (JSON, strict)"
    k = r.random()
    if k < 0.45 or abs(v) > 2 ** 53 and k < 0.7: return json.dumps(str(v)), True
    if k < 0.7: return str(v), True
    if k < 0.92: return json.dumps({"$big": str(v)}), True
    if v >= 0: return json.dumps(r.choice([hex(v), f" {v} ", f"00{v}"])), False
    return json.dumps(f" {v}"), False
BADV = ['"abc"', '"1.5"', "1.5", "null", '{"a":1}', '"1e3"', '"-"', '{"$undef":1}']
def doc(r, c, damage, residues=False):
    """(JSON text, the members for the specification, values, strict)"""
    mem, vals, strict, txt = [], {}, True, []
    names = [(n, len(w)) for n, w in c["wires"]]
    r.shuffle(names)
    for nm, n in names:
        vs = [value(r, c["p"]) for _ in range(n)]
        if residues: vs = [x % c["p"] for x in vs]
        vals[nm] = vs
        ts = []
        for v in vs:
            t, s = text(r, v); strict &= s; ts.append(t)
        mem.append([nm, [{"ok": True, "neg": v < 0, "m": le(v)} for v in vs], ts, c["shapes"][nm]])
    if damage == "unknown":
        k = r.randrange(len(mem) + 1)
        base = r.choice(mem)[0] if mem else "q"
        mem.insert(k, [r.choice(["nosuch", base + "x", base[:-1] or "w", base.upper() + "_", ""]), [{"ok": True, "neg": False, "m": [1]}], ["1"], []])
        if sum(m[0] == mem[k][0] for m in mem) > 1: mem[k][0] = "nosuch"
    if damage in ("many", "few", "value") and mem:
        m = r.choice(mem)
        if damage == "many": m[1].append({"ok": True, "neg": False, "m": [7]}); m[2].append("7"); m[3] = [len(m[2])]
        elif m[1]:
            if damage == "few": m[1].pop(); m[2].pop(); m[3] = [len(m[2])]
            else:
                k = r.randrange(len(m[1]))
                m[1][k] = {"ok": False, "neg": False, "m": []}; m[2][k] = r.choice(BADV)
    if damage == "missing" and mem: mem.pop(r.randrange(len(mem)))
    def nest(d, ts):
        if not d: return ts.pop(0)
        return "[" + ",".join(nest(d[1:], ts) for _ in range(d[0])) + "]"
    parts = []
    for nm, vs, ts, d in mem:
        flat = "[" + ",".join(ts) + "]"
        one = len(ts) == 1 and not d
        how = r.random()
        body = nest(d, list(ts)) if how < 0.7 or one and how < 0.85 else flat if how < 0.85 else "[" + flat + "]"
        parts.append(json.dumps(nm) + ":" + body)
    return "{" + ",".join(parts) + "}", [{"name": m[0], "vals": m[1]} for m in mem], vals, strict
def run(ctx):
    qk = not ctx.thorough
    if ctx.thorough:
        ctx.prove("CalcProof")
    ctx.tlc("CalcMC", "CONSTANTS Users = {1,2}\n Atomic = TRUE\nINIT Init\nNEXT Next\nINVARIANT NoMixing\nCHECK_DEADLOCK FALSE\n", workers=8)
    bad = ctx.tlc("CalcMC", "CONSTANTS Users = {1,2}\n Atomic = FALSE\nINIT Init\nNEXT Next\nINVARIANT NoMixing\nCHECK_DEADLOCK FALSE\n", workers=8, design=False)
    if bad.ok: raise vk.ToolError("the design check cannot tell a broken design")
    dest = sysd.build_js(ctx)
    n = 240 if qk else 8000
    N = 8
    def part(k):
        d = sysd.jsdrv(ctx, dest)
        ev = []
        for i in range(k, n, N):
            r = random.Random(f"{ctx.seed}-c19-{i}")
            c = circuit(r)
            p = c["p"]
            steps, exp = [], []
            for _ in range(r.choice([1, 2, 3, 5])):
                damage = r.choice(["", "", "", "", "unknown", "many", "few", "missing", "value"])
                t, mem, vals, strict = doc(r, c, damage, i % 10 == 7)
                kind = r.choice(["num", "bin", "wtns"])
                st = {"call": kind, "input": t}
                if r.random() < 0.4: st["sanity"] = r.choice([True, False])
                steps.append(st)
                w, q = evaluate(c, vals) if not damage or damage in ("many", "few", "value", "missing", "unknown") else ([], [])
                qs = [le(quot(vals[m["name"]][j], p)) if m["name"] in vals and j < len(vals[m["name"]]) else [] for m in mem for j in range(len(m["vals"]))] + [le(x) for x in q]
                exp.append({"kind": kind, "in": mem, "strict": strict, "w": [le(x) for x in w], "q": qs})
            how = r.choice(["seq", "seq", "conc"])
            path = ctx.scratch(f"w{i}.wasm") if i % 4 == 0 else None
            req = {"op": "wc", "steps": steps, "concurrent": how == "conc"}
            if r.random() < 0.4: req["opts"] = {"sanityCheck": r.random() < 0.5}
            if i % 10 == 7: req.update(cjs=True, concurrent=False)       # circom's own calculator, which ships beside ours: residues only, one calculation at a time
            if path:
                open(path, "wb").write(c["wasm"]); req["wasm_path"] = path
            else: req["wasm"] = c["wasm"].hex()
            y = d.call(req, timeout=120)
            if path: os.unlink(path)
            if "ok" not in y:
                ev.append({"ev": "broken", "raw": json.dumps(y)[:300]}); continue
            y = y["ok"]
            op = lambda y: {"ev": "open", "c": {"n8": c["n32"] * 4, "prime": le(p), "size": c["nw"], "signals": [{"name": s, "wires": w} for s, w in c["wires"]], "ops": [{x: o[x] for x in "kdabc"} for o in c["spec"]]},
                            "n8": y["n32"] * 4, "prime": le(int(y["prime"])), "size": y["size"], "version": y["version"], "ver": c["ver"]}
            ev.append(op(y))
            for e, x in zip(exp, y["res"]):
                ok = "ok" in x
                ev.append({"ev": "calc", **e, "out": "ok" if ok else "err", "mut": x["mut"],
                           "res": [] if not ok else [le(int(v)) for v in x["ok"]] if e["kind"] == "num" else list(bytes.fromhex(x["ok"]))})
            # the exported functions over the same circuit: a calculator each, or one of their own
            if path or i % 8 == 1:
                fp = ctx.scratch(f"v{i}.wasm"); open(fp, "wb").write(c["wasm"])
                for fn in ("default", "array"):
                    e = r.choice(exp); s = steps[exp.index(e)]
                    x = d.call({"op": "calc", "fn": fn, "wasm_path": fp, "input": s["input"]}, timeout=60)
                    ok = "ok" in x
                    ev.append({"ev": "calc", **e, "kind": "num" if fn == "array" else "wtns", "out": "ok" if ok else "err", "mut": False,
                               "res": [] if not ok else [le(int(v)) for v in x["ok"]] if fn == "array" else list(bytes.fromhex(x["ok"]))})
                x = d.call({"op": "calc", "fn": "info", "wasm_path": fp}, timeout=60)
                if "ok" not in x: ev.append({"ev": "broken", "raw": json.dumps(x)[:300]})
                else:
                    z = x["ok"]
                    ev.append({**op({"n32": c["n32"], "prime": z["prime"], "size": z["witnessSize"], "version": z.get("version", c["ver"])})})
        # large instances
        for j, (nw, first, nin) in enumerate([(66010, 3, 24000), (24002, 2, 24000), (98000, 97000, 300)] + ([(90001, 60001, 24500), (65536, 1, 24500), (65537, 41000, 24500)] if ctx.thorough else [])):
            if j % N != k: continue
            r = random.Random(f"{ctx.seed}-large{j}")
            wasm = wasmgen.program(nw, [("in", range(first, first + nin))], [])
            num = lambda v: r.choice([str(v), f'"{v}"', '{"$big":"%d"}' % v])
            item = lambda i: (37 * i + 5) % 65521
            given = [nin, nin, nin, nin - 1, nin + 1]
            docs = ['{"in":[' + ",".join(num(item(i)) for i in range(g)) + "]}" for g in given]
            kinds = ["num", "bin", "wtns", r.choice(["num", "wtns"]), r.choice(["num", "bin"])]
            y = d.call({"op": "wc", "wasm": wasm.hex(), "steps": [{"call": a, "input": b} for a, b in zip(kinds, docs)], "concurrent": j % 2 == 1}, timeout=300)
            if "ok" not in y:
                ev.append({"ev": "broken", "raw": json.dumps(y)[:300]}); continue
            for kind, g, x in zip(kinds, given, y["ok"]["res"]):
                head, w = b"", []
                if "ok" in x and kind == "num": w = [int(v) if len(v) < 9 else -1 for v in x["ok"]]
                elif "ok" in x:
                    b = bytes.fromhex(x["ok"])
                    if kind == "wtns": head, b = b[:76], b[76:]
                    w = [min(int.from_bytes(b[o:o + 32], "little"), 2 ** 31 - 1) if len(b[o:o + 32]) == 32 else -1 for o in range(0, len(b), 32)]
                ev.append({"ev": "large", "kind": kind, "n8": 32, "prime": le(wasmgen.BN254), "size": nw, "first": first, "nin": nin, "given": g, "out": "ok" if "ok" in x else "err", "head": list(head), "w": w})
        # programs compiled by circom, with the witnesses the circuits' own tool computed
        base = "/repo/packages/zkenc-cli/tests"
        for j, f in enumerate(sorted(glob.glob(base + "/inputs/*.wtns"))):
            if j % N != k: continue
            stem = os.path.basename(f)[:-5]
            circ = stem.split("_")[0]
            inp = f"{base}/inputs/{stem}.json"
            if not os.path.exists(inp): inp = f"{base}/inputs/{stem.split('_', 1)[1]}.json"
            if not os.path.exists(inp) or not os.path.exists(f"{base}/r1cs/{circ}.wasm"): continue
            doc_ = open(inp).read()
            want = hashlib.sha256(open(f, "rb").read()).hexdigest()
            x = d.call({"op": "wc", "wasm_path": f"{base}/r1cs/{circ}.wasm", "steps": [{"call": "wtns", "input": doc_}] * 2 + [{"call": "num", "input": "{}"}, {"call": "wtns", "input": doc_}], "concurrent": j % 2 == 0}, timeout=300)
            for m in (0, 1, 3):
                z = x.get("ok", {}).get("res", [{}] * 4)[m]
                ev.append({"ev": "same", "a": hashlib.sha256(bytes.fromhex(z["ok"])).hexdigest() if "ok" in z else str(z)[:200], "b": want, "what": stem})
        d.close()
        return ev
    with ThreadPoolExecutor(N) as ex: tr = list(ex.map(part, range(N)))
    ctx.count("circuits", n)
    ctx.sample(tr[0][:3])
    seen = {}
    for x in tr:
        for e in x:
            key = e["ev"] + ":" + e.get("kind", "") + ":" + e.get("out", "")
            seen[key] = seen.get(key, 0) + 1
    ctx.notes["events"] = seen
    ctx.count("calculations", sum(v for s, v in seen.items() if s.startswith("calc")))
    # TLC judges chunks that begin with an opening
    chunks = []
    for x in tr:
        cur = []
        for e in x:
            if e["ev"] in ("open", "large") and len(cur) > 400: chunks.append(cur); cur = []
            cur.append(e)
        if cur: chunks.append(cur)
    cfg = "INIT TInit\nNEXT TNext\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: ctx.validate("CalcTrace", cfg, x, "witness calculations", n_traces=sum(e["ev"] == "open" for e in x), describe=lambda e: json.dumps({k: v for k, v in e.items() if k not in ("w", "q", "res", "c")})[:400] + " result " + str(e.get("res"))[:200]), chunks))
    for k in ("num", "bin", "wtns"):
        for o in ("ok", "err"):
            if seen.get(f"calc:{k}:{o}", 0) < 20: raise vk.ToolError(f"vacuous: {seen}")
    if sum(v for s, v in seen.items() if s.startswith("same")) < 6: raise vk.ToolError("no compiled programs")

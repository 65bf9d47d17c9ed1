import json, random
from concurrent.futures import ThreadPoolExecutor
import fmt, sysd, vk, wasmgen
LEVEL = "model_checking"
P = fmt.P
SHAPES = [[], [1], [3], [2, 2], [1, 4], [2, 1, 3], [1, 2, 2, 1], [3, 2], [1, 1, 1, 1, 2]]
def digs(n): return [int(c) for c in str(abs(n))]
def pick(r):
    return r.choice([0, 1, 2, 9, 10, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 - 1, 2 ** 53, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, 2 ** 64 - 1, 2 ** 64, 10 ** 18, 10 ** 19, 10 ** 20, 2 ** 127, 2 ** 128, 2 ** 253, 2 ** 254, 2 ** 255, 2 ** 256, P - 1, P, P + 1, P // 2, P // 2 + 1, 2 * P - 1, 2 * P, 2 * P + 1, 5 * P + 3, P * P, P * P - 1, P ** 3 + 7, 2 ** 512 + 5, 10 ** 77, 10 ** 76 + 1, 10 ** 150 + 9, r.randrange(1 << 64), r.randrange(1 << 256), r.randrange(P), r.randrange(1 << r.randrange(1, 700)), r.randrange(1000)]) * r.choice([1, 1, 1, -1])
# a supplied value: (cli token, js token, what the cli takes it for, what js takes it for, must for cli, must for js)
def token(r, plain):
    v = pick(r)
    k = r.random()
    if k < 0.45:
        s = json.dumps(str(v))
        return s, s, v, v, "ok", "ok"
    if k < 0.75 or plain:
        if not -2 ** 63 <= v < 2 ** 64:
            v = v % 2 ** 63 * (1 if v > 0 else -1)
        j = str(v)
        jv = int(float(v))
        return j, j, v, jv, "ok", "ok"
    if k < 0.85:         # bigints of the JavaScript package; the other tool gets the text
        return json.dumps(str(v)), json.dumps({"$big": str(v)}), v, v, "ok", "ok"
    x = r.random()
    if x < 0.2: t = ("-" if v < 0 else "") + "0" * r.randrange(1, 4) + str(abs(v)); return json.dumps(t), json.dumps(t), v, v, "any", "any"
    if x < 0.4: t = r.choice(["1.0", "1e3", "-2e2", "1E5", "12.5e1", "1e22", "3.0e0"]); return t, t, int(float(t)), int(float(t)), "any", "any"
    if x < 0.6: t = r.choice(["1.5", "-0.25", "1e-3", "0.1", "2.0000001", "123.456"]); return t, t, 0, 0, "err", "err"
    if x < 0.75: t = r.choice(["-0", '"-0"']); return t, t, 0, 0, "any", "any"
    if x < 0.9: t = str(v * 2 ** 64 + 1); return t, t, int(t), int(float(t)) if abs(int(t)) < 10 ** 300 else 0, "any", "any"
    t = json.dumps(r.choice(["1.5", "12x", "--3", "abc", "1e3", "1 2", "1,5", "½", "٣"])); return t, t, 0, 0, "err", "err"
def nest(dims, toks):
    if not dims: return toks.pop(0)
    return "[" + ",".join(nest(dims[1:], toks) for _ in range(dims[0])) + "]"
def names(base, dims):
    if not dims: return [base]
    return [n for i in range(dims[0]) for n in names(f"{base}[{i}]", dims[1:])]
def size(d):
    n = 1
    for x in d: n *= x
    return n
def run(ctx):
    t = sysd.Tools(ctx, workers=8)
    def one(i):
        r = random.Random(f"{ctx.seed}-{i}")
        plain = i % 3 != 0
        shapes = [r.choice(SHAPES) for _ in range(r.choice([1, 2, 3]))] if plain else [r.choice(SHAPES[:5])]
        n = sum(map(size, shapes))
        toks = [token(r, True) for _ in range(n)]
        if not plain:
            toks[r.randrange(n)] = token(r, False)
        names_, sigs, w = [], [], 1
        sig = r.sample(["a", "b", "root", "x1", "in", "__proto__", "__proto__x", "constructor", "Z_9", "a0"], len(shapes))
        for s, d in zip(sig, shapes):
            names_ += names(s, d)
            sigs.append((s, list(range(w, w + size(d)))))
            w += size(d)
        nout = r.randrange(n + 1)
        circ = {"nw": n + 2, "nout": nout, "nin": n - nout, "nprv": 1, "cons": [[[[1, 1]], [[0, 1]], [[1, 1]]]]}
        sym = "".join(f"{k + 1},{k + 1},0,main.{x}\n" for k, x in enumerate(names_ + ["prv"]))
        order = list(zip(sig, shapes))
        doc = lambda j: (lambda q: "{" + ",".join(json.dumps(s) + ":" + nest(d, q) for s, d in order) + "}")([x[j] for x in toks])
        must = lambda j: "err" if any(x[j] == "err" for x in toks) else "any" if any(x[j] == "any" for x in toks) else "ok"
        d = t.dir()
        def put(nm, b):
            with open(f"{d}/{nm}", "wb") as f: f.write(b)
            return f"{d}/{nm}"
        r1 = put("c.r1cs", fmt.r1cs(circ))
        ev = []
        def event(tool, vals, must, out, res, src):
            q = [((-v + x) // P if v < 0 else (v - x) // P) if isinstance(x, int) and x >= 0 else 0 for v, x in zip(vals, res)] if out == "ok" else []
            ev.append({"ev": "vals", "tool": tool, "must": must, "vals": [{"neg": v < 0, "d": digs(v)} for v in vals], "out": out, "res": [digs(x) for x in res], "q": [digs(x) for x in q], "src": src[:600]})
        pub = lambda ct: [int(x) for x in t.iocall({"op": "ct", "ct": ct.hex()})["ok"]["pub"]]
        ct = f"{d}/ct"
        rc, so, se = t.cli("encap", "--circuit", r1, "--sym", put("c.sym", sym.encode()), "--input", put("in.json", doc(0).encode()), "--ciphertext", ct, "--key", f"{d}/key")
        o = sysd.out_of(rc)
        event("cli", [x[2] for x in toks], must(4), o, pub(sysd.rd(ct)) if o == "ok" else [], doc(0))
        x = t.js({"op": "encap", "r1cs_path": r1, "sym": sym, "inputs": doc(1)})
        o = sysd.out_js(x)
        event("js", [x_[3] for x_ in toks], must(5), o, pub(bytes.fromhex(x["ok"]["ct"])) if o == "ok" else [], doc(1))
        code = wasmgen.program(n + 1, sigs)
        x = t.js({"op": "wc", "wasm": code.hex(), "steps": [{"call": "num", "input": doc(1)}]})
        if "ok" not in x: raise vk.Broken(str(x)[:300])
        x = x["ok"]["res"][0]
        o = "ok" if "ok" in x else "err"
        event("wc", [x_[3] for x_ in toks], must(5), o, [int(y) for y in x["ok"][1:]] if o == "ok" else [], doc(1))
        return ev
    ids = list(range(6000 if ctx.thorough else 600))
    tr = t.map(one, ids)
    ctx.count("documents", len(ids))
    ctx.count("refused", sum(e["out"] == "err" for x in tr for e in x))
    ctx.sample([{k: e[k] for k in ("tool", "src", "must", "out")} for x in tr[:2] for e in x])
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda k: ctx.validate("ValTrace", cfg, [e for x in tr[k::8] for e in x], "supplied values", n_traces=sum(map(len, tr[k::8])), describe=lambda e: str({k: e[k] for k in ("tool", "src", "must", "out")})), range(8)))

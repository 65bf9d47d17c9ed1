"""Large instances (Scale.tla) performed by both tools, as traces for ScaleTrace."""
import hashlib, json, os, random, struct
from concurrent.futures import ThreadPoolExecutor
import fmt, scen, sysd, vk, wasmgen

def S(nout, nin, nprv, inner, ncons, rowlen, wide, names): return dict(nout=nout, nin=nin, nprv=nprv, inner=inner, ncons=ncons, len=rowlen, wide=wide, names=names)
SCALES = {
    "medium": S(3, 40, 30, 60, 130, 4, 0, "array"),
    "matrix": S(0, 132, 6, 5, 17, 20, 0, "matrix"),
    "broad": S(2, 300, 4, 6, 257, 3, 0, "single"),
    "statement": S(1, 24000, 3, 3, 20, 5, 0, "array"),          # ciphertext and embedded inputs beyond 65535 bytes
    "long": S(1, 500, 2, 4, 6, 3, 0, "array"),                  # a witness ciphertext just beyond 65535 bytes
    "constraints": S(1, 3, 4, 4, 66000, 3, 0, "array"),
    "factors": S(1, 3, 3, 4, 3, 3, 66000, "array"),
    "wires": S(2, 3, 66000, 500, 9, 4, 0, "array"),
}
LIMIT = 24000 + 100      # inputs of a generated witness program

def cases(ctx, names):
    def one(i, name):
        d = dict(SCALES[name], s=(ctx.seed * 17 + 5 * i + len(name)) % 9973)
        p, out = ctx.scratch(f"scale-{name}.in"), ctx.scratch(f"scale-{name}.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(d) + "\n")
        ctx.tlc("ScaleGen", "", env={"SCALES": p, "OUT": out}, workers=1)
        with open(out) as f:
            c = json.loads(f.read())
        c["name"], c["path"], c["seed"] = name, out, d["s"]
        return c
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda x: one(*x), enumerate(names)))

def label(i): return (7 * i + 3) % 99991
def sha(x): return hashlib.sha256(x).hexdigest()

class Case:
    def __init__(self, ctx, t, c):
        self.ctx, self.t, self.c = ctx, t, c
        self.rng = random.Random(f"{ctx.seed}-{c['name']}")
        self.circ, self.asg, self.npub = c["circ"], c["asg"], c["circ"]["nout"] + c["circ"]["nin"]
        self.d = t.dir() if t else ctx.scratch("sc-" + c["name"])
        os.makedirs(self.d, exist_ok=True)
        self.r1 = fmt.r1cs(self.circ, self.rng.choice([(1, 2, 3), (2, 1, 3), (3, 2, 1), (9, 2, 3, 1)]), labels=[label(i) for i in range(self.circ["nw"])], extra=[(9, b"x" * 99)])
        self.r1cs = self.put("c.r1cs", self.r1)
        self.symtext = "".join(f"{i + 1},{w},{i % 3},main.{n}\n" for i, (n, w) in enumerate(c["lines"]))
        self.sym = self.put("c.sym", self.symtext.encode())
        self.pubsig = c["signals"][:c["npubsig"]]
        self.small = self.circ["nw"] < LIMIT
        self.wasm = self.put("c.wasm", wasmgen.program(self.circ["nw"], [(s["name"], range(s["wire"], s["wire"] + fmt.size(s))) for s in c["signals"]])) if self.small else None
        self.n, self.ev, self.cts = 0, [], []

    def put(self, name, data):
        p = f"{self.d}/{name}"
        with open(p, "wb") as f:
            f.write(data)
        return p
    def new(self, ext, data=None):
        self.n += 1
        return self.put(f"f{self.n}.{ext}", data) if data is not None else f"{self.d}/f{self.n}.{ext}"

    def over(self, ov):
        a = list(self.asg)
        for w, v in ov:
            a[w] = v
        return a
    def doc(self, kind):
        form = fmt.forms(self.rng)
        d = fmt.indoc(self.pubsig, self.asg, form)
        if kind == "short":
            k = list(d)[-1]
            v = d[k]
            if not isinstance(v, list): del d[k]
            elif isinstance(v[-1], list): v[-1].pop()
            else: v.pop()
        ks = list(d)
        self.rng.shuffle(ks)
        return {k: d[k] for k in ks}
    def stmt(self, b):
        r = self.t.iocall({"op": "ct", "ct": b.hex()})
        return ([fmt.signed(x) for x in r["ok"]["pub"]], r["ok"]["len"]) if "ok" in r else (["?"], -1)

    def encap(self, tool, kind):
        d = scen.text(self.doc(kind))
        if tool == "js" and self.small:
            r = self.t.js({"op": "encap", "r1cs_path": self.r1cs, "sym": self.symtext, "inputs": d})
            o, ct, key = sysd.out_js(r), None, ""
            if o == "ok": ct, key = bytes.fromhex(r["ok"]["ct"]), r["ok"]["key"]
        elif tool == "js":
            r = self.t.iocall({"op": "js_encap", "r1cs": self.r1.hex(), "wtns": fmt.wtns(self.asg[:self.npub + 1 - (kind == "short")]).hex()})
            o, ct, key = "ok" if "ok" in r else "err" if "err" in r else "crash", None, ""
            if o == "ok": ct, key = bytes.fromhex(r["ok"]["ct"]), r["ok"]["key"]
        else:
            pc, pk = self.new("ct"), self.new("key")
            rc, so, se = self.t.cli("encap", "--circuit", self.r1cs, "--sym", self.sym, "--input", self.new("json", d.encode()), "--ciphertext", pc, "--key", pk)
            o, ct, key = sysd.out_of(rc), None, ""
            if o == "ok": ct, key = sysd.rd(pc), sysd.rd(pk).hex()
        self.cts.append(ct)
        self.ev.append({"ev": "encap", "k": 1, "doc": kind, "tool": tool, "out": o, "stmt": self.stmt(ct)[0] if ct else [], "key": key})
        return len(self.cts) if o == "ok" else 0

    def encrypt(self, tool, kind, msg, embed):
        d = scen.text(self.doc(kind))
        if tool == "js":
            r = self.t.js({"op": "encrypt", "r1cs_path": self.r1cs, "sym": self.symtext, "inputs": d, "msg": msg.hex(), "opt": {"includePublicInput": embed}})
            o = sysd.out_js(r)
            b = bytes.fromhex(r["ok"]["ct"]) if o == "ok" else None
        else:
            out = self.new("enc")
            rc, so, se = self.t.cli("encrypt", "--circuit", self.r1cs, "--sym", self.sym, "--input", self.new("json", d.encode()), "--message", self.new("msg", msg), "--output", out, *([] if embed else ["--no-public-input"]))
            o = sysd.out_of(rc)
            b = sysd.rd(out) if o == "ok" else None
        self.cts.append(b)
        self.ev.append({"ev": "encrypt", "k": 1, "doc": kind, "tool": tool, "embed": embed, "out": o, "stmt": self.stmt(b[5:])[0] if b else [], "msg": sha(msg), "text": sha(scen.canon(d).encode())})
        return len(self.cts) if o == "ok" else 0

    def opened(self, tool, e, ov, combined):
        a, b = self.over(ov), self.cts[e - 1]
        op = "decrypt" if combined else "decap"
        if tool == "js" and self.small:
            doc = fmt.indoc(self.c["signals"], a)
            r = self.t.js({"op": op, "r1cs_path": self.r1cs, "wasm_path": self.wasm, "ct": b.hex(), "inputs": doc})
            o = sysd.out_js(r)
            got = (r["ok"]["key"] if not combined else sha(bytes.fromhex(r["ok"]["msg"]))) if o == "ok" else ""
        elif tool == "js":
            r = self.t.iocall({"op": "js_decap", "r1cs": self.r1.hex(), "wtns": fmt.wtns(a).hex(), "ct": b.hex()})
            o = "ok" if "ok" in r else "err" if "err" in r else "crash"
            got = r["ok"]["key"] if o == "ok" else ""
        else:
            out = self.new("out")
            rc, so, se = self.t.cli(op, "--circuit", self.r1cs, "--witness", self.new("wtns", fmt.wtns(a)), "--ciphertext", self.new("ct", b), "--output" if combined else "--key", out)
            o = sysd.out_of(rc)
            if o != "ok" and os.path.exists(out): o = "leak"
            got = "" if o != "ok" else sha(sysd.rd(out)) if combined else sysd.rd(out).hex()
        self.ev.append({"ev": op, "e": e, "tool": tool, "over": ov, "out": o, "key" if not combined else "msg": got})

    def getpub(self, e):
        r = self.t.js({"op": "getpub", "ct": self.cts[e - 1].hex(), "pre": 0, "post": 0, "fill": 255})
        o = sysd.out_js(r)
        self.ev.append({"ev": "getpub", "e": e, "out": o, "text": sha(scen.canon(r["ok"]["pub"]).encode()) if o == "ok" else ""})

    def near(self): return [[n] for n in self.c["near"]]

def perform(ctx, tools, names, f, checks, what):
    """f(case) on every named instance; the traces are validated side by side"""
    cs = cases(ctx, names)
    def one(c):
        x = Case(ctx, tools, c)
        f(x)
        check(ctx, c, x.ev, checks, what)
        for p in os.listdir(x.d):
            os.unlink(f"{x.d}/{p}")
        return len(x.ev)
    with ThreadPoolExecutor(4) as ex:
        ctx.count("large_instance_events", sum(ex.map(one, cs)))
    ctx.count("large_instances", len(cs))

def check(ctx, c, ev, checks, what):
    cfg = 'CONSTANTS Checks = {%s}\nINIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n' % ",".join('"%s"' % x for x in checks)
    ctx.validate("ScaleTrace", cfg, ev, f"{what}, large instance {c['name']}", env={"CASES": c["path"]}, n_traces=len(ev), describe=lambda e: str({k: v for k, v in e.items() if k not in ("cons", "labels", "vals", "map", "own", "stmt")})[:400])

def keys(x, near=True):
    """key agreement and refusal, across the tools"""
    for i, tool in enumerate(scen.TOOLS):
        x.encap(tool, "short")
        k = x.encap(tool, "full")
        if k:
            for tl in scen.TOOLS:
                x.opened(tl, k, [], False)
                if near:
                    for ov in x.near():
                        x.opened(tl, k, ov, False)

def readers(x, std, io, js=True):
    """the circuit and witness files read back; the circuit as both tools evaluate it"""
    r = std.call({"op": "r1cs", "path": x.r1cs}, timeout=120)
    o = r.get("ok")
    e = {"ev": "read", "k": 1, "out": "ok" if o else "err" if "err" in r else "crash", "h": {}, "cons": [], "labels": []}
    if o:
        num = lambda h: fmt.signed(int.from_bytes(bytes.fromhex(h), "little")) if len(h) == 64 else 1 << 30
        e["h"] = {"nw": o["n_wires"], "nout": o["n_pub_out"], "nin": o["n_pub_in"], "nprv": o["n_prv_in"], "nlab": int(o["n_labels"]), "ncons": o["n_constraints"], "fs": o["field_size"]}
        e["cons"] = [[[[w, num(c)] for w, c in row] for row in con] for con in o["constraints"]]
        e["labels"] = [min(int(v), 1 << 30) for v in o["labels"]]
    x.ev.append(e)
    w = x.put("big.wtns", fmt.wtns(x.asg))
    r = io.call({"op": "wtns", "path": w}, timeout=120)
    o = r.get("ok")
    e = {"ev": "wtns", "k": 1, "out": "ok" if o else "err" if "err" in r else "crash", "n": -1, "vals": []}
    if o and "ok" in o["field"]:
        e.update(n=o["n"], vals=[fmt.signed(v) for i, (q, v) in enumerate(o["field"]["ok"]) if q == i])
    x.ev.append(e)
    ovs = [[]] + x.near()
    r = io.call({"op": "cli_circuit", "path": x.r1cs, "asgs": [x.over(o) for o in ovs], "vars": False}, timeout=300)
    acc = r["ok"]["acc"] if "ok" in r else ["?"] * len(ovs)
    x.ev += [{"ev": "accept", "k": 1, "over": o, "acc": {True: "yes", False: "no"}.get(a, str(a))} for o, a in zip(ovs, acc)]
    e = io.call({"op": "js_encap", "r1cs": x.r1.hex(), "wtns": fmt.wtns(x.asg[:x.npub + 1]).hex()}, timeout=120)
    if "ok" not in e:
        raise vk.Broken(f"the WebAssembly module refuses a large circuit: {str(e)[:200]}")
    for o in ovs:
        if all(q > x.npub for q, _ in o):
            d = io.call({"op": "js_decap", "r1cs": x.r1.hex(), "wtns": fmt.wtns(x.over(o)).hex(), "ct": e["ok"]["ct"]}, timeout=120)
            x.ev.append({"ev": "accept", "k": 1, "over": o, "acc": ("yes" if d["ok"]["key"] == e["ok"]["key"] else "other key") if "ok" in d else "no" if "err" in d else "crash"})

def symbols(x, std, js):
    n = x.circ["nw"]
    for mx in (-1, x.npub, n // 2):
        for d in (std, js):
            r = d.call({"op": "sym", "text": x.symtext, "max": None if mx < 0 else mx}, timeout=120)
            m, i = (r["ok"], r["inputs"]) if "ok" in r and d is std else (r["ok"]["map"], r["ok"]["inputs"]) if "ok" in r else ([], [])
            x.ev.append({"ev": "sym", "k": 1, "max": mx, "out": "ok" if "ok" in r else "err", "map": m, "own": i})

def as_case(c):
    """in the form of SysGen"""
    return {"circ": c["circ"], "signals": c["signals"], "sym": [{"name": "main." + n, "wire": w} for n, w in c["lines"]], "asg": c["asg"], "seed": c["seed"]}

def verify(x, d):
    """the statement of an encapsulation against lists of values, in both encodings"""
    circ = {"n_pub": x.npub, "n_wires": x.circ["nw"], "cons": x.circ["cons"], "asg": x.asg[:x.npub + 1] + [None] * (x.circ["nw"] - x.npub - 1)}
    r = d.call({"op": "encap", "circ": circ, "rng": {"seed": x.c["seed"]}}, timeout=120)
    if "ok" not in r:
        raise vk.Broken(f"encapsulation for a large statement fails: {str(r)[:200]}")
    ct, st = r["ok"]["ct"], x.asg[1:x.npub + 1]
    x.ev.append({"ev": "encap", "k": 1, "doc": "full", "tool": "lib", "out": "ok", "stmt": [fmt.signed(v) for v in r["ok"]["parts"]["pub"]], "key": r["ok"]["key"]})
    u = d.call({"op": "recode", "ct": ct}, timeout=120)["ok"]["u"]
    n = len(st)
    lists = [st, st[:-1], st + [0], st + [st[-1]], [], st[1:], st[::-1]] + [st[:i] + [st[i] + 1] + st[i + 1:] for i in {0, n - 1, n // 2, x.rng.randrange(n), x.rng.randrange(n), min(n - 1, 255), min(n - 1, 256), min(n - 1, 65535)}]
    lists += [st[:i] + [st[j]] + st[i + 1:j] + [st[i]] + st[j + 1:] for i, j in [(0, n - 1), (n - 2, n - 1)]] + [st[:k] for k in (n // 2, n & 255, n - 256) if 0 < k < n]
    for q in lists:
        for mode, h in (("compressed", ct), ("uncompressed", u)):
            v = d.call({"op": "verify", "ct": h, "mode": mode, "pub": q}, timeout=120)
            x.ev.append({"ev": "verify", "e": 1, "list": q, "out": {True: "yes", False: "no"}.get(v["ok"] if "ok" in v else None, "none")})

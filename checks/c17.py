import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import fmt, scen, sysd, vk
LEVEL = "model_checking"
SHORT = {"circuit": "-c", "sym": "-s", "input": "-i", "message": "-m", "output": "-o", "witness": "-w", "key": "-k"}
OUTS = {"encap": ["ciphertext", "key"], "decap": ["key"], "encrypt": ["output"], "decrypt": ["output"]}

class Hist:
    """A scratch directory whose paths 1..n are driven by a history; every state is read back from the disk."""
    def __init__(self, t, sysl, seed, n, dirs, lost, where):
        self.t, self.sysl, self.n, self.dirs, self.lost = t, sysl, n, dirs, lost
        self.r = random.Random(seed)
        self.d = where
        os.mkdir(self.d)
        names = ["a", "b.r1cs", "with space", "é☃", "c.json.bak", "x" * 60, "0", "d.e.f", "comma,name", "eq=name", "quote'\"", "tab\tname", "sub/f", "sub/g h"]
        os.mkdir(f"{self.d}/sub")
        self.r.shuffle(names)
        self.name = {p: f"gone/{p}" if p in lost else f"dir{p}" if p in dirs else (names[p - 1] if p <= len(names) else f"f{p}") for p in range(1, n + 1)}
        for p in dirs: os.mkdir(self.path(p))
        self.ids, self.sizes, self.last = {}, {}, {}
        self.ev = [{"ev": "start", "n": n, "dir": dirs, "lost": lost}]

    def path(self, p): return "/dev/full" if p == 0 else f"{self.d}/{self.name[p]}"

    def state(self):
        st = []
        for p in range(1, self.n + 1):
            q = self.path(p)
            if p in self.lost: st.append({"t": "lost" if not os.path.exists(q) else "file", "c": 0})
            elif os.path.isdir(q): st.append({"t": "dir" if not os.listdir(q) else "dirty", "c": 0})
            elif os.path.exists(q):
                b = sysd.rd(q)
                st.append({"t": "file", "c": self.ids.setdefault(b, len(self.ids) + 1)})
            else: st.append({"t": "none", "c": 0})
        extra = sorted(x for x in os.listdir(self.d) + ["sub/" + y for y in os.listdir(self.d + "/sub")] if x not in self.name.values() and x != "sub")
        if extra: st.append({"t": "extra " + ",".join(extra), "c": 0})
        return st

    def put(self, p, data, m):
        with open(self.path(p), "wb") as f: f.write(data)
        self.ev.append({"ev": "put", "path": p, "id": self.ids.setdefault(data, len(self.ids) + 1), "m": dict(zip("ksxe", m))})

    def remove(self, p):
        if os.path.exists(self.path(p)): os.unlink(self.path(p))
        self.ev.append({"ev": "remove", "path": p})

    def make(self, k, s, x):
        """bytes and meaning of a good content; s: index of the system"""
        c, r = self.sysl[s - 1], self.r
        if k == "r1cs": return fmt.r1cs(c["circ"]), (k, s, 1, 0)
        if k == "sym": return fmt.sym(c["sym"]).encode(), (k, s, 1, 0)
        if k == "doc":
            nd, ns = len(c["docs"]), len(c["short"])
            i = r.randrange(nd) if x == 1 or not ns else nd + r.randrange(ns)
            return scen.text(fmt.doc((c["docs"] + c["short"])[i], fmt.forms(r))).encode(), (k, s, i + 1, 0)
        if k == "wtns":
            i = 0 if x == 1 or not c["near"] else 1 + r.randrange(len(c["near"]))
            return fmt.wtns(([c["asg"]] + c["near"])[i]), (k, s, i + 1, 0)
        if k == "msg": return b"message " + bytes(r.randrange(256) for _ in range(r.choice([1, 20, 300, 5000, 5000, 70001, (1 << 20) + 9]))), (k, 0, 1, 0)
        if k == "empty": return b"", (k, 0, 1, 0)
        return self.bad(r.choice(["r1cs", "sym", "doc", "wtns", "other"])), ("bad", 0, 1, 0)

    def bad(self, k):
        c, r = self.r.choice(self.sysl), self.r
        if k == "r1cs":
            b = fmt.r1cs(c["circ"])
            h = 12 + 12 + len(fmt.header(c["circ"]))
            return r.choice([b[:r.randrange(1, h)], b"wtns" + b[4:], b[:h] + b"\xff" * 9])
        if k == "wtns":
            b = fmt.wtns(c["asg"])
            return r.choice([b[:r.randrange(1, len(b))], b"r1cs" + b[4:]])
        if k == "doc": return r.choice([b'{"in":[1,2', b"[1,2,3]", b'{"in":1}}', b"{'in':1}", b"\xff\xfe{}", b'{"in":"x y"}', b"7"])
        if k == "sym": return r.choice([b"1,x,0,main.in\n", b"\xff\xfe1,1,0,main.in\n", b"1,1x,0,main.in[0]\n"])
        return b"\x00" + bytes(r.randrange(256) for _ in range(r.choice([1, 20, 200])))

    def args(self, cmd, a):
        r, opts = self.r, []
        for s, p in a.items():
            v, style = self.path(p), r.randrange(4)
            if r.random() < 0.4 and p: v = os.path.relpath(v, self.d)
            sh = "-i" if cmd == "decrypt" and s == "ciphertext" else SHORT.get(s)
            opts.append([f"--{s}", v] if style == 0 or (style != 1 and not sh) else [f"--{s}={v}"] if style == 1 else [sh, v] if style == 2 else [sh + v])
        if cmd == "encrypt" and r.random() < 0.3: opts.append(["--no-public-input"])
        r.shuffle(opts)
        return opts

    def go(self, opts, cmd):
        rc, so, se = self.t.cli(cmd, *[x for o in opts for x in o], cwd=self.d)
        st = self.state()
        return {"out": "hang" if rc == "hang" else sysd.out_of(rc), "rc": rc, "fs": st, "top": len(self.ids), "err": se.decode("utf-8", "replace")[-200:]}

    def run(self, cmd, a):
        self.ev.append({"ev": "run", "cmd": cmd, "a": a, **self.go(self.args(cmd, a), cmd)})
        if self.ev[-1]["out"] == "ok":
            for o in OUTS[cmd]:
                if os.path.isfile(self.path(a[o])): self.sizes.setdefault((cmd, o), set()).add(os.path.getsize(self.path(a[o])))
                if os.path.isfile(self.path(a[o])) and 0 < os.path.getsize(self.path(a[o])) < 1 << 17: self.last[cmd, o] = sysd.rd(self.path(a[o]))
        return self.ev[-1]

    def usage(self, cmd, a):
        r, opts = self.r, self.args(cmd, a)
        opts = [o for o in opts if o != ["--no-public-input"]]
        k = r.randrange(6)
        if k <= 1: opts.pop()
        elif k == 2: opts.append(r.choice(opts))
        elif k == 3: opts.append(["--unknown", "x"])
        elif k == 4: opts.append(["stray"])
        else: opts[-1] = opts[-1][:1] if len(opts[-1]) == 2 else [opts[-1][0].split("=")[0][:2] if not opts[-1][0].startswith("--") else opts[-1][0].split("=")[0]]
        self.ev.append({"ev": "usage", "cmd": cmd, "args": opts, **self.go(opts, cmd)})

def old(h, p, cmd, opt=None, same=False):
    """an output path before a run: absent, or older content, shorter or longer than what is written or (as far as earlier runs tell)
    of the same size"""
    k = 4 if same else h.r.randrange(8)
    n = sorted(x for o in OUTS[cmd] for x in h.sizes.get((cmd, o), ()) if 4 <= x < 1 << 21 and opt in (None, o))
    if k == 0: h.remove(p)
    elif k < 4 or k < 7 and not n: h.put(p, b"old " + h.r.randbytes([3, 60, h.r.choice([40000, 70001])][k % 3]), ("msg", 0, 1, 0))
    elif k < 7 and h.r.random() < .5 and [1 for o in OUTS[cmd] if opt in (None, o) and (cmd, o) in h.last]:
        # what an earlier run wrote, but for one byte
        b = bytearray(h.r.choice([h.last[cmd, o] for o in sorted(OUTS[cmd]) if opt in (None, o) and (cmd, o) in h.last]))
        b[h.r.choice([0, len(b) - 1, h.r.randrange(len(b))])] ^= 1 << h.r.randrange(8)
        h.put(p, bytes(b), ("msg", 0, 1, 0))
    elif k < 7: h.put(p, b"old " + h.r.randbytes(h.r.choice(n) - 4), ("msg", 0, 1, 0))
    # (k = 7: whatever an earlier run left there)

def grid(t, sysl, i, runs, where):
    h = Hist(t, sysl, f"{t.ctx.seed}-g{i}", 25, [24], [25], where)
    a, b = 2 * i + 1, 2 * i + 2
    for p, m in {1: ("r1cs", a, 1), 2: ("r1cs", b, 1), 4: ("sym", a, 1), 5: ("sym", b, 1), 7: ("doc", a, 1), 8: ("doc", a, 2), 9: ("doc", b, 1), 11: ("wtns", a, 1), 12: ("wtns", a, 2),
                 13: ("wtns", b, 1), 15: ("msg", 0, 1), 16: ("empty", 0, 1)}.items():
        h.put(p, *h.make(*m))
    def bads():
        for p, k in ((3, "r1cs"), (6, "sym"), (10, "doc"), (14, "wtns"), (19, "other"), (20, "other")): h.put(p, h.bad(k), ("bad", 0, 1, 0))
    bads()
    base = {"circuit": 1, "sym": 4, "input": 7}
    h.run("encap", {**base, "ciphertext": 17, "key": 22})
    h.run("encrypt", {**base, "message": 15, "output": 18})
    # every output is written anew, whatever was there
    for cmd, q in (("encap", {**base, "ciphertext": 21, "key": 22}), ("decap", {"circuit": 1, "witness": 11, "ciphertext": 17, "key": 21}),
                   ("encrypt", {**base, "message": 15, "output": 21}), ("decrypt", {"circuit": 1, "witness": 11, "ciphertext": 18, "output": 21})):
        for n in range(4):
            for o in OUTS[cmd]: old(h, q[o], cmd, o, n in (1, 2))
            h.run(cmd, q)
    # an empty message is written like any other
    for _ in range(3):
        for p in (21, 22): old(h, p, "encrypt")
        h.run("encrypt", {**base, "message": 16, "output": 22})
        h.run("decrypt", {"circuit": 1, "witness": 11, "ciphertext": 22, "output": 21})
    for j, q in enumerate(runs):
        # put back what an earlier run may have replaced
        if j % 40 == 0: bads()
        for p in (21, 22): old(h, p, q["cmd"])
        keep = {p: sysd.rd(h.path(p)) if os.path.exists(h.path(p)) else None for p in range(1, 21)}
        e = h.run(q["cmd"], q["a"])
        for p in range(1, 21):
            if keep[p] is not None and q["a"].get(OUTS[q["cmd"]][0]) == p and (not os.path.exists(h.path(p)) or sysd.rd(h.path(p)) != keep[p]):
                h.put(p, keep[p], ("bad", 0, 1, 0))
        if j % 9 == 0: h.usage(q["cmd"], q["a"])
        h.remove(23)
    return h.ev

def hist(t, sysl, i, steps, where):
    h = Hist(t, sysl, f"{t.ctx.seed}-h{i}", 14, [13], [14], where)
    g = lambda s: (2 * i + s - 1) % len(sysl) + 1
    for s in steps:
        if s["act"] == "put":
            b, m = h.make(s["k"], g(s["s"]) if s["s"] else 0, s["x"]) if s["k"] != "bad" else h.make("bad", 0, 1)
            h.put(s["path"], b, m)
        elif s["act"] == "remove": h.remove(s["path"])
        else: h.run(s["cmd"], s["a"])
    return h.ev

def run(ctx):
    ne, deep = (7, 800) if ctx.thorough else (5, 200)
    ctx.tlc("CommandMC", f"CONSTANTS NP = 5\n NExt = {ne}\n Depth = 0\n MaxMean = {ne + 2}\n MaxEnc = 1\n Sys <- MCSys\nINIT MCInit\nNEXT Next\nPROPERTY Quiet\nVIEW View\nCHECK_DEADLOCK FALSE\n", workers=8, env={"OUT": ""}, timeout=deep, heap="8g")
    base = "NP = 14\n NExt = 0\n MaxMean = 99\n MaxEnc = 9\n Sys <- MCSys\n"
    gp = ctx.scratch("grid.ndjson")
    ctx.tlc("CommandMC", f"CONSTANTS {base} Depth = 0\nINIT MCInit\nNEXT SimNext\nCONSTRAINT Stop\nCHECK_DEADLOCK FALSE\n", workers=1, env={"OUT": gp})
    with open(gp) as f: runs = [json.loads(x) for x in f]
    H = 400 if ctx.thorough else 30
    tl = ctx.tlc("CommandMC", f"CONSTANTS {base} Depth = 60\nINIT MCInit\nNEXT SimNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1, simulate=f"num={H}", extra=["-depth", "200", "-seed", str(ctx.seed)], env={"OUT": ""})
    hists = [json.loads(x) for x in re.findall(r'^"?HIST (\[.*\])"?\s*$', tl.out.replace('\\"', '"'), re.M)]
    if len(hists) < H // 2:
        raise vk.ToolError(f"{len(hists)} histories")
    t = sysd.Tools(ctx, js=False)
    G = 8
    gsys = [c for c in sysd.gen(ctx, 60) if c["short"] and c["near"] and c["circ"]["cons"]]
    sysl = gsys[:2 * G] if len(gsys) >= 2 * G else gsys
    random.Random(ctx.seed).shuffle(runs)
    if not ctx.thorough: runs = [q for j, q in enumerate(runs) if q['cmd'] != 'encrypt' or j % 3 == 0 or sum(q['a'][s] in (1, 4, 7, 15, 21) for s in q['a']) >= 4]
    def job(k):
        if k < G: return grid(t, sysl, k, runs[k::G], ctx.scratch(f"g{k}"))
        return [e for i in range(k - G, len(hists), G) for e in hist(t, sysl, i, hists[i], ctx.scratch(f"h{i}"))]
    tr = vk.parallel(job, range(2 * G))
    sp = ctx.scratch("systems.ndjson")
    with open(sp, "w") as f:
        for c in sysl: f.write(json.dumps({"circ": scen.circ_of(c), "sym": c["sym"], "docs": c["docs"] + c["short"], "asgs": [c["asg"]] + c["near"]}) + "\n")
    ctx.count("commands", sum(e["ev"] in ("run", "usage") for x in tr for e in x))
    ctx.count("commands_succeeding", sum(e["ev"] == "run" and e["out"] == "ok" for x in tr for e in x))
    ctx.sample([{k: v for k, v in e.items() if k != "fs"} for e in tr[0] if e["ev"] == "run"][:3])
    for x in tr:
        for e in x: e.pop("err", 0), e.pop("args", 0)
    cfg = "CONSTANT Sys <- TSys\nINIT TInit\nNEXT TNext\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: ctx.validate("CommandTrace", cfg, x, "commands and their files", env={"SYS": sp}, n_traces=sum(e["ev"] in ("run", "usage") for e in x), describe=lambda e: json.dumps(e)[:500]), tr))

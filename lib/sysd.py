"""The two tools as a user runs them: `zkenc` processes and the JavaScript package (its TypeScript
compiled file by file, its WebAssembly module run natively)."""
import json, os, queue, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import fmt, vk, wasmgen

SECTIONS = [(1, 2, 3), (2, 1, 3), (3, 2, 1), (1, 3, 2), (2, 3, 1), (9, 1, 2, 3), (1, 2), (2, 9, 3, 1)]

class Tools:
    def __init__(self, ctx, workers=6, js=True, cli=True):
        self.ctx, self.w = ctx, workers
        if cli:
            ctx.build("zkenc-cli")
        ctx.build("io-drv")
        self.exe = vk.exe("zkenc")
        self.io = ctx.driver(vk.exe("io-drv"))
        self.lock = threading.Lock()
        self.pool = ThreadPoolExecutor(workers)
        if js:
            self.dest = build_js(ctx)
            self.free = queue.Queue()
            for _ in range(workers):
                self.free.put(jsdrv(ctx, self.dest))
        self.n = 0

    def dir(self):
        with self.lock:
            self.n += 1
            d = self.ctx.scratch(f"t{self.n}")
        os.mkdir(d)
        return d

    def map(self, f, xs):
        return list(self.pool.map(f, xs))

    def js(self, req, timeout=120):
        d = self.free.get()
        try:
            return d.call(req, timeout=timeout)
        finally:
            self.free.put(d)

    def iocall(self, req):
        with self.lock:
            return self.io.call(req)

    def cli(self, *args, timeout=60, cwd=None, stdin=None, env=None):
        try:
            p = subprocess.run([self.exe, *args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd or self.ctx.dir, stdin=subprocess.DEVNULL, env=dict(os.environ, **env) if env else None)
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return "hang", b"", b""

    def stmt(self, ct):
        """the recorded statement of a witness ciphertext (bytes), as small integers"""
        r = self.iocall({"op": "ct", "ct": ct.hex()})
        return [fmt.signed(x) for x in r["ok"]["pub"]] if "ok" in r else ["?"]

    # ---- one system: the files of a case in a directory
    def system(self, case, rng):
        return System(self, case, rng)


def build_js(ctx):
    dest = ctx.scratch("jsdist")
    os.makedirs(dest, exist_ok=True)
    p = subprocess.run(["node", vk.VERIF + "/js/build.mjs", dest], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise vk.ToolError("cannot compile the JavaScript package: " + vk.tail(p.stdout.decode("utf-8", "replace"), 20))
    return dest

def jsdrv(ctx, dest, env=None, out=None):
    tmp = ctx.scratch("jstmp")
    os.makedirs(tmp, exist_ok=True)
    e = {"ZK_TMP": tmp, "ZK_BRIDGE": vk.exe("jsbridge")}
    e.update(env or {})
    return ctx.driver(["node", "--stack-size=2000", vk.VERIF + "/js/driver.mjs", dest], env=dict(e, ZK_OUT=out) if out else e, out=out)


def out_of(rc):
    """process result: ok, err (a reported failure) or crash"""
    return "ok" if rc == 0 else "err" if rc in (1, 2) else "crash"

def out_js(r):
    """ok / err for a settled promise, crash when the WebAssembly module trapped"""
    if "ok" in r: return "ok"
    if "err" in r: return "crash" if r.get("kind") == "RuntimeError" else "err"
    return "crash"


class System:
    def __init__(self, t, case, rng):
        self.t, self.c, self.rng = t, case, rng
        self.d = t.dir()
        self.circ = case["circ"]
        order = rng.choice(SECTIONS)
        self.r1cs = self.put("c.r1cs", fmt.r1cs(self.circ, order, extra=[(9, bytes(rng.randrange(256) for _ in range(rng.randrange(40))))]))
        self.symtext = fmt.sym(case["sym"])
        self.sym = self.put("c.sym", self.symtext.encode())
        self.wasm = self.put("c.wasm", wasmgen.program(self.circ["nw"], [(s["name"], range(s["wire"], s["wire"] + fmt.size(s))) for s in case["signals"]]))
        self.n = 0

    def put(self, name, data):
        p = f"{self.d}/{name}"
        with open(p, "wb") as f:
            f.write(data)
        return p

    def new(self, ext):
        with self.t.lock:
            self.n += 1
            return f"{self.d}/f{self.n}.{ext}"

    def tmp(self, ext, data):
        p = self.new(ext)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def wtns(self, asg):
        return self.tmp("wtns", fmt.wtns(asg))

    # every operation returns (out, values...)
    def encap(self, tool, inputs):
        if tool == "js":
            r = self.t.js({"op": "encap", "r1cs_path": self.r1cs, "sym": self.symtext, "inputs": inputs})
            o = out_js(r)
            return (o, bytes.fromhex(r["ok"]["ct"]), r["ok"]["key"]) if o == "ok" else (o, None, str(r)[:160])
        ct, key = self.new("ct"), self.new("key")
        rc, so, se = self.t.cli("encap", "--circuit", self.r1cs, "--sym", self.sym, "--input", self.tmp("json", inputs.encode() if isinstance(inputs, str) else json.dumps(inputs).encode()), "--ciphertext", ct, "--key", key)
        o = out_of(rc)
        return (o, rd(ct), rd(key).hex()) if o == "ok" else (o, None, se.decode("utf-8", "replace")[-160:])

    def decap(self, tool, ct, asg):
        if tool == "js":
            r = self.t.js({"op": "decap", "r1cs_path": self.r1cs, "wasm_path": self.wasm, "ct": ct.hex(), "inputs": fmt.indoc(self.c["signals"], asg)})
            o = out_js(r)
            return o, r["ok"]["key"] if o == "ok" else str(r)[:160]
        key = self.new("key")
        rc, so, se = self.t.cli("decap", "--circuit", self.r1cs, "--witness", self.wtns(asg), "--ciphertext", self.tmp("ct", ct), "--key", key)
        o = out_of(rc)
        if o != "ok" and os.path.exists(key):
            return "leak", rd(key).hex()
        return o, rd(key).hex() if o == "ok" else se.decode("utf-8", "replace")[-160:]

    def encrypt(self, tool, inputs, msg, embed=True):
        if tool == "js":
            r = self.t.js({"op": "encrypt", "r1cs_path": self.r1cs, "sym": self.symtext, "inputs": inputs, "msg": msg.hex(), **({} if embed is None else {"opt": {"includePublicInput": embed}})})
            o = out_js(r)
            return (o, bytes.fromhex(r["ok"]["ct"])) if o == "ok" else (o, None)
        out = self.new("enc")
        rc, so, se = self.t.cli("encrypt", "--circuit", self.r1cs, "--sym", self.sym, "--input", self.tmp("json", inputs.encode() if isinstance(inputs, str) else json.dumps(inputs).encode()), "--message", self.tmp("msg", msg), "--output", out, *([] if embed in (True, None) else ["--no-public-input"]))
        o = out_of(rc)
        return (o, rd(out)) if o == "ok" else (o, None)

    def decrypt(self, tool, comb, asg, pre=0, post=0, after=None):
        if tool == "js":
            r = self.t.js({"op": "decrypt", "r1cs_path": self.r1cs, "wasm_path": self.wasm, "ct": comb.hex(), "inputs": fmt.indoc(self.c["signals"], asg), "pre": pre, "post": post, **({} if after is None else {"after": after.hex()})})
            o = out_js(r)
            return o, bytes.fromhex(r["ok"]["msg"]) if o == "ok" else b""
        out = self.new("dec")
        rc, so, se = self.t.cli("decrypt", "--circuit", self.r1cs, "--witness", self.wtns(asg), "--ciphertext", self.tmp("enc", comb), "--output", out)
        o = out_of(rc)
        if o != "ok" and os.path.exists(out):
            return "leak", rd(out)
        return o, rd(out) if o == "ok" else b""

    def getpub(self, comb, pre=0, post=0, fill=255, after=None):
        r = self.t.js({"op": "getpub", "ct": comb.hex(), "pre": pre, "post": post, "fill": fill, **({} if after is None else {"after": after.hex()})})
        return ("ok", r["ok"]["pub"]) if "ok" in r else (out_js(r), "")

def rd(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except FileNotFoundError:
        raise vk.Broken(f"a command that succeeded did not write {os.path.basename(p)}")

def gen(ctx, n, base=None):
    out = ctx.scratch(f"sys{base}.ndjson")
    ctx.tlc("SysGen", f"CONSTANTS N = {n}\n Base = {base or ctx.seed}\n", env={"OUT": out}, workers=1)
    with open(out) as f:
        return [json.loads(x) for x in f]

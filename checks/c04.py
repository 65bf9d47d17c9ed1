import hashlib, os, random
from concurrent.futures import ThreadPoolExecutor
import core, fmt, scen, sysd, vk
LEVEL = "model_checking"
def h(x):
    return hashlib.blake2b(str(x).encode(), digest_size=8).hexdigest()
def run(ctx):
    if ctx.thorough:
        ctx.prove("FreshProof")
    ctx.tlc("Fresh", "CONSTANTS Procs = {1,2%s}\n MaxDraw = 8\n MaxPub = 4\nINIT Init\nNEXT Next\nINVARIANT Once\nCHECK_DEADLOCK FALSE\n" % (",3" if ctx.thorough else ""), workers=8)
    # where the library's draws go, over the toy field
    d = core.drv(ctx)
    ev, n = [], 0
    for c in core.cases(ctx, 1500 if ctx.thorough else 250):
        ev.append({"ev": "begin"})
        n += 1
        for i, asg in enumerate((core.hide(c["circ"], c["asg"]), c["asg"])):
            ev.append(core.encap_event(d, c["circ"], asg, core.rng(c, i))[0])
    core.validate(ctx, ev, ["roles"], "use of the draws", n)
    # dependence on the state of the source
    ev = []
    big = core.drv(ctx, toy=False)
    cases = core.cases(ctx, 60, base=ctx.seed + 7)
    for c in cases:
        circ, asg = core.drive(c["circ"]), core.hide(c["circ"], c["asg"])
        rs = [big.call({"op": "encap", "circ": dict(circ, asg=[None if x < 0 else x for x in asg]), "rng": {"seed": s}}) for s in (c["seed"], c["seed"], c["seed"] + 1)]
        if all("ok" in r for r in rs):
            e = [([r["ok"]["parts"][k] for k in ("alpha", "beta", "delta")], r["ok"]["key"]) for r in rs]
            ev.append({"ev": "pair", "same": True, "a": e[0][0], "b": e[1][0], "ka": e[0][1], "kb": e[1][1]})
            ev.append({"ev": "pair", "same": False, "a": e[0][0], "b": e[2][0], "ka": e[0][1], "kb": e[2][1]})
    t = sysd.Tools(ctx)
    sc = sysd.gen(ctx, 40)
    def jsfiles(c):
        s = t.system(c, random.Random(c["seed"]))
        return s, {"r1cs": sysd.rd(s.r1cs).hex(), "wtns": fmt.wtns(c["asg"][:1 + c["circ"]["nout"] + c["circ"]["nin"]]).hex()}
    for c in sc[:20 if ctx.thorough else 6]:
        s, f = jsfiles(c)
        def one(seed):
            r = t.iocall({"op": "js_seed", "seed": bytes(seed).hex(), **f})
            if "ok" not in r:
                raise vk.Broken("js_seed: " + str(r)[:200])
            p = t.iocall({"op": "ct", "ct": r["ok"]["ct"]})["ok"]
            return [p["alpha"], p["beta"], p["delta"]], r["ok"]["key"], r["ok"]["used"]
        seed = [ctx.rng.randrange(256) for _ in range(64)]
        a, b = one(seed), one(seed)
        used = a[2]
        if used:      # the source is the one we control
            ev.append({"ev": "pair", "same": True, "a": a[0], "b": b[0], "ka": a[1], "kb": b[1]})
        for i in range(used):
            x = list(seed)
            x[i] ^= 1 << ctx.rng.randrange(8)
            b = one(x)
            ev.append({"ev": "pair", "same": False, "a": a[0], "b": b[0], "ka": a[1], "kb": b[1]})
    ctx.count("source_states_compared", len(ev))
    # histories of draws
    shown = []      # the first draws of a history, byte by byte
    def draws(kind, toks):
        if kind in ("key", "gcm", "ctr") and len(toks) >= 256:
            shown.append({"ev": "bytes", "kind": kind, "rows": [list(bytes.fromhex(x)) for x in toks[:256]]})
        return {"ev": "draws", "kind": kind, "toks": [h(x) for x in toks]}
    def encaps(rows):
        bad = [r for r in rows if len(r[0]) < 2]
        if bad:
            raise vk.Broken(f"encapsulation failed in a history: {bad[0]}")
        return [draws("scalar", [x for r in rows for x in r[:3]]), draws("key", [r[3] for r in rows])]
    N = 800000 if ctx.thorough else 240000
    W = 8
    io = [ctx.driver(vk.exe("io-drv"), timeout=600) for _ in range(W)]
    ctx.build("std-drv")
    sd = [ctx.driver(vk.exe("std-drv"), timeout=600) for _ in range(4)]
    co = [core.drv(ctx, toy=False) for _ in range(2)]
    js = [sysd.jsdrv(ctx, t.dest) for _ in range(4)]
    files = [jsfiles(c)[1] for c in sc[:W]]
    key = ctx.rng.randbytes(32).hex()
    jobs = [lambda i=i: encaps(io[i].call({"op": "js_many", "n": N // W, **files[i]})["ok"]) for i in range(W)]
    jobs += [lambda i=i: [draws("gcm", x.call({"op": "prefixes", "kind": "gcm", "key": key, "data": "00" * (7 * i), "n": N // 4})["ok"]) for x in [sd[i]]] for i in range(4)]
    jobs += [lambda i=i: [draws("ctr", x.call({"op": "prefixes", "kind": "ctr", "key": key, "data": "00" * (5 * i), "n": N // 4})["ok"]) for x in [sd[i]]] for i in range(4)]
    jobs += [lambda i=i: [draws("gcm", js[i].call({"op": "nonces", "key": key, "data": "00" * (9 * i), "n": N // 4, "together": 1 + 15 * (i % 2)}, timeout=600)["ok"])] for i in range(4)]
    for i in range(2):
        c = cases[i]
        jobs.append(lambda i=i, c=c: encaps(co[i].call({"op": "encap_many", "n": 3000, "rng": {"seed": c["seed"] + i}, "circ": dict(core.drive(c["circ"]), asg=[None if x < 0 else x for x in core.hide(c["circ"], c["asg"])])})["ok"]))
    with ThreadPoolExecutor(W) as ex:
        ev += [e for es in ex.map(lambda j: j(), jobs) for e in es]
    # whole runs of the tools: their encapsulations and their sealed messages
    def runs(c):
        s = t.system(c, random.Random(c["seed"]))
        o = []
        for k in range(3):
            for tool in scen.TOOLS:
                d = scen.text(fmt.doc(c["docs"][0]))
                r = s.encap(tool, d)
                if r[0] == "ok":
                    p = t.iocall({"op": "ct", "ct": r[1].hex()})["ok"]
                    o += encaps([[p["alpha"], p["beta"], p["delta"], r[2]]])
                    by.setdefault((tool, "key"), []).append(r[2])
                r = s.encrypt(tool, d, b"x" * k, k != 1)
                if r[0] == "ok":
                    b = r[1]
                    p = t.iocall({"op": "ct", "ct": b[5:].hex()})["ok"]
                    nonce = b[len(b) - 28 - k:len(b) - 16 - k].hex()
                    o += [draws("scalar", [p["alpha"], p["beta"], p["delta"]]), draws("gcm", [nonce])]
                    by.setdefault((tool, "gcm"), []).append(nonce)
        return o
    by = {}         # (of many processes of a tool)
    for o in t.map(runs, sc):
        ev += o
    for (_, k), xs in by.items():
        if len(xs) >= 100:
            shown.append({"ev": "bytes", "kind": k, "rows": [list(bytes.fromhex(x)) for x in xs]})
    # one event per kind: the whole history of all processes
    pairs = [e for e in ev if e["ev"] == "pair"]
    ctx.count("draws_read_by_byte", sum(len(e["rows"]) for e in shown))
    ev = pairs + shown + [{"ev": "draws", "kind": k, "toks": [x for e in ev if e["ev"] == "draws" and e["kind"] == k for x in e["toks"]]} for k in ("key", "gcm", "ctr", "scalar")]
    for k in ("scalar", "key", "gcm", "ctr"):
        ctx.count("draws_" + k, sum(len(e["toks"]) for e in ev if e["ev"] == "draws" and e["kind"] == k))
    ctx.sample([dict(e, toks=e["toks"][:3]) if "toks" in e else e for e in ev[:2] + ev[-2:]])
    ctx.validate("FreshTrace", "INIT Init\nNEXT Next\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n", ev, "freshness", n_traces=len(jobs) + len(sc), describe=lambda e: str(dict(e, toks=e["toks"][:2]) if "toks" in e else e)[:300], heap="10g")

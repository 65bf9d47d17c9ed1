import base64, json, os, random, re
from concurrent.futures import ThreadPoolExecutor
import core, fmt, sysd, vk, wasmgen
LEVEL = "model_checking"
P = fmt.P
LABELS = ["alpha", "beta", "delta", "r", "x"]
# an environment that asks programs to say more; NODE_DEBUG names no part of node itself
CHATTY = {**{p + k: v for p in ("", "ZKENC_", "ZK_") for k, v in [("DEBUG", "1"), ("VERBOSE", "1"), ("TRACE", "1"), ("LOG", "trace"), ("LOG_LEVEL", "debug"), ("DEV", "1"), ("TEST", "1"), ("LOGLEVEL", "trace")]}, "RUST_LOG": "trace", "RUST_BACKTRACE": "1", "NODE_DEBUG": "zkenc", "NODE_ENV": "development", "CI": "1", "TERM": "xterm-256color", "COLUMNS": "200"}
def forms(name, b, small=False):
    """a secret byte string in the ways it might be printed: (name, bytes, length of a part that gives it away)"""
    o = [(name, b, 8)]
    for y, k in ((b, ""), (b[::-1], "'")):
        h = y.hex()
        o += [(name + k + " hex", h.encode(), 10), (name + k + " HEX", h.upper().encode(), 10), (name + k + " base64", base64.b64encode(y), 11),
              (name + k + " list", ", ".join(map(str, y)).encode(), 15), (name + k + " js list", ",".join(map(str, y)).encode(), 14), (name + k + " hex list", ", ".join(f"{c:02x}" for c in y).encode(), 14), (name + k + " HEX list", ", ".join(f"{c:02X}" for c in y).encode(), 14), (name + k + " short hex list", ", ".join(f"{c:x}" for c in y).encode(), 15), (name + k + " lines", ",\n    ".join(map(str, y)).encode(), 30),
              (name + k + " node list", ",\n  ".join(map(str, y)).encode(), 24), (name + k + " hex bytes", " ".join(f"{c:02x}" for c in y).encode(), 15), (name + k + " 0x", ", ".join(f"0x{c:02x}" for c in y).encode(), 28)]
    return o
def number(name, v):
    o = forms(name, v.to_bytes(32, "little"))
    return [x for x in o if "'" in x[0] or x[0] == name or True] + [(name + " decimal", str(v).encode(), 14)]
def sec(*xs):
    return [{"n": n, "b": list(b), "w": min(w, len(b))} for x in xs for n, b, w in x if len(b) >= 4]
def read(p):
    return open(p, "rb").read() if os.path.exists(p) else b""

def toy(ctx):
    """runs of one circuit over the toy field, and the same run with other private values"""
    d = core.drv(ctx)
    K, ev = 12, []
    n = 60 if not ctx.thorough else 400
    r = random.Random(ctx.seed)
    for c in core.cases(ctx, n, base=ctx.seed + 77, wires=6, cons=4):
        for hid in (True, False):
            asg = core.hide(c["circ"], c["asg"]) if hid else c["asg"]
            es = []
            for i in range(K):
                # another statement in every run: the published numbers vary
                a = [1] + [r.randrange(1, vk.TOY) if 0 <= j < c["circ"]["npub"] else x for j, x in enumerate(asg[1:])]
                y = d.call({"op": "encap", "circ": dict(core.drive(c["circ"]), asg=[None if x < 0 else x for x in a]), "rng": {"seed": r.randrange(2 ** 40), "words": []}})
                if "ok" in y and y["ok"]["parts"]["delta"] and not (0 in y["ok"]["sampled"]): es.append(y["ok"])
            if len(es) < 8: continue
            p = [e["parts"] for e in es]
            if any(len({len(q[k]) for q in p}) > 1 for k in "u v phi h pub".split()): raise vk.ToolError("shapes differ")
            col = lambda nm, f: {"n": nm, "e": [f(q) for q in p]}
            vec = lambda k: [col(f"{k}[{j}]", lambda q: q[k][j]) for j in range(len(p[0][k]))]
            nz = lambda xs: [x for x in xs if any(x["e"])]
            g1 = [col("g1", lambda q: 1), col("alpha", lambda q: q["alpha"])] + nz(vec("u") + vec("phi") + vec("h"))
            g2 = [col("g2", lambda q: 1), col("beta", lambda q: q["beta"]), col("delta", lambda q: q["delta"])] + nz(vec("v"))
            s = [e["s"] for e in es]
            secret = [{"n": LABELS[j] if j < 5 else f"draw{j}", "e": [e["sampled"][j] for e in es]} for j in range(min(len(e["sampled"]) for e in es))]
            if hid and all(x >= 0 for x in s):
                ev.append({"ev": "runs", "g1": g1, "g2": g2, "num": vec("pub"), "s": s, "secret": secret})
                secret = None
            else:       # another derivation of the key, or one with every wire known: only the numbers are judged
                ev.append({"ev": "runs", "g1": [], "g2": [], "num": vec("pub"), "s": list(range(len(es))), "secret": secret})
        # the same randomness and statement, other private values
        npub, nw = c["circ"]["npub"], c["circ"]["nw"]
        if nw > npub + 1:
            rng = {"seed": r.randrange(2 ** 40), "words": []}
            two = []
            for _ in range(2):
                a = c["asg"][:npub + 1] + [r.randrange(vk.TOY) for _ in range(nw - npub - 1)]
                y = d.call({"op": "encap", "circ": dict(core.drive(c["circ"]), asg=a), "rng": rng})
                two.append(y.get("ok", {"ct": "refused", "key": "refused"}))
            ev.append({"ev": "pair", "a": two[0]["ct"], "b": two[1]["ct"], "ka": two[0]["key"], "kb": two[1]["key"]})
    return ev

def field(ctx):
    """the real field: every secret number of the library against its ciphertext and what it prints"""
    out = ctx.scratch("core.out")
    drvs = [core.drv(ctx, toy=False, out=out), core.drv(ctx, toy=False, out=out)]
    drvs[1].env.update(CHATTY)
    ev, r = [], random.Random(ctx.seed + 1)
    for i in range(24 if not ctx.thorough else 200):
        npub, nprv = r.randrange(0, 4), r.randrange(1, 4)
        nw = 1 + npub + nprv
        row = lambda: [[r.randrange(nw), r.choice([1, 2, 5, -1])] for _ in range(r.randrange(1, 3))]
        circ = {"npub": npub, "nw": nw, "cons": [[row(), row(), row()] for _ in range(r.randrange(1, 5))]}
        # (small statements: a product of numbers stays recognisable)
        asg = [1] + [r.randrange(1, 1000) for _ in range(npub)] + [r.randrange(2 ** 200, P) for _ in range(nprv)]
        full = r.random() < 0.4
        d = drvs[i % 2]
        open(out, "wb").close()
        y = d.call({"op": "encap", "circ": dict(core.drive(circ), asg=[str(x) if full or j <= npub else None for j, x in enumerate(asg)]), "rng": {"seed": r.randrange(2 ** 40), "words": []}})
        if "ok" not in y: raise vk.Broken(str(y)[:300])
        y = y["ok"]
        pt, ct, key = y["parts"], bytes.fromhex(y["ct"]), bytes.fromhex(y["key"])
        nums = [int(x) for x in y["sampled"]]
        inv = [pow(x, P - 2, P) for x in nums if x]
        prods = [a * b % P for k, a in enumerate(nums) for b in nums[k:]]
        known = [int(x) for x in [pt["alpha"], pt["beta"], pt["delta"]] + pt["u"] + pt["v"] + pt["phi"] + pt["h"]]
        secret = nums + inv + prods + (asg[1 + npub:] if full else [])
        ev.append({"ev": "nums", "pub": list(ct), "sec": [list(x.to_bytes(32, "little")) for x in secret], "known": [known.count(x) for x in secret]})
        ev.append({"ev": "pub", "what": "library ciphertext", "pub": list(ct), "sec": sec([("key", key, 8), ("yek", key[::-1], 8)])})
        # a decapsulation that fails and prints why: every wire is given
        w = d.call({"op": "decap", "ct": y["ct"], "mode": "compressed", "circ": dict(core.drive(circ), asg=[str(x) for x in asg])})
        said = read(out) + json.dumps(w.get("err", "")).encode()
        ev.append({"ev": "pub", "what": "library output", "pub": list(said), "sec": sec(forms("key", key), *[number(LABELS[k] if k < 5 else "draw", x) for k, x in enumerate(nums)], *[number("private", x) for x in asg[1 + npub:]])})
        # what an attacker would try as the key
        cand = [("e(alpha,beta)", d.call({"op": "keys", "exps": [str(int(pt["alpha"]) * int(pt["beta"]) % P)]})["ok"][0]) if not full else ("zero", "00" * 32)]
        e = [1, int(pt["alpha"]), int(pt["beta"]), int(pt["delta"])] + [int(x) for x in pt["u"] + pt["v"] + pt["phi"]][:40]
        ks = [(f"e({a},{b})", d.call({"op": "keys", "exps": [str(e[a] * e[b] % P)]})["ok"][0]) for a in range(min(len(e), 8)) for b in range(a, min(len(e), 8)) if (a, b) != (1, 2) and (full or e[a] * e[b] % P != e[1] * e[2] % P)] if i % 4 == 0 else []
        hs = [("ct", ct.hex()), ("nothing", ""), ("pub", "".join(int(x).to_bytes(32, "little").hex() for x in pt["pub"])), ("zero", "00" * 32)]
        # every aligned element of the ciphertext, and prefixes of it
        hs += [(f"ct[{k}..{k + m}]", ct[k:k + m].hex()) for m in (8, 32, 48, 64, 96) for k in range(0, min(len(ct), 400), 4 if m != 32 else 1) if i % 6 == 0]
        ks += [(nm, d.call({"op": "hash", "hex": h})["ok"]) for nm, h in hs] + [(nm + " itself", h[:64]) for nm, h in hs if len(h) >= 64]
        ev.append({"ev": "cand", "key": y["key"], "cand": [list(x) for x in cand + ks]})
    for d in drvs: d.close()
    return ev

def circuit(r):
    """out = a * b[0], b[1] = in1 + a: private values of full size"""
    a, b0, i1 = r.randrange(2 ** 200, P), r.randrange(2 ** 200, P), r.randrange(2 ** 60)
    asg = [1, a * b0 % P, i1, a, b0, (i1 + a) % P]
    circ = {"nw": 6, "nout": 1, "nin": 1, "nprv": 3, "cons": [[[[3, 1]], [[4, 1]], [[1, 1]]], [[[2, 1], [3, 1]], [[0, 1]], [[5, 1]]]]}
    sym = "".join(f"{k},{k},0,main.{n}\n" for k, n in [(1, "out"), (2, "in1"), (3, "a"), (4, "b[0]"), (5, "b[1]")])
    wasm = wasmgen.program(6, [("in1", [2]), ("a", [3]), ("b", [4, 5])], [("mul", 1, 3, 4)])
    return circ, asg, sym, wasm

def tools(ctx):
    """the two tools: everything they publish and print in a session"""
    t = sysd.Tools(ctx, workers=2, js=True)
    N, ev = 6, []
    def part(k):
        out = ctx.scratch(f"js{k}.out")
        env = CHATTY if k % 2 else {}
        d = sysd.jsdrv(ctx, t.dest, env=env, out=out)
        ev = []
        for i in range(k, 48 if not ctx.thorough else 400, N):
            r = random.Random(f"{ctx.seed}-c05-{i}")
            circ, asg, sym, wasm = circuit(r)
            w = t.dir()
            put = lambda n, b: (open(f"{w}/{n}", "wb").write(b), f"{w}/{n}")[1]
            pr, ps, pw, pt = put("c.r1cs", fmt.r1cs(circ)), put("c.sym", sym.encode()), put("c.wasm", wasm), put("w.wtns", fmt.wtns(asg))
            bad = list(asg); bad[3 + i % 3] = r.randrange(2 ** 200, P)
            pb = put("bad.wtns", fmt.wtns(bad))
            private = [x for v in (asg[3:], [bad[3 + i % 3]]) for x in v]
            public = {"out": str(asg[1]), "in1": r.choice([asg[2], str(asg[2])])}
            more = r.random() < 0.5
            full = dict(public, **({"a": str(asg[3]), "b": [str(asg[4]), str(asg[5])]} if more else {}))
            items = list(full.items()); r.shuffle(items)
            doc = json.dumps(dict(items))
            chars = r.choice([range(256), range(256), range(33, 126), range(97, 123)])
            msg = bytes(r.choice(chars) for _ in range(r.choice([6, 7, 8, 12, 15, 16, 17, 31, 32, 33, 64, 100, 1000])))
            pm = put("m.bin", msg)
            embed = not more
            pd = put("in.json", doc.encode())
            priv = [y for x in private for y in number("private", x)]
            # the command-line tool
            said = b""
            def cli(*a):
                nonlocal said
                rc, so, se = t.cli(*a, env=env)
                said += so + se
                return rc
            ok = cli("encap", "--circuit", pr, "--sym", ps, "--input", pd, "--ciphertext", w + "/ct", "--key", w + "/key") == 0
            if not ok: raise vk.Broken("encap fails: " + said.decode("utf-8", "replace")[-300:])
            key = read(w + "/key")
            cli("decap", "--circuit", pr, "--witness", pt, "--ciphertext", w + "/ct", "--key", w + "/key2")
            cli("decap", "--circuit", pr, "--witness", pb, "--ciphertext", w + "/ct", "--key", w + "/key3")
            ev.append({"ev": "pub", "what": "zkenc encap", "pub": list(read(w + "/ct")), "sec": sec([("key", key, 8)], [("private", x.to_bytes(32, s), 8) for x in private for s in ("little", "big")])})
            ev.append({"ev": "pub", "what": "zkenc encap/decap output", "pub": list(said), "sec": sec(forms("key", key), priv)})
            said = b""
            cli("encrypt", "--circuit", pr, "--sym", ps, "--input", pd, "--message", pm, "--output", w + "/enc", *([] if embed else ["--no-public-input"]))
            cli("decrypt", "--circuit", pr, "--witness", pt, "--ciphertext", w + "/enc", "--output", w + "/dec")
            cli("decrypt", "--circuit", pr, "--witness", pb, "--ciphertext", w + "/enc", "--output", w + "/dec2")
            comb = read(w + "/enc")
            # the key of the combined ciphertext, from its witness part
            n = int.from_bytes(comb[1:5], "big") if len(comb) > 5 else 0
            put("part", comb[5:5 + n])
            t.cli("decap", "--circuit", pr, "--witness", pt, "--ciphertext", w + "/part", "--key", w + "/key4")
            k4 = read(w + "/key4") or key
            cs = sec([("key", k4, 8), *forms("message", msg)], [("private", x.to_bytes(32, s), 8) for x in private for s in ("little", "big")], [("private decimal", str(x).encode(), 14) for x in private])
            ev.append({"ev": "pub", "what": "zkenc encrypt", "pub": list(comb), "sec": cs})
            ev.append({"ev": "pub", "what": "zkenc encrypt/decrypt output", "pub": list(said), "sec": sec(forms("key", k4), forms("message", msg) if len(msg) > 7 else [], priv)})
            # the JavaScript package
            open(out, "wb").close()
            jp = {"r1cs_path": pr, "sym": sym, "inputs": doc}
            e = d.call({"op": "encap", **jp})
            x = d.call({"op": "encrypt", **jp, "msg": msg.hex(), "opt": {"includePublicInput": embed}})
            if "ok" not in e or "ok" not in x: raise vk.Broken("js: " + str((e, x))[:300])
            errs = []
            for asg_, in ((asg,), (bad,)):
                inp = {"in1": str(asg_[2]), "a": str(asg_[3]), "b": [str(asg_[4]), str(asg_[5])]}
                for y in (d.call({"op": "decap", "r1cs_path": pr, "wasm_path": pw, "ct": e["ok"]["ct"], "inputs": inp}), d.call({"op": "decrypt", "r1cs_path": pr, "wasm_path": pw, "ct": x["ok"]["ct"], "inputs": inp})):
                    errs.append(y.get("err", ""))
            said = read(out) + json.dumps(errs).encode()
            ek, xk, xc = bytes.fromhex(e["ok"]["key"]), bytes.fromhex(x["ok"]["key"]), bytes.fromhex(x["ok"]["ct"])
            cs = sec([("key", xk, 8), *forms("message", msg)], [("private", z.to_bytes(32, s), 8) for z in private for s in ("little", "big")], [("private decimal", str(z).encode(), 14) for z in private])
            ev.append({"ev": "pub", "what": "js encap", "pub": list(bytes.fromhex(e["ok"]["ct"])), "sec": sec([("key", ek, 8)], [("private", z.to_bytes(32, s), 8) for z in private for s in ("little", "big")])})
            ev.append({"ev": "pub", "what": "js encrypt", "pub": list(xc), "sec": cs})
            ev.append({"ev": "pub", "what": "js output", "pub": list(said), "sec": sec(forms("key", ek), forms("key", xk), forms("message", msg) if len(msg) > 7 else [], priv)})
        d.close()
        return ev
    with ThreadPoolExecutor(N) as ex:
        return list(ex.map(part, range(N)))

CFG = "CONSTANT P = %d\nINIT Init\nNEXT Next\nINVARIANT Keep_\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n" % vk.TOY
def run(ctx):
    a, b, c = toy(ctx), field(ctx), tools(ctx)
    ctx.sample(a[0]); ctx.sample({k: str(v)[:200] for k, v in c[0][0].items()})
    chunks = [a[i::4] for i in range(4)] + [b[i::3] for i in range(3)] + c
    chunks = [x for x in chunks if x]
    ctx.count("encapsulations", 12 * sum(e["ev"] == "runs" for e in a) + len(b) // 4)
    ctx.count("published_texts", sum(e["ev"] == "pub" for x in chunks for e in x))
    def one(x):
        # (the witness ciphertext's key is derivable in a way that is known: TLC prints every derivation)
        return x, ctx.validate("AdvTrace", CFG.replace("Keep_", "Keep"), x, "published data", describe=lambda e: e["ev"] + " " + str(e.get("what", ""))[:200])
    outs = []
    orig = ctx.tlc
    def tlc(*p, **k):
        r = orig(*p, **k); outs.append(r.out); return r
    ctx.tlc = tlc
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, chunks))
    ctx.tlc = orig
    found = {}
    for o in outs:
        for m in re.findall(r'<<"DERIVED", (\d+), (.*?)>>', o):
            f = tuple(re.findall(r'"([^"]*)"', m[1]))
            found.setdefault(f, m[0])
    ctx.notes["derivations"] = [list(f) for f in found]
    for f in found:
        if f in (("alpha", "beta", ""), ("e(alpha,beta)", "hashed")):
            ctx.violation("the key is the hash of e(alpha_g1, beta_g2): anyone who holds the ciphertext computes it without a witness", {"formula": f}, key="alpha-beta-pairing")
        else:
            ctx.violation(f"the key is derived from published elements by {f}", {"formula": f})
    if sum(e["ev"] == "runs" and e["g1"] != [] for e in a) < 20: ctx.notes["derivation search"] = "the key is no hash of a target-group value known to the harness; formulas were not searched"

"""Circuits and assignments over the real scalar field (Wide.tla): values, coefficients and differences of full size."""
import json, random
from concurrent.futures import ThreadPoolExecutor
import fmt, sysd, vk, wasmgen
P = fmt.P
def le(v):
    return list(v.to_bytes((v.bit_length() + 7) // 8, "little"))
def pick(r):
    v = r.choice([r.randrange(256) + (r.randrange(1, 48) << r.choice([8, 32, 64, 128, 192, 248])), r.randrange(P), r.randrange(P), r.randrange(P), 2 ** r.choice([31, 32, 53, 63, 64, 127, 128, 192, 253]) + r.randrange(-3, 4), P - r.randrange(1, 99), P - 2 ** 64 * r.randrange(1, 9), P // 2 + r.randrange(-2, 3), r.randrange(2 ** 64), r.randrange(3)])
    return v % P
def other(r, v):
    """values that resemble v"""
    k = r.randrange(22)
    o = [v + 1, v - 1, v + 2 ** 32, v + 2 ** 64, v - 2 ** 64, v + 2 ** 128, v + 2 ** 192 * r.randrange(1, 99), v ^ (1 << r.randrange(254)), -v, 2 * v, v * pow(2, P - 2, P), v % 2 ** 64, v % 2 ** 128, v % 2 ** 32, v % 2 ** 192, v % 2 ** 253,
         int.from_bytes(v.to_bytes(32, "little")[:31], "little"), v >> 64, int.from_bytes((v % 2 ** 252).to_bytes(32, "big"), "little"), v // 10, r.randrange(P), v + 2 ** 128 * (r.randrange(2 ** 60))][k] % P
    return o if o != v else (v + 2 ** 64) % P

def circuit(r):
    npub, nprv = r.randrange(1, 5), r.randrange(1, 5)
    nw = 1 + npub + nprv
    order = r.sample(range(1, nw), nw - 1)
    val = {0: 1}
    cons = []
    for i, t in enumerate(order):
        if i == 0 or r.random() < .4:
            val[t] = pick(r); continue
        row = lambda: [(r.choice(list(val)), pick(r) or 1) for _ in range(r.choice([1, 1, 2, 3]))]
        x = row(); y = r.choice([row, row, lambda: x, lambda: [(0, 1)]])()
        if r.random() < .3: y, x = x, y
        ev = lambda q: sum(k * val[w] for w, k in q) % P
        k = r.choice([1, P - 1, pick(r) or 1])
        z = [(t, k)] + (row() if r.random() < .4 else [])
        val[t] = (ev(x) * ev(y) - sum(c * val[w] for w, c in z[1:])) * pow(k, P - 2, P) % P
        r.shuffle(z)
        cons.append((x, y, z))
    nout = r.randrange(npub + 1)
    return {"nw": nw, "nout": nout, "nin": npub - nout, "nprv": nprv, "npub": npub, "cons": cons}, [val[w] for w in range(nw)]
def small(r):
    """a circuit of small numbers and the width that all of them fit"""
    b = r.choice([1, 2, 4, 8, 8, 12])
    npub, nprv = r.randrange(1, 4), r.randrange(1, 4)
    nw = 1 + npub + nprv
    order = r.sample(range(1, nw), nw - 1)
    val, cons = {0: 1}, []
    num = lambda: r.randrange(1, 2 ** b)
    for i, t in enumerate(order):
        if i == 0 or (i + 1 < len(order) and r.random() < .3):
            val[t] = num(); continue
        x, y = ([(r.choice(list(val)), num()) for _ in range(r.choice([1, 1, 2]))] for _ in "ab")
        if r.random() < .4: y = [(0, 1)]
        ev = lambda q: sum(k * val[w] for w, k in q)
        val[t] = ev(x) * ev(y) % P
        cons.append((x, y, [(t, 1)]) if r.random() < .7 or y != [(0, 1)] else (x + [(t, P - 1)], y, []))
    nout = r.randrange(npub + 1)
    m = max(v.bit_length() for v in [*val.values(), b])
    return {"nw": nw, "nout": nout, "nin": npub - nout, "nprv": nprv, "npub": npub, "cons": cons}, [val[w] for w in range(nw)], m
def alias(r, m, v):
    """a number that looks like v to whoever reads a part of it"""
    k = r.choice([k for k in (8, 16, 31, 32, 53, 62, 63, 64, 96, 127, 128, 160, 192, 224, 240, 248, 252, 253) if k >= m] or [253])
    o = [v + 2 ** k, v + r.randrange(1, max(2, (P >> k) - 1)) * 2 ** k, P - v, v << 8, v << 64 if v else 2 ** 64, v + (r.randrange(1, 0x30) << 248), int.from_bytes(v.to_bytes(32, "little"), "big"), v + r.randrange(1, 2 ** 60) * 2 ** 64]
    return r.choice(o) % P
def aliases(r):
    """a circuit with one coefficient, or an assignment with one value, that only looks like one that holds"""
    circ, asg, m = small(r)
    if circ["cons"] and r.random() < .6:
        for _ in range(r.choice([1, 1, 1, 2])):
            j, k = r.randrange(len(circ["cons"])), r.choice("abc")
            con = [list(row) for row in circ["cons"][j]]
            row = con["abc".index(k)]
            if not row: continue
            i = r.randrange(len(row))
            row[i] = (row[i][0], alias(r, m, row[i][1] if row[i][1] < P // 2 else P - row[i][1]) or 1)
            circ["cons"][j] = tuple(con)
    o = []
    for _ in range(4):
        a = list(asg)
        w = r.randrange(1, circ["nw"])
        a[w] = alias(r, m, a[w])
        o.append(a)
    return circ, asg, o

def certs(circ, asg):
    o = []
    for con in circ["cons"]:
        c = {}
        for nm, row in zip("abc", con):
            q, v = divmod(sum(k * asg[w] for w, k in row), P)
            c[nm], c["q" + nm] = v, q
        c["q"], c["r"] = divmod(c["a"] * c["b"], P)
        o.append({k: le(v) for k, v in c.items()})
    return o
def begin(circ):
    row = lambda q: [{"w": w, "k": le(k)} for w, k in q]
    return {"ev": "circ", "p": le(P), "npub": circ["npub"], "nw": circ["nw"], "cons": [dict(zip("abc", map(row, c))) for c in circ["cons"]]}
def decap(circ, tool, e, asg, out, key):
    return {"ev": "decap", "tool": tool, "e": e, "asg": [le(v) for v in asg], "certs": certs(circ, asg), "out": out, "key": key}
def near(r, circ, asg, n):
    """assignments that differ in one wire, or in a pair of them"""
    o = []
    for _ in range(n):
        a = list(asg)
        w = r.randrange(1, circ["nw"]) if r.random() < .5 else r.randrange(1, circ["npub"] + 1)
        a[w] = other(r, a[w])
        if r.random() < .3 and circ["nw"] > 2:
            u = r.choice([u for u in range(1, circ["nw"]) if u != w])
            a[u] = r.choice([(asg[u] - a[w] + asg[w]) % P, asg[w]])
        o.append(a)
    return o

def library(ctx, d, n, decaps=4, lists=8, like=0):
    """histories of the library; like: so many of them with numbers that resemble others"""
    evs = []
    for i in range(n + like):
        r = random.Random(f"wide-{ctx.seed}-{i}")
        circ, asg, fake = aliases(r) if i >= n else (*circuit(r), [])
        npub = circ["npub"]
        dc = lambda a: {"n_pub": npub, "n_wires": circ["nw"], "cons": [[[[w, str(k)] for w, k in row] for row in c] for c in circ["cons"]], "asg": a}
        y = d.call({"op": "encap", "circ": dc([str(x) if w <= npub else None for w, x in enumerate(asg)]), "rng": {"seed": r.randrange(2 ** 40)}})
        ev = [begin(circ)]
        stmt = asg[1:npub + 1]
        ev.append({"ev": "encap", "tool": "lib", "stmt": [le(v) for v in stmt], "out": "ok" if "ok" in y else "err", "pub": [le(int(x)) for x in y["ok"]["parts"]["pub"]] if "ok" in y else [], "key": y["ok"]["key"] if "ok" in y else ""})
        if "ok" in y:
            for a in ([asg] + (fake or near(r, circ, asg, decaps))) if decaps else []:
                z = d.call({"op": "decap", "ct": y["ok"]["ct"], "mode": "compressed", "circ": dc([str(x) for x in a])})
                ev.append(decap(circ, "lib", 1, a, "ok" if "ok" in z else "err" if "err" in z else "crash", z["ok"]["key"] if "ok" in z else ""))
            ls = [stmt] if lists else []
            for _ in range(lists):
                q = list(stmt); k = r.randrange(npub); q[k] = alias(r, 0, q[k]) if fake and r.random() < .6 else other(r, q[k])
                if npub > 1 and r.random() < .2: q = r.choice([[(stmt[0] + 1) % P, (stmt[1] - 1) % P] + stmt[2:], stmt[1:] + stmt[:1], stmt + [0]])
                ls.append(q)
            for q in ls:
                z = d.call({"op": "verify", "ct": y["ok"]["ct"], "mode": "compressed", "pub": [str(x) for x in q]})
                ev.append({"ev": "verify", "e": 1, "list": [le(v) for v in q], "out": {True: "yes", False: "no"}.get(z.get("ok"), "none")})
        evs.append(ev)
    return evs

def inv(x): return pow(x, P - 2, P)
def qap_event(circ, sampled, parts):
    """certificates that the published elements are the program at one point; the draws are found by trying"""
    n = 1
    while n < len(circ["cons"]) + circ["npub"] + 1: n *= 2
    w = pow(5, (P - 1) // n, P)
    col = lambda k, i, lag: sum(lag[j] * c for j, con in enumerate(circ["cons"]) for x, c in con[k] if x == i)
    nw = circ["nw"]
    def basis(x):
        z = pow(x, n, P) - 1
        return [z * pow(w, j, P) * inv(n * (x - pow(w, j, P))) % P for j in range(n)]
    e = {"ev": "qap", "e": 1, "sampled": [le(x) for x in sampled], "pick": [], "d": {}, "h": {}, "parts": {k: [le(x) for x in parts[k]] for k in ("u", "v", "phi")}}
    try: a, b, d = (sampled.index(parts[k]) for k in ("alpha", "beta", "delta"))
    except ValueError: return e
    found = None
    for xi, x in enumerate(sampled):
        lag = basis(x)
        for ri, r in enumerate(sampled):
            if xi != ri and all(r * col(0, i, lag) % P == parts["u"][i] and r * col(1, i, lag) % P == parts["v"][i] for i in range(nw)) and len({a, b, d, xi, ri}) == 5 and found is None:
                found = ri, xi
    if not found: return e
    ri, xi = found
    r, x, al, be, de = sampled[ri], sampled[xi], sampled[a], sampled[b], sampled[d]
    e["pick"] = [a + 1, b + 1, d + 1, ri + 1, xi + 1]
    e["d"] = {k: le(v) for k, v in zip(("alpha", "beta", "delta", "r", "x"), (al, be, de, r, x))}
    L = lambda xs: [le(v) for v in xs]
    h = {"w": le(w)}
    pts = [pow(w, j, P) for j in range(n)]
    h["pts"], h["qpts"] = L(pts), L([v * w // P for v in pts])
    pows, qp = [x], [0]
    while 2 ** (len(pows) - 1) < n: qp.append(pows[-1] ** 2 // P); pows.append(pows[-1] ** 2 % P)
    h["pows"], h["qpows"] = L(pows), L(qp)
    z = (pows[-1] - 1) % P
    # (IsSub: y + r = q * p + x)
    qz = (1 + z - pows[-1]) // P
    dd = [(x - v) % P for v in pts]
    nd = [n * v % P for v in dd]
    zp = [z * v % P for v in pts]
    lag = basis(x)
    h.update(qz=le(qz), z=le(z), d=L(dd), qd=L([(v + u - x) // P for v, u in zip(pts, dd)]), nd=L(nd), qnd=L([n * v // P for v in dd]), zp=L(zp), qzp=L([z * v // P for v in pts]), lag=L(lag), qlag=L([u * v // P for u, v in zip(lag, nd)]))
    rr = r * r % P
    h.update(rr=le(rr), qrr=le(r * r // P))
    ws = []
    for i in range(nw):
        (qu, u), (qv, v), (qw, c) = (divmod(col(k, i, lag), P) for k in range(3))
        qs, s = divmod(be * parts["u"][i] + al * parts["v"][i] + rr * c, P)
        ws.append({k: le(t) for k, t in dict(qu=qu, u=u, qv=qv, v=v, qw=qw, w=c, qru=r * u // P, qrv=r * v // P, qs=qs, s=s, qphi=de * parts["phi"][i] // P).items()})
    h["wires"] = ws
    e["h"] = h
    return e

def qap(ctx, d, n):
    """encapsulations with every wire given"""
    evs = []
    for i in range(n):
        r = random.Random(f"wideq-{ctx.seed}-{i}")
        circ, asg = circuit(r)
        if not circ["cons"]: continue
        for _ in range(r.randrange(3)):      # the wires of more constraints that hold need not be computed: 0 * row = 0, row * 0 = 0
            row = [(r.randrange(circ["nw"]), pick(r) or 1) for _ in range(r.choice([1, 2, 3]))]
            circ["cons"].insert(r.randrange(len(circ["cons"]) + 1), r.choice([(row, [], []), ([], row, []), (row, [(0, 1)], row), ([(0, 3), (0, P - 2)], row, row)]))
        y = d.call({"op": "encap", "circ": {"n_pub": circ["npub"], "n_wires": circ["nw"], "cons": [[[[w, str(k)] for w, k in row] for row in c] for c in circ["cons"]], "asg": [str(x) for x in asg]}, "rng": {"seed": r.randrange(2 ** 40)}})
        o = y.get("ok")
        ev = [begin(circ), {"ev": "encap", "tool": "lib", "stmt": [le(v) for v in asg[1:circ["npub"] + 1]], "out": "ok" if o else "err", "pub": [le(int(x)) for x in o["parts"]["pub"]] if o else [], "key": o["key"] if o else ""}]
        if o:
            num = lambda q: [int(x) for x in q] if isinstance(q, list) else int(q)
            ev.append(qap_event(circ, num(o["sampled"]), {k: num(v) for k, v in o["parts"].items()}))
        evs.append(ev)
    return evs

def tools(ctx, t, n, decaps=3, like=0):
    """histories of the two tools"""
    def one(i):
        r = random.Random(f"widet-{ctx.seed}-{i}")
        circ, asg, fake = aliases(r) if i >= n else (*circuit(r), [])
        npub, w = circ["npub"], t.dir()
        def put(nm, b):
            with open(f"{w}/{nm}", "wb") as f: f.write(b)
            return f"{w}/{nm}"
        r1 = put("c.r1cs", fmt.r1cs(circ, r.choice(sysd.SECTIONS[:6]), extra=[(9, bytes(5))]))
        sym = "".join(f"{k},{k},0,main.s{k}\n" for k in range(1, circ["nw"]))
        ps = put("c.sym", sym.encode())
        wasm = put("c.wasm", wasmgen.program(circ["nw"], [(f"s{k}", [k]) for k in range(1, circ["nw"])]))
        ks = r.sample(range(1, npub + 1), npub)
        doc = json.dumps({f"s{k}": str(asg[k]) for k in ks})
        stmt = asg[1:npub + 1]
        ev, cts = [begin(circ)], []
        for tool in ("cli", "js"):
            if tool == "cli":
                rc, _, se = t.cli("encap", "--circuit", r1, "--sym", ps, "--input", put("in.json", doc.encode()), "--ciphertext", w + "/ct", "--key", w + "/key")
                o = sysd.out_of(rc)
                ct, key = (sysd.rd(w + "/ct"), sysd.rd(w + "/key").hex()) if o == "ok" else (b"", "")
            else:
                y = t.js({"op": "encap", "r1cs_path": r1, "sym": sym, "inputs": doc})
                o = sysd.out_js(y)
                ct, key = (bytes.fromhex(y["ok"]["ct"]), y["ok"]["key"]) if o == "ok" else (b"", "")
            pub = t.iocall({"op": "ct", "ct": ct.hex()}) if o == "ok" else {}
            ev.append({"ev": "encap", "tool": tool, "stmt": [le(v) for v in stmt], "out": o, "pub": [le(int(x)) for x in pub["ok"]["pub"]] if "ok" in pub else [], "key": key})
            cts.append(ct)
            if o != "ok": return ev
        for e in (1, 2):
            for k, a in enumerate([asg] + (fake[:2] or near(r, circ, asg, decaps))):
                for tool in ("cli", "js"):
                    if tool == "cli":
                        rc, _, se = t.cli("decap", "--circuit", r1, "--witness", put(f"w{e}{k}", fmt.wtns(a)), "--ciphertext", put(f"ct{e}", cts[e - 1]), "--key", f"{w}/k{e}{k}")
                        o = sysd.out_of(rc)
                        key = sysd.rd(f"{w}/k{e}{k}").hex() if o == "ok" else ""
                    else:
                        y = t.js({"op": "decap", "r1cs_path": r1, "wasm_path": wasm, "ct": cts[e - 1].hex(), "inputs": {f"s{j}": str(a[j]) for j in range(1, circ["nw"])}})
                        o = sysd.out_js(y)
                        key = y["ok"]["key"] if o == "ok" else ""
                    ev.append(decap(circ, tool, e, a, o, key))
        return ev
    return t.map(one, range(n + like))

def validate(ctx, evs, checks, what, chunks=8):
    cfg = 'CONSTANTS Checks = {%s}\nINIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n' % ",".join('"%s"' % c for c in checks)
    ctx.count("wide_events", sum(map(len, evs)))
    big = lambda x: int.from_bytes(bytes(x), "little")
    def show(e):
        o = {k: v for k, v in e.items() if k not in ("certs", "h", "sampled", "d", "parts")}
        for k in ("stmt", "pub", "asg", "list"):
            if k in o: o[k] = [hex(big(x)) for x in o[k]]
        return json.dumps(o)[:500]
    def go(k):
        x = [e for h in evs[k::chunks] for e in h]
        if x: ctx.validate("WideTrace", cfg, x, what, n_traces=len(evs[k::chunks]), describe=show)
    with ThreadPoolExecutor(chunks) as ex:
        list(ex.map(go, range(chunks)))

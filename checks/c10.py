import copy, random
import files, fmt, scale, scen, sysd, vk
LEVEL = "model_checking"
def sibling(circ, asg, rng):
    """a circuit whose file has the same size and differs in one coefficient or wire, so that asg violates it"""
    for _ in range(40):
        c = copy.deepcopy(circ)
        rows = [r for con in c["cons"] for r in con if r]
        if not rows:
            return
        r = rng.choice(rows)
        f = rng.choice(r)
        f[rng.randrange(2)] = rng.randrange(c["nw"]) if rng.random() < .5 else rng.randrange(1, c["nw"])
        ev = lambda q: sum(k * asg[w] for w, k in q)
        if any(ev(a) * ev(b) != ev(o) for a, b, o in c["cons"]):
            return c
def bare(rng, asg):
    """constraints that asg satisfies, with empty rows"""
    w = rng.randrange(len(asg))
    zero = [[w, 1], [0, -asg[w]]] if w else []
    some = [[rng.randrange(len(asg)), rng.randrange(1, 5)]]
    bits = [[[[k, 1]], [[k, 1], [0, -1]], []] for k in range(1, len(asg)) if asg[k] in (0, 1)]
    return [rng.choice([[zero, some, []], [some, zero, []], [[], some, []], [some, [], []], [[], [], zero], [[], [], []], [zero, zero, []], [zero, zero, zero]] + bits) for _ in range(rng.choice([1, 1, 2]))]
def run(ctx):
    R = files.Readers(ctx)
    cs = sysd.gen(ctx, 400 if ctx.thorough else 60)
    def one(k, ic):
        i, c = ic
        rng = random.Random(f"{ctx.seed}-{c['seed']}")
        order = files.ORDERS[i % len(files.ORDERS)]
        circ = scen.circ_of(c)
        if i % 2:                                                 # constraints without factors, at the very end of the file too
            circ = {**circ, "cons": circ["cons"] + bare(rng, c["asg"])}
        b = files.r1cs_file(rng, circ, order)
        ev = [{"ev": "base", "bytes": list(b)}, R.r1cs_cli(k, b, files.NOPE)]
        if circ["nw"] > circ["nout"] + circ["nin"] + 1:
            ev.append(R.r1cs_js(k, b, files.NOPE))
        # which assignments the circuits of the two tools accept; likewise for a file of the same size, and again for the first one
        sib = sibling(circ, c["asg"], rng)
        bs = files.r1cs_file(random.Random(f"{ctx.seed}-{c['seed']}"), sib, order) if sib else b""
        turns = [(circ, b), (sib, bs), (circ, b)] if len(bs) == len(b) else [(circ, b)]
        if len(turns) > 1 and i // 2 % 2: turns = [turns[1], turns[0], turns[1]]
        asgs = [c["asg"]] + [a for a in c["near"]]
        npub = circ["nout"] + circ["nin"]
        yes = {True: "yes", False: "no"}
        for n, (x, y) in enumerate(turns):
            r = R.io[k].call({"op": "cli_circuit", "path": R.tmp(k, y), "asgs": asgs, "vars": True})
            acc = r["ok"]["acc"] if "ok" in r else [str(r)[:200]] * len(asgs)
            ev += [{"ev": "accept", "tool": "cli", "circ": x, "asg": a, "acc": yes.get(z, str(z))} for a, z in zip(asgs, acc)]
            if "ok" in r:
                ev.append({"ev": "shape", "circ": x, "val": r["ok"]["shape"]})
            if n < 2 and circ["nw"] > npub + 1:
                e = R.io[k].call({"op": "js_encap", "r1cs": y.hex(), "wtns": fmt.wtns(c["asg"][:npub + 1]).hex()})
                if "ok" in e:
                    for a in asgs if n == 0 else asgs[:1]:
                        if a[:npub + 1] == c["asg"][:npub + 1]:
                            d = R.io[k].call({"op": "js_decap", "r1cs": y.hex(), "wtns": fmt.wtns(a).hex(), "ct": e["ok"]["ct"]})
                            ev.append({"ev": "accept", "tool": "js", "circ": x, "asg": a, "acc": ("yes" if d["ok"]["key"] == e["ok"]["key"] else "other key") if "ok" in d else "no" if "err" in d else "crash"})
        # the reader knows no field: other widths and coefficients
        w = rng.choice([1, 4, 8, 31, 33, 48, 0])
        b = files.r1cs_file(rng, circ, files.ORDERS[(i + 5) % len(files.ORDERS)], wide=w)
        return ev + [{"ev": "base", "bytes": list(b)}, R.r1cs_cli(k, b, files.NOPE)]
    tr = R.map(one, list(enumerate(cs)))
    ctx.count("files", 2 * len(cs))
    ctx.count("reads", sum(e["ev"] == "r1cs" for t in tr for e in t))
    ctx.count("acceptances", sum(e["ev"] == "accept" and e["acc"] == "yes" for t in tr for e in t))
    ctx.count("refusals", sum(e["ev"] == "accept" and e["acc"] == "no" for t in tr for e in t))
    ctx.sample({k: v for k, v in tr[0][1].items()})
    files.validate(ctx, tr, ["faithful"], "circuit files")
    names = ["medium", "broad", "statement", "constraints", "factors", "wires"]
    ds = {n: (ctx.driver(vk.exe("std-drv")), ctx.driver(vk.exe("io-drv"))) for n in names}
    scale.perform(ctx, None, names, lambda x: scale.readers(x, *ds[x.c["name"]]), ["read"], "circuit files")

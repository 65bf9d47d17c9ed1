import random
import scale, scen, sysd, wide
LEVEL = "model_checking"
NEAR = [lambda n: "main." + n, lambda n: n.upper(), lambda n: n.lower(), lambda n: n.capitalize(), lambda n: n.swapcase(), lambda n: " " + n, lambda n: n + " ", lambda n: n + "\t", lambda n: "\n" + n, lambda n: "main.main." + n, lambda n: '"' + n + '"', lambda n: n + "[0]", lambda n: n + ".", lambda n: "." + n, lambda n: n + "\u0000", lambda n: "\ufeff" + n,
        lambda n: n[:-1], lambda n: n + n[-1], lambda n: n.replace("[", ".").replace("]", ""), lambda n: n.replace("[", "[0"), lambda n: n.replace(".", "_"), lambda n: n.replace(".", ""), lambda n: n.split("[")[0], lambda n: n.split(".")[-1], lambda n: "'" + n + "'", lambda n: n.replace("i", "\u0131"), lambda n: n + "\u0301", lambda n: "main" + n, lambda n: "Main." + n, lambda n: n + ",", lambda n: n.replace("[", "%5B"), lambda n: "signal." + n, lambda n: "$" + n, lambda n: "_" + n, lambda n: n + "_", lambda n: n[::-1]]
def flat(n, v):
    return [x for k, e in enumerate(v["e"]) for x in (flat(f"{n}[{k}]", e) if v["t"] == "a" else flat(n + "." + e["key"], e["val"]))] if v["t"] in "ao" else [n]
def twice(c, doc):
    """whether the document gives some wire twice: not a question of names"""
    w = {s["name"]: s["wire"] for s in c["sym"] if s["wire"] >= 0}
    ws = [w["main." + n] for x in doc for n in flat(x["key"], x["val"]) if "main." + n in w]
    return len(ws) > len(set(ws))
def near(c, i):
    """documents with keys that resemble the names of public wires, beside them and in their place"""
    r = random.Random(f"near{c['seed']}")
    o = []
    for j in range(3):
        for doc in c["docs"][:1]:
            taken = {x["key"] for x in doc} 
            k = r.randrange(len(doc)) if doc else 0
            if not doc: continue
            m = dict(doc[k])
            f = NEAR[(i * 3 + j) % len(NEAR)]
            m["key"] = f(m["key"])
            if m["key"] in taken or m["key"] == "": continue
            if m["key"].isdigit(): continue
            o.append(doc[:k] + [m] + doc[k + 1:])                          # instead
            m = dict(m, val={"t": "n", "v": r.randrange(7)})
            o.append(doc + [m] if j % 2 else [m] + doc)                    # beside
    return [x for x in o if not twice(c, x)]
def run(ctx):
    scen.design(ctx)
    t = sysd.Tools(ctx)
    cases = sysd.gen(ctx, 400 if ctx.thorough else 120)
    def f(r, c, i):
        for d in c["docs"] + c["nested"] + c["short"] + near(c, i):
            for tool in scen.TOOLS:
                if (i + len(d)) % 3:
                    r.encap(tool, d)
                else:
                    r.encrypt(tool, d, b"m", bool(i % 2))
    ev = scen.perform(ctx, t, cases, f)
    for e in ev:
        e.pop("bytes", None)
    ctx.count("refused", sum(e.get("out") == "err" for e in ev))
    ctx.sample(ev[:3])
    scen.validate(ctx, ev, ["stmt"], "recorded statement", len(cases))
    def g(x):
        for tool in scen.TOOLS:
            for kind in ("short", "full"):
                x.encap(tool, kind)
                x.encrypt(tool, kind, b"m", True)
    scale.perform(ctx, t, ["medium", "matrix", "broad", "statement"], g, ["stmt"], "recorded statement")
    # values of full size
    wide.validate(ctx, wide.tools(ctx, t, 300 if ctx.thorough else 30, 0), ["stmt"], "recorded statement over the real field")

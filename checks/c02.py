import copy, random
import core, scale, scen, sysd, wide
LEVEL = "model_checking"
def broken(circ, j):
    c = copy.deepcopy(circ)
    c["cons"][j][2] = c["cons"][j][2] + [[0, 1]]
    return c
def ev_row(r, a):
    return sum(k * a[w] for w, k in r)
def holds(con, a):
    return ev_row(con[0], a) * ev_row(con[1], a) == ev_row(con[2], a)
def hidden(circ, asg, j, r, rng):
    """one further factor in row r of constraint j (often of a wire the row already has, at either end), which makes asg violate it:
    a reader that overlooks, merges or reorders that factor would accept asg"""
    for _ in range(20):
        c = copy.deepcopy(circ)
        row = c["cons"][j][r]
        w = rng.choice(row)[0] if row and rng.random() < .7 else rng.randrange(c["nw"])
        row.insert(rng.choice((0, len(row), rng.randrange(len(row) + 1))), [w, rng.choice((1, -1, 2, -3))])
        if not holds(c["cons"][j], asg):
            return c
def special(circ, asg, rng):
    """one further constraint of a special shape (a square, a boolean, a linear one, with empty rows, a twin of another), at either end,
    which asg violates"""
    c = copy.deepcopy(circ)
    row = lambda: [[rng.randrange(c["nw"]), rng.choice((1, -1, 2, -3))] for _ in range(rng.choice((1, 2, 3)))]
    for _ in range(20):
        q, w, o = row(), rng.randrange(1, c["nw"]), rng.choice(c["cons"]) if c["cons"] else [[], [], []]
        x = copy.deepcopy(rng.choice([[q, q, []], [[[w, 1]], [[w, 1], [0, -1]], []], [[[w, 1], [0, -1]], [[w, 1]], []], [[[w, 1]], [[w, 1]], [[w, 1]]], [[[0, 1]], q, []],
                                      [q, [[0, 1]], []], [q, [[0, 1]], [[0, 3]]], [[], q, row()], [q, [], row()], [[], [], q], [q, q, q], [o[0], o[1], q], [o[1], o[0], q], [o[0], q, o[2]]]))
        if not holds(x, asg):
            c["cons"].insert(rng.choice((0, len(c["cons"]))), x)
            return c
def run(ctx):
    core.design(ctx)
    scen.design(ctx)
    cs = core.cases(ctx, 3000 if ctx.thorough else 500)
    d = core.drv(ctx)
    ev = []
    other = {}
    for c in cs:
        ev.append({"ev": "begin"})
        n = 0
        def enc(circ):
            nonlocal n
            e, ct = core.encap_event(d, circ, core.hide(circ, c["asg"]), core.rng(c, n))
            ev.append(e)
            n += 1
            return ct
        ct = enc(c["circ"])
        if ct is not None:
            for a in [c["asg"]] + c["near"]:
                ev.append(core.decap_event(d, ct, 1, c["circ"], a))
            # a witness of another circuit
            k = (c["circ"]["npub"], c["circ"]["nw"])
            if k in other:
                ev.append(core.decap_event(d, ct, 1, other[k][0], other[k][1]))
                ev.append(core.decap_event(d, ct, 1, c["circ"], other[k][1]))
            other[k] = (c["circ"], c["asg"])
        # an assignment that violates exactly one constraint
        for j in range(len(c["circ"]["cons"])):
            b = broken(c["circ"], j)
            ct = enc(b)
            if ct is not None:
                ev.append(core.decap_event(d, ct, n, b, c["asg"]))
    ctx.count("decapsulations", sum(e["ev"] == "decap" for e in ev))
    ctx.count("rejected", sum(e["ev"] == "decap" and e["out"] != "key" for e in ev))
    ctx.sample(ev[1:4])
    core.validate(ctx, ev, ["reject"], "decapsulation with an assignment that does not prove the statement", len(cs))
    # the tools
    t = sysd.Tools(ctx)
    cases = sysd.gen(ctx, 250 if ctx.thorough else 60)
    rng = random.Random(f"{ctx.seed}-hidden")
    more = [dict(c, circ=broken(c["circ"], j)) for c in cases for j in range(len(c["circ"]["cons"]))]
    more += [dict(c, circ=h, brief=1) for c in cases for j in range(len(c["circ"]["cons"])) for r in (0, 1, 2) * 2 for h in [hidden(c["circ"], c["asg"], j, r, rng)] if h]
    more += [dict(c, circ=h, brief=1) for c in cases for _ in range(12 if ctx.thorough else 5) for h in [special(c["circ"], c["asg"], rng)] if h]
    cases += more
    ctx.count("circuits_with_one_violated_constraint", len(more))
    def f(r, c, i):
        k = r.encap(scen.TOOLS[i % 2], c["docs"][i % 3])
        if k and c.get("brief"):
            for tl in scen.TOOLS:
                r.decap(tl, k, c["asg"])
            return
        if k:
            for a in [c["asg"]] + c["near"]:
                for tl in scen.TOOLS:
                    r.decap(tl, k, a)
            for a in (c["asg"][:-1], c["asg"][:1 + c["circ"]["nout"] + c["circ"]["nin"]], [1]):
                r.decap("cli", k, a)
        k = r.encrypt(scen.TOOLS[(i + 1) % 2], c["docs"][0], b"secret", True)
        if k:
            for a in [c["asg"]] + c["near"]:
                r.decrypt(scen.TOOLS[i % 2], k, a)
    ev = scen.perform(ctx, t, cases, f)
    for e in ev:
        e.pop("bytes", None)
    scen.validate(ctx, ev, ["reject"], "requests of the tools without a proof", len(cases))
    scale.perform(ctx, t, ["medium", "matrix", "broad", "statement", "wires"] + (["constraints", "factors"] if ctx.thorough else []), lambda x: scale.keys(x), ["reject"], "requests of the tools without a proof")
    # values of full size
    w = wide.library(ctx, core.drv(ctx, toy=False), 400 if ctx.thorough else 40, decaps=6, lists=0, like=1500 if ctx.thorough else 120) + wide.tools(ctx, t, 200 if ctx.thorough else 12, 4, like=300 if ctx.thorough else 36)
    wide.validate(ctx, w, ["reject"], "requests over the real field without a proof")

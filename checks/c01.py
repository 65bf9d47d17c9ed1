import core, scale, scen, sysd, random, wide
LEVEL = "model_checking"
def run(ctx):
    core.design(ctx)
    scen.design(ctx)
    # the library, over the toy field: every private wire unassigned
    cs = [c for c in core.cases(ctx, 4000 if ctx.thorough else 700) if c["circ"]["nw"] > c["circ"]["npub"] + 1]
    d = core.drv(ctx)
    ev = []
    for c in cs:
        ev.append({"ev": "begin"})
        k = 0
        for i in range(2):
            # some private wires may be known to the encapsulator, as long as one is not
            asg = core.hide(c["circ"], c["asg"])
            if i and c["seed"] % 3 == 0:
                asg = asg[:c["circ"]["npub"] + 1] + [x if j else -1 for j, x in enumerate(c["asg"][c["circ"]["npub"] + 1:])]
            e, ct = core.encap_event(d, c["circ"], asg, core.rng(c, i))
            ev.append(e); k += 1
            if ct is None:
                continue
            ev.append(core.decap_event(d, ct, k, c["circ"], c["asg"]))
            r = d.call({"op": "recode", "ct": ct}).get("ok")
            if r:
                ev.append(core.decap_event(d, r["c"], k, c["circ"], c["asg"]))
                ev.append(core.decap_event(d, r["u"], k, c["circ"], c["asg"], "uncompressed"))
            if i == 0:
                for a in c["near"][c["circ"]["npub"]:]:
                    ev.append(core.decap_event(d, ct, k, c["circ"], a))
    ctx.count("core_decapsulations", sum(e["ev"] == "decap" for e in ev))
    ctx.sample(ev[1:4])
    core.validate(ctx, ev, ["agree"], "key agreement of the library", len(cs))
    # the two tools
    t = sysd.Tools(ctx)
    cases = sysd.gen(ctx, 300 if ctx.thorough else 90)
    def f(r, c, i):
        for tool in scen.TOOLS:
            k = r.encap(tool, c["docs"][(i + (tool == "js")) % 3])
            if k:
                for tl in scen.TOOLS:
                    r.decap(tl, k, c["asg"])
                # another witness of the same statement, if a neighbour is one: the trace decides
                npub = c["circ"]["nout"] + c["circ"]["nin"]
                for a in c["near"][npub:npub + 3]:
                    r.decap(tool, k, a)
    ev = scen.perform(ctx, t, cases, f)
    scen.validate(ctx, ev, ["agree"], "key agreement of the tools", len(cases))
    scale.perform(ctx, t, ["medium", "matrix", "broad", "statement", "wires"] + (["constraints", "factors"] if ctx.thorough else []), lambda x: scale.keys(x, False), ["agree"], "key agreement of the tools")
    # values and coefficients of full size
    w = wide.library(ctx, core.drv(ctx, toy=False), 300 if ctx.thorough else 40, decaps=1, lists=0) + wide.tools(ctx, t, 200 if ctx.thorough else 20, 0)
    wide.validate(ctx, w, ["agree", "stmt"], "key agreement over the real field")

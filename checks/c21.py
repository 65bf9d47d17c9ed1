import core, wide
LEVEL = "model_checking"
BIG = 12289      # with room for domains of up to 4096 points
def events(ctx, d, plans, p):
    ev, n = [], 0
    for k, (num, w, m) in enumerate(plans):
        for c in core.cases(ctx, num, base=ctx.seed + 10 * k, wires=w, cons=m, p=p):
            n += 1
            ev.append({"ev": "begin"})
            for i in range(2):
                ev.append(core.encap_event(d, c["circ"], c["asg"], core.rng(c, i))[0])
            ev.append(core.encap_event(d, c["circ"], core.hide(c["circ"], c["asg"]), core.rng(c, 2))[0])
            if c["circ"]["nw"] > c["circ"]["npub"] + 2:
                part = c["asg"][:-1] + [-1]
                ev.append(core.encap_event(d, c["circ"], part, core.rng(c, 3))[0])
    ctx.count("full_encapsulations", sum(e["ev"] == "encap" and -1 not in e["asg"] for e in ev))
    ctx.count("partial_encapsulations", sum(e["ev"] == "encap" and -1 in e["asg"] for e in ev))
    ctx.sample(ev[1])
    core.validate(ctx, ev, ["qap", "stmt"], "published query elements", n, p=p)
def run(ctx):
    core.design(ctx)
    events(ctx, core.drv(ctx), [(400, 7, 5)] + ([(300, 12, 14), (60, 30, 40)] if ctx.thorough else [(40, 12, 14)]), core.vk.TOY)
    # larger circuits, over a larger field
    events(ctx, core.drv(ctx, p=BIG), [(60, 30, 300), (60, 300, 20), (40, 90, 90), (3, 8, 1500)] if ctx.thorough else [(4, 30, 300), (4, 200, 20), (6, 9, 1500)], BIG)
    # values and coefficients of full size
    w = wide.qap(ctx, core.drv(ctx, toy=False), 300 if ctx.thorough else 50)
    ctx.count("full_encapsulations", sum(e["ev"] == "qap" for h in w for e in h))
    wide.validate(ctx, w, ["stmt"], "published query elements over the real field")

"""Scenarios of Wkem performed by zkenc-core over the toy field, and their validation."""
import json
import vk

def cases(ctx, n, base=None, wires=7, cons=5, p=vk.TOY):
    out = ctx.scratch(f"cases{base}.ndjson")
    ctx.tlc("WkemGen", f"CONSTANTS P = {p}\n N = {n}\n Base = {base or ctx.seed}\n MaxWires = {wires}\n MaxCons = {cons}\n", env={"OUT": out}, workers=1)
    with open(out) as f:
        return [json.loads(x) for x in f]

def design(ctx):
    """The state machine itself, exhaustively over F_3."""
    me, md = (2, 2) if ctx.thorough else (2, 1)
    sc = "{1,2}" if ctx.thorough else "{0,1}"
    ctx.tlc("WkemMC", f"CONSTANTS P = 3\n Pool <- MCPool\n Scalars = {sc}\n MaxEncap = {me}\n MaxDecap = {md}\nINIT Init\nNEXT Next\nINVARIANT Agreement Soundness NoPartialCircuit Written\nCHECK_DEADLOCK FALSE\n", workers=8, timeout=3000 if ctx.thorough else 800)

def drv(ctx, toy=True, out=None, p=vk.TOY):
    ctx.build("core-drv")
    return ctx.driver(vk.exe("core-drv"), env={"STUB_FIELD": str(p) if toy else ""}, timeout=60, out=out)

def rng(c, i, words=False):
    return {"seed": c["seed"] * 1000 + i, "words": c["words"] if words else []}

def encap_event(d, circ, asg, rngv):
    r = d.call({"op": "encap", "circ": dict(drive(circ), asg=[None if x < 0 else x for x in asg]), "rng": rngv})
    e = {"ev": "encap", "circ": circ, "asg": asg, "ok": "ok" in r, "parts": {}, "key": "", "sampled": []}
    if e["ok"]:
        o = r["ok"]
        e.update(parts=o["parts"], key=o["key"], sampled=o["sampled"])
        return e, o["ct"]
    # which scalars were drawn is not reported after a panic; a zero draw is the only excuse
    e["sampled"] = [0] if "delta" in str(r.get("panic", "")) or "inverse" in str(r.get("panic", "")) else []
    e["raw"] = str(r)[:200]
    return e, None

def decap_event(d, ct, i, circ, asg, mode="compressed"):
    r = d.call({"op": "decap", "ct": ct, "mode": mode, "circ": dict(drive(circ), asg=asg)})
    return {"ev": "decap", "ct": i, "circ": circ, "asg": asg, "out": "key" if "ok" in r else "err" if "err" in r else "crash", "key": r["ok"]["key"] if "ok" in r else ""}

def validate(ctx, events, checks, what, n, p=vk.TOY):
    cfg = 'CONSTANTS P = %d\n Checks = {%s}\nINIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n' % (p, ",".join('"%s"' % c for c in checks))
    return ctx.validate("WkemTrace", cfg, events, what, n_traces=n, describe=lambda e: json.dumps(e)[:400])

def hide(circ, asg):
    return [x if i <= circ["npub"] else -1 for i, x in enumerate(asg)]

def drive(c):
    return {"n_pub": c["npub"], "n_wires": c["nw"], "cons": c["cons"]}

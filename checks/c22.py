import core, scale, vk, wide
LEVEL = "model_checking"
def run(ctx):
    core.design(ctx)
    cs = core.cases(ctx, 3000 if ctx.thorough else 600)
    d = core.drv(ctx)
    ev, last = [], None
    for i, c in enumerate(cs):
        ev.append({"ev": "begin"})
        # partially and fully assigned encapsulations alike
        asg = core.hide(c["circ"], c["asg"]) if i % 3 else c["asg"]
        e, ct = core.encap_event(d, c["circ"], asg, core.rng(c, 0))
        ev.append(e)
        if ct is None:
            continue
        r = d.call({"op": "recode", "ct": ct})
        forms = [("compressed", ct)]
        if "ok" in r:
            ev.append({"ev": "recode", "ct": 1, "parts": r["ok"]["parts"]})
            forms += [("uncompressed", r["ok"]["u"]), ("compressed", r["ok"]["c"])]
            u = d.call({"op": "recode", "ct": r["ok"]["u"], "mode": "uncompressed"})
            ev.append({"ev": "recode", "ct": 1, "parts": u["ok"]["parts"] if "ok" in u else {"failed": str(u)}})
        else:
            ev.append({"ev": "recode", "ct": 1, "parts": {"failed": str(r)[:100]}})
        # nothing but the recorded statement counts: the same statement next to other (or no) group elements
        b = bytes.fromhex(ct)
        tail = b[-(8 + 32 * c["circ"]["npub"]):]
        if len(b) > 200 and int.from_bytes(tail[:8], "little") == c["circ"]["npub"]:
            forms += [("compressed", x.hex()) for x in (b[:160] + bytes(32) + tail, (last or b"") + tail) if "ok" in d.call({"op": "recode", "ct": x.hex()})]
            last = b[:-len(tail)]
        for lst in c["lists"]:
            for mode, h in forms:
                v = d.call({"op": "verify", "ct": h, "mode": mode, "pub": lst})
                ev.append({"ev": "verify", "ct": 1, "pub": lst, "ok": v["ok"] if "ok" in v else "none"})
    ctx.count("verifications", sum(e["ev"] == "verify" for e in ev))
    ctx.count("accepted", sum(e["ev"] == "verify" and e["ok"] is True for e in ev))
    ctx.sample(ev[1:5])
    core.validate(ctx, ev, ["verify", "stmt"], "verification of a ciphertext against a list of public inputs", len(cs))
    names = ["medium", "broad", "long", "statement"]
    ds = {n: ctx.driver(vk.exe("core-drv"), env={"STUB_FIELD": ""}) for n in names}
    scale.perform(ctx, None, names, lambda x: scale.verify(x, ds[x.c["name"]]), ["stmt"], "verification of a ciphertext against a list of public inputs")
    # values of full size that resemble the recorded ones
    w = wide.library(ctx, core.drv(ctx, toy=False), 600 if ctx.thorough else 100, decaps=0, lists=16, like=300 if ctx.thorough else 60)
    wide.validate(ctx, w, ["verify", "stmt"], "verification of a ciphertext against large values")

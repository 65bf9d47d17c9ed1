import json, random
import c07, files, fmt, scale, scen, sysd, vk
LEVEL = "model_checking"
TEXTS = ["", " ", "\t", "e\u0301", "\u00e9", "\u212b", "\ufb01", "A\u030a\u0327", "\u1100\u1161", "ſ", "İ", "ß", "\u200d", "\u202e", "\ufeffx", "\u00a0", "\u0085", "\ud800", "x\udc00y", "\\u0041", "%41", "&lt;", "<b>", "${x}", "+", "-0", "0x10", "1e5", "007", "1.0", "NaN", "Infinity", "true", "null", "undefined", "[]", "{}", "12n", "1_000", "2020-01-01T00:00:00.000Z", "/Date(0)/", "\"", "\\", "\\\"", "'", "`", "\u2029", "\x7f", "\x00", "a\x00b", "𝒳\u0301", "\U0010ffff", "٣", "１"]
KEYS = TEXTS + ["0", "1", "10", "2", "-1", "01", "4294967294", "4294967295", "length", "toJSON", "then", "valueOf", "hasOwnProperty", "prototype", "__proto__", "$", "main", "a.b", "a[0]", "A", "a", "type", "data"]
NUMS = [0, 1, -1, 255, 256, 2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 53 - 1, -(2 ** 53 - 1), 2 ** 53, 10 ** 15]
def rdoc(rng, tool):
    """a random document: any characters, any shape"""
    def val(d):
        k = rng.random()
        if d and k < .25:
            return [val(d - 1) for _ in range(rng.choice((0, 1, 1, 2, 3, 9)))]
        if d and k < .45 and tool == "js":
            return {rng.choice(KEYS): val(d - 1) for _ in range(rng.choice((0, 1, 2, 5)))}
        if tool == "cli":
            return rng.choice((rng.choice(NUMS), rng.randrange(2 ** 62), str(rng.randrange(10 ** rng.randrange(1, 90)))))
        return rng.choice((rng.choice(TEXTS), rng.choice(TEXTS) + rng.choice(TEXTS), rng.choice(NUMS), rng.choice((True, False, None, .5, 1e21, 5e-324, 1.7976931348623157e308, -1e-7, 1e-6, 123456789.123)), str(rng.randrange(10 ** 30))))
    keys = KEYS if tool == "js" else [k for k in KEYS if not any("\ud800" <= c < "\ue000" for c in k)]  # (not readable by the tool)
    return {"z" + rng.choice(keys) if rng.random() < .2 else rng.choice(keys): val(3) for _ in range(rng.choice((1, 2, 4, 8)))}
def docs(rng, tool, thorough):
    return listed(rng, tool, thorough) + [rdoc(rng, tool) for _ in range(300 if thorough else 40)]
def listed(rng, tool, thorough):
    """further members of the input document (of no wire)"""
    num = [{"a": [0] * 500}, {"b": list(range(300))}, {"deep": [[[1], [2, 3]], [[]]]}, {"": 5}, {"é☃𝒳 \" \\ \u0001 \u2028 \ufeff \ud7ff": "12"}, {"k%d" % i: str(10 ** i) for i in range(60)}, {"x" * 300: -7}, {"__proto__": 3, "constructor": 4, "toString": 5}, {"big": str(2 ** 300)}, {"n": 9007199254740991, "m": -9007199254740991}, {}]
    if tool == "cli":
        return num
    return num + [{"s": "x" * 70000}, {"é": "é☃𝒳 \" \\ \u0001\u0000\u007f", "lf": "\n\r\t\b\f/"}, {"t": True, "f": False, "n": None}, {"obj": {"p": {"in": [None, {"o": "s"}]}}}, {"fl": 1.5, "e": 1e300, "z": 0.1}, {"\u0000": "\u0000"}, {"emoji": "👨‍👩‍👧" * 50}, {"1": "one", "0": "zero"}, {"len": "☃" * 255}, {"len": "é" * 32767}] + ([{"huge": "☃" * (1 << 20)}] if thorough else [])
def run(ctx):
    t = sysd.Tools(ctx, workers=8)
    cs = [c for c in sysd.gen(ctx, 200) if c["circ"]["nw"] <= 9]
    def value(job):
        i, tool, more, embed = job
        c = cs[i % len(cs)]
        s = t.system(c, random.Random(f"{ctx.seed}-{i}"))
        d = dict(fmt.doc(c["docs"][i % 3], fmt.forms(s.rng)), **more)
        o, b = s.encrypt(tool, json.dumps(d, ensure_ascii=bool(i % 2)), s.rng.randbytes(i % 40), embed)
        if o != "ok":
            raise vk.Broken(f"cannot encrypt with {json.dumps(d)[:1500]} ({tool})")
        ev = [{"ev": "base", "bytes": list(b) if len(b) < 3000 else [0] * 5, "msg": "", "embed": embed is not False, "text": scen.canon(json.dumps(d))}]
        for v in ({}, {"pre": 1 + i % 9, "post": 3, "fill": 0}, {"pre": 8, "post": 5, "fill": 255}, {"pre": 3, "after": b}):
            o, x = s.getpub(b, **v)
            ev.append(("val", o, scen.canon(x) if o == "ok" else "", v))
        return c, s, b, d, embed, ev
    jobs = [(i, tool, m, e) for tool in scen.TOOLS for i, m in enumerate(docs(ctx.rng, tool, ctx.thorough)) for e in (True, None, False)]
    jobs = [(k,) + j[1:] for k, j in enumerate(jobs)]
    res = t.map(value, jobs)
    # every size and every kind of text: equality with what was supplied
    ev = []
    for c, s, b, d, embed, e in res:
        ev += [dict(e[0], bytes=[])] + [{"ev": "val", "out": x[1], "text": x[2], "view": str({k: v for k, v in x[3].items() if k != "after"})} for x in e[1:]]
    ctx.count("extractions", sum(e["ev"] == "val" for e in ev))
    ctx.sample([{k: v for k, v in e.items()} for e in ev[:2]])
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    ctx.validate("CombTrace", cfg, ev, "extraction of embedded inputs", n_traces=len(res), describe=files.describe)
    # damaged copies
    small = [r for r in res if 200 < len(r[2]) < 1500]
    pick = small[::max(1, len(small) // (20 if ctx.thorough else 7))]
    work = []
    for c, s, b, d, embed, e in pick:
        w, dl, st = c07.parts(b)
        E = [x for x in c07.edits(s.rng, b, [pick[0][2]], ctx.thorough) if x["cut"] <= st + 20]
        for k in range(0, len(E), 200):
            work.append((s, b, d, embed, E[k:k + 200]))
    def one(job):
        s, b, d, embed, E = job
        ev = [{"ev": "base", "bytes": list(b), "msg": "", "embed": embed is not False, "text": scen.canon(json.dumps(d))}]
        for k, e in enumerate(E):
            x = files.damaged(b, e)
            o = n = -1
            dt = ""
            if len(x) >= 5:
                w = int.from_bytes(x[1:5], "big")
                if len(x) >= 9 + w:
                    o, n = 9 + w, int.from_bytes(x[5 + w:9 + w], "big")
                    dt = scen.canon(x[o:o + n].decode("utf-8", "replace")) if n < len(x) else ""
            out, tx = s.getpub(x, **({} if k % 3 == 0 else {"pre": 1 + k % 5, "after": b[len(x):] if e["cut"] >= 0 and not e["app"] else b"0}\"]" * 9} if k % 3 == 1 else {"pre": k % 5, "post": 9, "fill": 32}))
            ev.append({"ev": "pub", **e, "out": out, "text": scen.canon(tx) if out == "ok" else "", "o": o, "n": n, "dtext": dt})
        return ev
    tr = t.map(one, work)
    ctx.count("damaged_extractions", sum(len(x) - 1 for x in tr))
    ctx.count("still_extracted", sum(e.get("out") == "ok" for x in tr for e in x))
    c07.comb(ctx, tr, "extraction from damaged data")
    def g(x):
        for tool in scen.TOOLS:
            for embed in (True, False):
                k = x.encrypt(tool, "full", b"m" * 70000, embed)
                if k:
                    x.getpub(k)
    scale.perform(ctx, t, ["medium", "broad", "statement"], g, ["getpub"], "extraction of embedded inputs")

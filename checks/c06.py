import scale, scen, sysd
LEVEL = "model_checking"
SIZES = [0, 1, 11, 12, 15, 16, 17, 27, 28, 29, 31, 32, 33, 63, 64, 65, 255, 256, 257, 300]
def run(ctx):
    scen.design(ctx)
    t = sysd.Tools(ctx)
    cases = sysd.gen(ctx, 300 if ctx.thorough else 80)
    # values of no wire; the command-line tool refuses text that is not a number
    more = {"js": [None, {"zz": "é☃𝒳 \" \\ \u0001"}, {"pad": "x" * 400}, {"n": None, "b": True}],
            "cli": [None, {"é☃𝒳 \" \\ \u0001": 5}, {"pad": [0] * 400}, {"": "12", "n": [[1], [2, 3]]}]}
    def f(r, c, i):
        k = 0
        for tool in scen.TOOLS:
            for embed in (True, False, None):
                # (a message may be an encrypted message itself)
                m = r.cts[-1] if (i + k) % 7 == 3 and r.cts and r.cts[-1] else msg(r.rng, SIZES[(3 * i + k) % len(SIZES)], i + k)
                n = r.encrypt(tool, c["docs"][(i + k) % 3], m, embed, more[tool][(i + k) % 4] if embed else None)
                k += 1
                if n:
                    for tl in scen.TOOLS:
                        r.decrypt(tl, n, c["asg"], *([] if tl == "cli" or k % 2 else [3, 5]))
    ev = scen.perform(ctx, t, cases, f)
    ctx.count("round_trips", sum(e["ev"] == "decrypt" and e["out"] == "ok" for e in ev))
    ctx.sample([{k: v for k, v in e.items() if k != "bytes"} for e in ev[:3]])
    scen.validate(ctx, ev, ["agree", "layout"], "message round trip", len(cases))
    # long messages, both directions
    def g(r, c, i):
        for tool in scen.TOOLS:
            for size in ((1 << 16) - 1, 1 << 16, 100003, (1 << 20) + 7, 3 << 20) if ctx.thorough else ((1 << 16) + 1, 200003):
                n = r.encrypt(tool, c["docs"][0], msg(r.rng, size, i), bool(i % 2))
                if n:
                    for tl in scen.TOOLS:
                        r.decrypt(tl, n, c["asg"])
    ev = scen.perform(ctx, t, cases[:6 if ctx.thorough else 3], g)
    for e in ev:
        e.pop("bytes", None)
        if "msg" in e:
            import hashlib
            e["msg"] = hashlib.sha256(e["msg"].encode()).hexdigest()
    scen.validate(ctx, ev, ["agree"], "long messages", len(cases[:6]))
    # long messages, long statements
    def h(x):
        for tool in scen.TOOLS:
            for embed in (True, False):
                k = x.encrypt(tool, "full", x.rng.randbytes(((1 << 20) + 5 if x.c["name"] == "medium" else 70001) + 5 * embed), embed)
                if k:
                    for tl in scen.TOOLS:
                        x.opened(tl, k, [], True)
    scale.perform(ctx, t, ["medium", "matrix", "statement"], h, ["agree"], "long messages and statements")

# what a tool that took messages for text might alter
TEXTS = [b"\xef\xbb\xbftext\r\n", b" \t\r\n text \0\n", "e\u0301 \u00e9 \u2028 \U0001d4b3 ".encode(), b'{"a": 1}\n', b"deadBEEF00", b"aGVsbG8= ", b"\xff\xfet\0e\0", b"\xed\xa0\x80\xc0\x80", b"\x1f\x8b\x08\0", b"\x00\x00\x00\x01zkenc"]
def msg(rng, n, i):
    k = i % 6
    if k == 4: return (TEXTS[i // 6 % len(TEXTS)] * (n + 1))[:max(n, 40)]
    if k == 0: return bytes(n)
    if k == 1: return b"\xff" * n
    if k == 2: return bytes(j % 256 for j in range(n))
    if k == 3: return (b"\x01\x00\x00\x00\x05{}\r\n" * (n // 9 + 1))[:n]
    return rng.randbytes(n)

import random
from concurrent.futures import ThreadPoolExecutor
import files, fmt, scale, scen, sysd, vk
LEVEL = "model_checking"
def parts(b):
    """harness view of a good ciphertext: starts of witness ciphertext, document length, sealed message"""
    w = int.from_bytes(b[1:5], "big")
    d = 4 + int.from_bytes(b[5 + w:9 + w], "big") if b[0] == 1 else 0
    return w, d, 5 + w + d
def edits(rng, b, others, full):
    w, d, s = parts(b)
    n = len(b)
    E = [files.edit(cut=k) for k in range(n)]
    E += [files.edit(app=[rng.randrange(256) for _ in range(k)]) for k in (1, 2, 12, 16, 28, 300)] + [files.edit(app=list(b)), files.edit(app=[0])]
    head = list(range(5)) + list(range(5 + w, 9 + w) if d else [])
    for i in range(n):
        vs = set(range(256)) - {b[i]} if full and i in head else {0, 1, 2, 127, 128, 255, b[i] ^ 1, b[i] ^ 0x80, (b[i] + 1) % 256, (b[i] - 1) % 256} - {b[i]} if i in head else {b[i] ^ (1 << rng.randrange(8)), rng.randrange(256)} if full or i >= s or i % 9 == 0 else set()
        E += [files.edit(at=i, vals=[v]) for v in vs]
    # length fields: every small length and the ones around the end, written in full
    for o, size in ((1, n - 5), (5 + w, n - 9 - w)) if d else ((1, n - 5),):
        ls = {0, 1, w - 1, w + 1, d - 5, d - 3, size - 28, size - 27, size - 4, size - 3, size - 1, size, size + 1, size + 4, size + 5, n, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - 4, 2 ** 32 - 5, 2 ** 32 - 9, 2 ** 32 - n} | {rng.randrange(n) for _ in range(20)}
        L = w if o == 1 else d - 4
        # numbers that a narrower, a signed or a wrapping reading takes for the right length or for a place counted from the end
        ls |= {L + 2 ** j for j in (8, 15, 16, 23, 24, 30, 31)} | {2 ** 32 - L, 2 ** 31 - L} | {(2 ** j - k) % 2 ** 32 for j in (16, 31, 32) for k in (n - L, n - L - 4, n - L - 9, n - 5, n - 9, L, L + 5, L + 9, L + 4)}
        ls |= {2 ** 32 - k for k in (range(1, n + 10) if full else rng.sample(range(1, n + 10), 40))}
        ls -= {L}
        E += [files.edit(at=o, vals=list(x.to_bytes(4, "big"))) for x in ls if 0 <= x < 2 ** 32]
    # splices: heads and tails of several ciphertexts, and exchanged parts
    for o in others:
        ow, od, os_ = parts(o)
        for cut in {0, 1, 5, 5 + w, 5 + w + d, s, s + 12, n - 16, n}:
            for c2 in {0, 1, 5, 5 + ow, os_, os_ + 12, len(o) - 16}:
                E.append(files.edit(cut=cut, app=list(o[c2:])))
        E += [files.edit(cut=rng.randrange(n), app=list(o[rng.randrange(len(o)):])) for _ in range(8)]
    # nonce, text and tag of the sealed message moved around
    z = b[s:]
    for x in (z[12:] + z[:12], z[:12] + z[-16:] + z[12:-16], z + z, z[:-16], z[12:], z[::-1], bytes(len(z)), z[:28], b"", z[:12] + z[-16:]):
        if x != z:
            E.append(files.edit(cut=s, app=list(x)))
    return E
def run(ctx):
    t = sysd.Tools(ctx, workers=8)
    cs = [c for c in sysd.gen(ctx, 120) if c["circ"]["nw"] <= 9]
    lens = [0, 5, 40, 1, 16, 100]
    bases = []
    for i in range(24 if ctx.thorough else 4):
        c = cs[i % len(cs)]
        s = t.system(c, random.Random(f"{ctx.seed}-{i}"))
        d = scen.text(fmt.doc(c["docs"][0]))
        mk = lambda tool, embed, ln: (lambda r, m: (r[1], m))(*(lambda m: (s.encrypt(tool, d, m, embed), m))(s.rng.randbytes(ln)))
        tool, embed = scen.TOOLS[i % 2], i % 4 < 2
        b, m = mk(tool, embed, lens[i % 6])
        others = [mk(scen.TOOLS[(i + k) % 2], k % 2 == 0, lens[(i + k) % 6]) for k in range(3)]
        if b is None or None in [x[0] for x in others]:
            raise vk.Broken("cannot encrypt")
        bases.append((c, s, d, b, m, embed, edits(s.rng, b, [x[0] for x in others], ctx.thorough), [{"bytes": list(x), "msg": y.hex()} for x, y in others]))
    # a witness ciphertext and embedded inputs beyond 65535 bytes
    c = scale.as_case(scale.cases(ctx, ["long"])[0])
    s = t.system(c, random.Random(f"{ctx.seed}-long"))
    pub = fmt.indoc([x for x in c["signals"] if x["wire"] <= c["circ"]["nout"] + c["circ"]["nin"]], c["asg"])
    for i in range(4 if ctx.thorough else 2):
        d = scen.text(dict(pub, pad=[0] * 40000))
        m = s.rng.randbytes(70000 if i % 2 else 33)
        o, b = s.encrypt(scen.TOOLS[i % 2], d, m, True)
        if o != "ok":
            raise vk.Broken("cannot encrypt for a long statement")
        w, dl, st = parts(b)
        n, E = len(b), []
        E += [files.edit(cut=k) for k in (0, 5, 9, 65535, 65536, 5 + w, 9 + w, st - 1, st, st + 28, n - 65536, n - 1, n - 16) if 0 <= k < n]
        E += [files.edit(at=k, vals=[b[k] ^ 1]) for k in (0, 1, 2, 3, 4, 5 + w, 6 + w, 7 + w, 8 + w, st, st + 12, n - 17, n - 1)] + [files.edit(app=[0])]
        E += [files.edit(at=o2, vals=list((x % 2 ** 32).to_bytes(4, "big"))) for o2, L in ((1, w), (5 + w, dl - 4)) for x in (L & 65535, L - 65536, L + 65536, L & 0xffffff00, 65535, n, 2 ** 32 - 1, 2 ** 32 - n) if x % 2 ** 32 != L]
        bases.append((c, s, d, b, m, True, E, []))
    jobs = []
    for c, s, d, b, m, embed, E, goods in bases:
        E = [files.NOPE] + E
        for j in range(0, len(E), 60):
            jobs.append((c, s, d, b, m, embed, E[j:j + 60], goods))
    def one(job):
        c, s, d, b, m, embed, E, goods = job
        ev = [{"ev": "base", "bytes": list(b), "msg": m.hex(), "embed": embed, "text": scen.canon(d), "goods": goods}]
        for k, e in enumerate(E):
            x = files.damaged(b, e)
            for tool in scen.TOOLS:
                view = {} if tool == "cli" or k % 2 else {"pre": 1 + k % 7, "after": b[len(x):] if e["cut"] >= 0 and not e["app"] else bytes(40)}
                o, out = s.decrypt(tool, x, c["asg"], **view)
                ev.append({"ev": "dec", "tool": tool, **e, "out": o, "msg": out.hex() if o == "ok" else ""})
        return ev
    tr = t.map(one, jobs)
    ctx.count("decryptions", sum(len(x) - 1 for x in tr))
    ctx.count("still_decrypted", sum(e.get("out") == "ok" for x in tr for e in x))
    ctx.sample(tr[0][1:5])
    comb(ctx, tr, "damaged combined ciphertexts")
def comb(ctx, tr, what):
    groups = [tr[k::8] for k in range(8)]
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: g and ctx.validate("CombTrace", cfg, [e for x in g for e in x], what, n_traces=sum(len(x) - 1 for x in g), describe=files.describe), groups))

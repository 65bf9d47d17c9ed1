import random
import files, fmt, scen, sysd, vk
LEVEL = "model_checking"
HUGE = [[0xff] * 4, [0xff, 0xff, 0xff, 0x7f], [0, 0, 0, 0x80], [0, 0, 0, 1]]
def edits(rng, b, offs, full):
    """offs: positions of counts and sizes"""
    E = [files.edit(cut=n) for n in range(len(b))]
    for o, k in offs:
        E += [files.edit(at=o, vals=v[:k] + [0] * (k - 4)) for v in HUGE] + [files.edit(at=o, vals=[0xff] * k), files.edit(at=o, vals=[0] * k)]
        n = int.from_bytes(b[o:o + k], "little")
        E += [files.edit(at=o, vals=list(((n + d) % 256 ** k).to_bytes(k, "little"))) for d in (1, -1, 2, 7, 256)]
        if k == 8:
            E += [files.edit(at=o, vals=[0] * 7 + [0x80]), files.edit(at=o, vals=[0xf0] + [0xff] * 7)]
    for i in range(len(b)):
        E += [files.edit(at=i, vals=[v]) for v in (range(256) if full and i < 24 else {b[i] ^ 1, b[i] ^ 0x80, rng.randrange(256)})]
    for _ in range(40):
        i = rng.randrange(len(b))
        E.append(dict(files.edit(cut=rng.randrange(i, len(b) + 1)), at=i, vals=[rng.randrange(256) for _ in range(rng.randrange(1, 6))], app=[rng.randrange(256) for _ in range(rng.choice([0, 0, 3, 20]))]))
    return E
def offsets(b):
    """where the container, the header and the constraints keep their counts"""
    o, n, r, fs, nc = 12, int.from_bytes(b[8:12], "little"), [(0, 4), (4, 4), (8, 4)], 32, 0
    secs = []
    for _ in range(n):
        t, s = int.from_bytes(b[o:o + 4], "little"), int.from_bytes(b[o + 4:o + 12], "little")
        r += [(o, 4), (o + 4, 8)]
        secs.append((t, o + 12))
        o += 12 + s
    for t, p in secs:
        if t == 1:
            r += [(p, 4)] + [(p + 36 + 4 * i, 4) for i in range(4)] + [(p + 52, 8), (p + 60, 4)]
            nc = int.from_bytes(b[p + 60:p + 64], "little")
    for t, p in secs:
        if t == 2:
            for _ in range(3 * nc):
                k = int.from_bytes(b[p:p + 4], "little")
                r += [(p, 4)] + ([(p + 4, 4)] if k else [])
                p += 4 + 36 * k
    return r
def unlabelled(b):
    """announces at least 2^20 wires and has no label section"""
    o, n, types = 12, 0, set()
    for _ in range(min(int.from_bytes(b[8:12], "little"), 50)):
        t = int.from_bytes(b[o:o + 4], "little")
        if t == 1 and t not in types:
            fs = int.from_bytes(b[o + 12:o + 16], "little")
            n = int.from_bytes(b[o + 16 + fs:o + 20 + fs], "little")
        types.add(t)
        o += 12 + int.from_bytes(b[o + 4:o + 12], "little")
    return n >= 1 << 20 and 3 not in types
def run(ctx):
    R = files.Readers(ctx, timeout=10)
    cs = [c for c in sysd.gen(ctx, 300) if 2 <= len(c["circ"]["cons"]) <= 3 and c["circ"]["nw"] <= 10 and c["circ"]["nw"] > c["circ"]["nout"] + c["circ"]["nin"] + 1]
    orders = [(1, 2, 3), (3, 2, 1), (2, 1), (9, 1, 3, 2), (2, 9, 1, 3), (1, 2)]
    jobs = []
    for i in range(24 if ctx.thorough else 6):
        c, rng = cs[i], random.Random(f"{ctx.seed}-{i}")
        circ = scen.circ_of(c)
        circ["cons"] = [[r[:2] for r in x] for x in circ["cons"]]
        b = files.r1cs_file(rng, circ, orders[i % len(orders)])
        E = edits(rng, b, offsets(b), ctx.thorough)
        if not ctx.thorough:
            E = [e for j, e in enumerate(E) if e["cut"] >= 0 and e["at"] < 0 or len(e["vals"]) != 1 or j % 2 == i % 2]
        for j in range(0, len(E), 100):
            jobs.append((b, E[j:j + 100]))
    # files that are no circuit files at all
    junk = [b"", b"r1cs", b"wtns" + bytes(40), bytes(64), b"\xff" * 64, b"r1cs\x01\0\0\0\0\0\0\0", b"r1cs\x01\0\0\0\xff\xff\xff\xff", b"r1cs\x01\0\0\0\xff\xff\xff\xff" + bytes(120)]
    junk += [ctx.rng.randbytes(ctx.rng.randrange(200)) for _ in range(40)] + [b"r1cs\x01\0\0\0" + ctx.rng.randbytes(ctx.rng.randrange(100)) for _ in range(40)]
    jobs += [(b, [files.NOPE]) for b in junk]
    def one(k, job):
        b, E = job
        ev, known = [{"ev": "base", "bytes": list(b)}], []
        for e in E:
            d = files.damaged(b, e)
            r = R.r1cs_cli(k, b, e)
            (ev if r["out"] in ("ok", "err") or not unlabelled(d) else known).append(r)
            ev.append(R.r1cs_js(k, b, e))
        return ev, b, known
    res = R.map(one, jobs)
    tr = [r[0] for r in res]
    # announced wires far beyond the file: the memory of these is probed separately
    circ = {"nw": 3, "nout": 1, "nin": 0, "nprv": 1, "cons": [[[[1, 1]], [[2, 1]], [[1, 1]]]]}
    b = fmt.r1cs(circ, (1, 2))
    e = files.edit(at=24 + 4 + 32, vals=[0, 0, 0, 0x20])
    tr.append([{"ev": "base", "bytes": list(b)}, R.r1cs_js(0, b, e)])
    late = [(b, R.r1cs_cli(0, b, e))] + [(b, x) for _, b, kn in res for x in kn]
    for b, x in late[:12]:
        if x["out"] not in ("ok", "err"):
            cfg = 'CONSTANTS Checks = {"malformed"}\nINIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n'
            ctx.validate("FilesTrace", cfg, [{"ev": "base", "bytes": list(b)}, x], "memory for a small circuit file", key="labels-absent-huge-n_wires", describe=files.describe)
    ctx.count("reads", sum(e["ev"] == "r1cs" for t in tr for e in t))
    ctx.count("rejected", sum(e.get("out") == "err" for t in tr for e in t))
    ctx.count("accepted", sum(e.get("out") == "ok" for t in tr for e in t))
    ctx.sample(tr[0][1:4])
    files.validate(ctx, tr, ["malformed"], "damaged circuit files")

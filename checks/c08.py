import random
import files, seal
LEVEL = "model_checking"
TOOLS = ("rust", "js")
def edits(rng, b, goods, full):
    n = len(b)
    E = [files.NOPE] + [files.edit(cut=k) for k in (range(n) if n < 120 else list(range(40)) + list(range(n - 40, n)))]
    E += [files.edit(app=list(rng.randbytes(k))) for k in (1, 12, 16, 28, 5)] + [files.edit(app=[0]), files.edit(app=[0] * 16), files.edit(app=list(b))]
    pos = range(n) if n < 120 else [rng.randrange(n) for _ in range(60)] + list(range(n - 16, n)) + list(range(12))
    for i in pos:
        for k in range(8) if full else (rng.randrange(8),):
            E.append(files.edit(at=i, vals=[b[i] ^ (1 << k)]))
        E.append(files.edit(at=i, vals=[rng.randrange(256)]))
    for o in goods:
        for c in {0, 6, 12, 13, n - 16, n - 8, n - 4, n - 1}:
            if 0 <= c <= n:
                E += [files.edit(cut=c, app=list(o[c:])), files.edit(cut=c, app=list(o[max(0, len(o) - (n - c)):]))]
    z = b
    E += [files.edit(cut=0, app=list(x)) for x in (z[12:] + z[:12], z[:12] + z[-16:] + z[12:-16], bytes(n), z[:12] + bytes(n - 12), bytes(12) + z[12:], z[::-1], z[:-16] + bytes(16), z[:-12] + bytes(12), z[1:])]
    return E
def run(ctx):
    ctx.tlc("AesMC", seal.DESIGN, workers=1)
    bx = seal.Boxes(ctx)
    rng = ctx.rng
    keys = [bytes(32), bytes([255] * 32)] + [rng.randbytes(32) for _ in range(60 if ctx.thorough else 14)]
    lens = [0, 1, 2, 11, 12, 15, 16, 17, 28, 31, 32, 33, 47, 64, 100, 255, 256, 1000] + ([4096, 10000] if ctx.thorough else [])
    def one(k, job):
        i, key = job
        r = random.Random(f"{ctx.seed}-{i}")
        ms = [r.randbytes(lens[(5 * i + j) % len(lens)]) for j in range(5 if ctx.thorough else 3)] + [bytes(lens[i % 14])]
        ev, boxes = [seal.key(key)], []
        for j, m in enumerate(ms):
            for tool in TOOLS:
                e = bx.seal(k, tool, "gcm", key, m, view=(i + j) % 3)
                ev.append(e)
                boxes.append(bytes(e["bytes"]))
        for j, b in enumerate(boxes):
            if not b:
                continue
            E = edits(r, b, [o for o in boxes if o and o != b][:3], ctx.thorough) if j in (i % len(boxes), (i + 3) % len(boxes)) else [files.NOPE, files.edit(at=r.randrange(len(b)), vals=[1])]
            ev.append({"ev": "base", "bytes": list(b)})
            for e in E:
                for tool in TOOLS:
                    ev.append(bx.open(k, tool, "gcm", key, b, e, view=r.randrange(3)))
        # other keys: every single bit, other lengths, prefixes of the key
        b = boxes[0]
        ev.append({"ev": "base", "bytes": list(b)})
        bits = range(256) if ctx.thorough and i % 4 == 0 else r.sample(range(256), 10)
        for k2 in [bytes(x ^ (1 << (q % 8)) if p == q // 8 else x for p, x in enumerate(key)) for q in bits] + [key[::-1], key[1:] + key[:1], r.randbytes(32)]:
            ev.append(seal.key(k2))
            ev += [bx.open(k, tool, "gcm", k2, b) for tool in TOOLS]
        for n in (range(65) if ctx.thorough or i == 0 else (0, 1, 16, 24, 31, 33, 48, 64)):
            k2 = (key + key)[:n]
            if n != 32:
                ev.append(seal.key(k2))
                for tool in TOOLS:
                    ev += [bx.open(k, tool, "gcm", k2, b), bx.seal(k, tool, "gcm", k2, ms[0])]
        if i % 3 == 0:
            for ln in (5000, 65536, 70001) + ((1 << 20, (1 << 20) + 13, (4 << 20) + 1, (17 << 20) + 5) if ctx.thorough else (1 << 20, (4 << 20) + 1) if i == 0 else ((1 << 20) + 13,)):
                for a in TOOLS:
                    ev += [bx.round(k, a, c, "gcm", key, r.randbytes(ln)) for c in TOOLS]
        return ev
    seal.validate(ctx, bx.map(one, list(enumerate(keys))), "authenticated encryption")

import random
import files, seal
LEVEL = "model_checking"
def run(ctx):
    ctx.tlc("AesMC", seal.DESIGN, workers=1)
    bx = seal.Boxes(ctx, js=False)
    rng = ctx.rng
    keys = [bytes(32), bytes([255] * 32)] + [rng.randbytes(32) for _ in range(200 if ctx.thorough else 30)]
    lens = [0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 127, 128, 129, 143, 144, 145, 255, 256, 257, 272, 1000, 2048, 4100]
    def one(k, job):
        i, key = job
        r = random.Random(f"{ctx.seed}-{i}")
        ev = [seal.key(key, False)]
        for j in range(10 if ctx.thorough else 6):
            m = r.randbytes(lens[(6 * i + j) % len(lens)]) if j else bytes(lens[i % 16])
            e = bx.seal(k, "rust", "ctr", key, m)
            ev.append(e)
            b = bytes(e["bytes"])
            if e["out"] != "ok":
                continue
            # a damaged copy decrypts to what counter mode prescribes, short data are refused
            ev.append({"ev": "base", "bytes": list(b)})
            ev += [bx.open(k, "rust", "ctr", key, b, x) for x in [files.NOPE] + [files.edit(cut=c) for c in {0, 1, 8, 12, 15, 16, 17, len(b) - 1, r.randrange(len(b))} if c < len(b)]
                   + [files.edit(at=r.randrange(len(b)), vals=[r.randrange(256)]) for _ in range(4)] + [files.edit(app=[1])]]
        # vectors whose counter carries and wraps
        for ctr in [2 ** 64 - 1, 2 ** 64 - 2, 2 ** 64 - 3, 2 ** 32 - 1, 2 ** 32 - 2, 2 ** 63 - 1, 2 ** 63, 0, 255, 65535, 2 ** 16 - 1 << 16, 2 ** 40 - 1, 2 ** 56 - 1, r.randrange(2 ** 64), (r.randrange(2 ** 56) << 8) | 255]:
            for hi in (bytes(8), bytes([255] * 8), r.randbytes(8))[i % 3:][:1 if not ctx.thorough else 3]:
                b = hi + ctr.to_bytes(8, "big") + r.randbytes(r.choice([5, 48, 70, 160]))
                ev += [{"ev": "base", "bytes": list(b)}, bx.open(k, "rust", "ctr", key, b)]
        for n in (range(65) if ctx.thorough or i == 0 else (0, 1, 16, 24, 31, 33, 48, 64)):
            if n != 32:
                k2 = (key + key)[:n]
                ev += [seal.key(k2, False), bx.open(k, "rust", "ctr", k2, b), bx.open(k, "rust", "ctr", k2, b, files.edit(cut=r.randrange(16))), bx.seal(k, "rust", "ctr", k2, key)]
        if i % 3 == 0:
            ev += [bx.round(k, "rust", "rust", "ctr", key, r.randbytes(ln)) for ln in (5000, 65536, 70001, 1 << 20, (1 << 20) + 13, (4 << 20) + 1) + (((17 << 20) + 5,) if ctx.thorough else ())]
        return ev
    seal.validate(ctx, bx.map(one, list(enumerate(keys))), "counter mode")

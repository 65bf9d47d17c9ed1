import random
import c11, files, fmt, scale, vk
LEVEL = "model_checking"
Q = fmt.P
def vals(rng, n):
    return [rng.choice([0, 1, Q - 1, Q - 2, 2, rng.randrange(Q), rng.randrange(1 << 64), Q // 2, Q // 2 + 1, 1 << 253]) for _ in range(n)]
def make(rng, i, n):
    order = [(1, 2), (9, 1, 2), (1, 7, 2, 8), (1, 2, 9), (3, 1, 2)][i % 5]
    return fmt.wtns(vals(rng, n), prime=rng.choice([Q, rng.getrandbits(256)]), order=order, extra=[(t, rng.randbytes(rng.randrange(20))) for t in order if t > 2], raw=True)
def offsets(b):
    o, r = 12, [(0, 4), (4, 4), (8, 4)]
    for _ in range(int.from_bytes(b[8:12], "little")):
        t, s = int.from_bytes(b[o:o + 4], "little"), int.from_bytes(b[o + 4:o + 12], "little")
        r += [(o, 4), (o + 4, 8)] + ([(o + 12, 4), (o + 48, 4)] if t == 1 else [])
        o += 12 + s
    return r
def run(ctx):
    R = files.Readers(ctx, timeout=10)
    jobs = []
    for i in range(200 if ctx.thorough else 60):
        rng = random.Random(f"{ctx.seed}-{i}")
        b = make(rng, i, 1 + rng.randrange(12))
        E = [files.NOPE]
        jobs.append((b, E))
        # values at and above the order of the field, anywhere; other widths
        v = vals(rng, 6)
        v[rng.randrange(6)] = rng.choice([Q, Q + 1, 2 * Q - 1, 2 ** 256 - 1, Q + (1 << 200), Q ^ 1, Q ^ (1 << 128), Q ^ (1 << 240), Q | 2])
        jobs.append((fmt.wtns(v, raw=True), [files.NOPE]))
        w = rng.choice([33, 40, 48, 64, 31, 16, 8, 1])
        v = [rng.choice([rng.randrange(min(Q, 256 ** w)), min(Q, 256 ** w) - 1, rng.choice([rng.randrange(256 ** w), Q, Q + 7, rng.randrange(Q, 2 ** 256), 2 ** 256 - 1, 2 ** 256, 2 ** 256 + 3]) if w > 32 and rng.random() < .3 else 1]) for _ in range(5)]
        jobs.append((fmt.wtns(v, prime=rng.randrange(256 ** w), fs=w, raw=True), [files.NOPE]))
    for i in range(20 if ctx.thorough else 5):
        rng = random.Random(f"{ctx.seed}-d{i}")
        b = make(rng, i, 4)
        E = c11.edits(rng, b, offsets(b), ctx.thorough)
        jobs += [(b, E[j:j + 100]) for j in range(0, len(E), 100)]
    jobs += [(b, [files.NOPE]) for b in [b"", b"wtns", b"r1cs" + bytes(40), bytes(64), b"wtns\x02\0\0\0\0\0\0\0", b"wtns\x02\0\0\0\xff\xff\xff\xff", fmt.wtns([], raw=True), fmt.wtns([1], order=(1,)), fmt.wtns([1], order=(2,)), fmt.wtns([1, 2, 3, 4], order=(2, 1)),
             fmt.wtns([1, 2], n=0), fmt.wtns([1, 2], n=1), fmt.wtns([1, 2], n=3), fmt.wtns([1, 2], n=2 ** 32 - 1), fmt.wtns([1, 2], n=2 ** 27)]
             + [b"wtns\x02\0\0\0" + ctx.rng.randbytes(ctx.rng.randrange(100)) for _ in range(40)]]
    def one(k, job):
        b, E = job
        return [{"ev": "base", "bytes": list(b)}] + [x for e in E for x in (R.wtns_cli(k, b, e), R.wtns_js(k, b, e))]
    tr = R.map(one, jobs)
    ctx.count("reads", sum(e["ev"] == "wtns" for t in tr for e in t))
    ctx.count("rejected", sum(e.get("out") == "err" for t in tr for e in t))
    ctx.count("accepted", sum(e.get("out") == "ok" for t in tr for e in t))
    ctx.sample(tr[0][1:3])
    files.validate(ctx, tr, ["faithful", "malformed"], "witness files")
    names = ["medium", "wires"]
    ds = {n: (ctx.driver(vk.exe("std-drv")), ctx.driver(vk.exe("io-drv"))) for n in names}
    scale.perform(ctx, None, names, lambda x: scale.readers(x, *ds[x.c["name"]]), ["read"], "witness files")

import itertools, random
from concurrent.futures import ThreadPoolExecutor
import files, scale, sysd, vk
LEVEL = "model_checking"
NAMES = ["main.a", "main.b", "main.a[0]", "main.a[1][2]", "main.sub.x", "main.", "main", "mainx.a", "main.main.a", "sub.main.a", "Main.a", "a", "", "main.é☃𝒳", "main. a", "main.A b", "main.a ", "main.__proto__", "main.constructor", "main.0", "main.a\rb", "main.a\fb", "main.a\vb", "main.a\tb", "main.\x1c\x1d\x00", "main.\"a\"", "main.a;b", "#main.a", "main.a\\n"]
BLANKS = " \t" * 4 + "\r\f\v"
def num(r):
    return r.choice(["0", "1", "2", "3", "7", "-1", "-2", "-17", "-1000000", "12", "007", "100", "65536", "99999999", "-99999999999", "21", "+4", "-0", "+0", "-007", "2147", "-00"])
def sp(r, p=0.2):
    return "".join(r.choice(BLANKS) for _ in range(r.randrange(1, 4))) if r.random() < p else ""
def line(r):
    x = r.random()
    if x < 0.06: return sp(r, 0.7)
    f = [num(r), num(r), num(r), r.choice(NAMES)]
    f = [sp(r) + y + sp(r) for y in f]
    if x < 0.12: f = f[:r.randrange(4)]
    elif x < 0.18: f = f + [r.choice(["", "main.a", "5", " "])] * r.randrange(1, 3)
    elif x < 0.21: f[1] = r.choice(["", "x", "1.5", "5x", "-", "0x10", "99999999999", "1 2", "+"])
    elif x < 0.25: f[r.choice([0, 2])] = r.choice(["", "-1", " ", "lbl"])
    return ",".join(f)
def text(r):
    nl = r.choice(["\n", "\n", "\r\n"])
    t = nl.join(line(r) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9])))
    return r.choice(["", "", "", "\n", "\n\n", " ", "\r\n"]) + t + r.choice(["", nl, nl, nl + nl, "  ", nl + " "])
def cps(s): return [ord(c) for c in s]
def run(ctx):
    ctx.build("std-drv", "io-drv")
    N = 6
    rs = [ctx.driver(vk.exe("std-drv")) for _ in range(N)]
    dest = sysd.build_js(ctx)
    js = [sysd.jsdrv(ctx, dest) for _ in range(N)]
    def parse(k, t, mx, enc):
        a = rs[k].call({"op": "sym", "text": t, "max": None if mx < 0 else mx})
        b = js[k].call({"op": "sym", "text": t, "max": None if mx < 0 else mx})
        prs = lambda x: [[enc(p[0]), p[1]] for p in x]
        e = {"max": mx, "out": "ok" if "ok" in a else "err" if "err" in a else "crash", "map": [], "own": [], "jout": sysd.out_js(b), "jmap": [], "jown": []}
        if "ok" in a: e.update(map=prs(a["ok"]), own=prs(a["inputs"]))
        if "ok" in b: e.update(jmap=prs(b["ok"]["map"]), jown=prs(b["ok"]["inputs"]))
        return e
    r = ctx.rng
    # short texts: every pair of a set of lines, then random ones
    one = ["1,1,0,main.a", "2,2,0,main.a", "3,-1,0,main.a", "4,0,0,main.b", "5,3,1,main.sub.a", "6,4,1,sub.main.a", "", "   ", "7,8,9", "1,2,3,4,main.a", "1,5,0,main", " 9 , 6 , 0 , main.c ", "1,7,0,main.a b", "1,2,0,main.main.a", "1,9,0,"]
    texts = [nl.join(p) + end for p in itertools.product(one, repeat=2) for nl, end in (("\n", ""), ("\r\n", "\r\n"))]
    if ctx.thorough:
        texts += ["\n".join(p) + "\n" for p in itertools.product(one, repeat=3)]
    texts += [text(random.Random(f"{ctx.seed}-{i}")) for i in range(30000 if ctx.thorough else 2500)]
    jobs = [(t, r.choice([-1, -1, 0, 1, 2, 5, 12, 100000])) for t in texts]
    def part(k):
        return [dict({"ev": "text", "text": cps(t), "src": t}, **parse(k, t, mx, cps)) for t, mx in jobs[k::N]]
    big = []
    for i in range(12 if ctx.thorough else 4):
        q = random.Random(f"{ctx.seed}-big-{i}")
        n = q.choice([60, 150, 300])
        pool = ["x%d" % q.randrange(n) for _ in range(n)]
        ls = []
        for j in range(n):
            own = q.random() < 0.6
            nm = q.choice(pool) + ("[%d]" % q.randrange(9) if q.random() < 0.3 else "")
            ls.append([("main." if own else "main_1.") + nm, nm if own else "", q.choice([-1, q.randrange(n), q.randrange(1 << 30), 0])])
        big.append((ls, q.choice([-1, 5, n // 2, 1 << 29])))
    def biggie(k):
        o = []
        for ls, mx in big[k::N]:
            t = "".join(f"{j + 1},{x[2]},{j % 7},{x[0]}\n" for j, x in enumerate(ls))
            o.append(dict({"ev": "lines", "lines": ls}, **parse(k, t, mx, lambda s: s)))
        return o
    with ThreadPoolExecutor(N) as ex:
        tr = list(ex.map(lambda k: part(k) + biggie(k), range(N)))
    ctx.count("texts", len(jobs))
    ctx.count("large_files", len(big))
    ctx.sample([dict(e, text=None) for e in tr[0][:3]])
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: ctx.validate("SymTrace", cfg, g, "symbol files", n_traces=len(g), describe=lambda e: str({k: v for k, v in e.items() if k in ("src", "max", "out", "jout")})[:400]), tr))
    names = ["matrix", "statement", "wires"]
    ds = {n: (ctx.driver(vk.exe("std-drv")), sysd.jsdrv(ctx, dest)) for n in names}
    scale.perform(ctx, None, names, lambda x: scale.symbols(x, *ds[x.c["name"]]), ["sym"], "symbol files")

import json, os, random
from concurrent.futures import ThreadPoolExecutor
import files, vk
LEVEL = "model_checking"
CH = ["a", "b", "é", "☃", "𝒳", "\"", "\\", "/", "\n", "\u0001", " ", ",", "]", "}", "0", "-", "\u2028", "\ufeff", "\u00ff", "ࠀ", "\uffff", "\U0010ffff", "\ud7ff"]
def js_str(r, s):
    o = ""
    for c in s:
        if c in "\"\\" or ord(c) < 32 or r.random() < 0.15:
            short = {"\"": "\\\"", "\\": "\\\\", "\n": "\\n", "/": "\\/", "\t": "\\t", "\r": "\\r", "\b": "\\b", "\f": "\\f"}
            if c in short and r.random() < 0.7: o += short[c]
            else:
                h = "%04x" % ord(c) if ord(c) < 65536 else None
                u = "\\u" + (h if h else "%04x\\u%04x" % (0xd800 + (ord(c) - 65536 >> 10), 0xdc00 + (ord(c) - 65536 & 1023)))
                o += u if r.random() < 0.5 else "\\u".join(x.upper() for x in u.split("\\u"))
        else: o += c
    return '"' + o + '"'
def ws(r): return "".join(r.choice(" \t\n\r") for _ in range(r.randrange(3))) if r.random() < 0.25 else ""
def name(r): return "".join(r.choice(CH) for _ in range(r.randrange(4))) if r.random() < 0.4 else r.choice(["a", "b", "in", "x1", "root", "c"])
def number(r):
    k = r.random()
    v = r.choice([0, 1, 2, 10, 255, 2 ** 31, 2 ** 32, 2 ** 53 + 1, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, r.randrange(1 << 64), r.randrange(1 << 20)])
    if k < 0.25: return str(-min(v, 2 ** 63)) if v else "0"
    if k < 0.85: return str(v)
    if k < 0.95: return r.choice(["1.5", "0.0", "-0", "1e5", "1E+2", "2e-3", "-0.5e3", "18446744073709551616", "-9223372036854775809", "123456789012345678901234567890"])
    return r.choice(["01", "-", "+1", ".5", "1.", "1e", "0x1", "NaN", "Infinity", "1_0", "--1", "00"])
def value(r, d=0):
    k = r.random()
    if k < 0.3: return number(r)
    if k < 0.5: return js_str(r, "".join(r.choice(CH + list("0123456789")) for _ in range(r.choice([0, 1, 3, 8]))))
    if k < 0.6: return r.choice(["true", "false", "null"])
    if k < 0.95 and d < 5: return "[" + ws(r) + ",".join(ws(r) + value(r, d + 1) + ws(r) for _ in range(r.choice([0, 1, 2, 3, 4]))) + "]"
    if k < 0.97 and d < 4: return obj(r, d + 1)
    return number(r)
def obj(r, d=0):
    return "{" + ws(r) + ",".join(ws(r) + js_str(r, name(r)) + ws(r) + ":" + ws(r) + value(r, d) + ws(r) for _ in range(r.choice([0, 1, 2, 3, 5]))) + "}"
def deep(n, v="7"): return '{"d":' + "[" * n + v + "]" * n + "}"
def mutate(r, b):
    n, o = len(b), [files.NOPE]
    o += [files.edit(cut=r.randrange(n)) for _ in range(3)]
    tok = [list(x.encode()) for x in ("{", "}", "[", "]", ",", ":", '"', "\\", "0", "null", "/", "'", " ", "\t")] + [[128], [255], [0], [192, 128], [237, 160, 128], [239, 187, 191], [244, 144, 128, 128], [31], [127]]
    for _ in range(5):
        i = r.randrange(n)
        o.append(files.edit(at=i, vals=r.choice(tok)))
        o.append(files.edit(cut=i, app=r.choice(tok) + list(b[i:])))               # insertion
        o.append(files.edit(cut=i, app=list(b[i + 1:])))                            # deletion
    o += [files.edit(app=list(x.encode())) for x in r.sample([" ", "\n", "{}", "0", ",", "}", "\x00", "//"], 2)]
    return o
def run(ctx):
    ctx.build("std-drv")
    N = 6
    ds = [ctx.driver(vk.exe("std-drv")) for _ in range(N)]
    r = ctx.rng
    texts = [obj(random.Random(f"{ctx.seed}-{i}")) for i in range(4000 if ctx.thorough else 350)]
    texts += [deep(n, v) for n in (1, 2, 10, 60, 99, 120, 140, 1000) for v in ("7", "", "[1,2],3", '"x",true,null')]
    texts += ["[]", "1", '"a"', "null", "", " ", "{", '{"a":1}{"b":2}', '{"a":1,"a":[2,3]}', '{"a":1,"a":[]}', '\ufeff{"a":1}', '{"a":[1,[2,[3,[4]],5],[[6]]]}', '{a:1}', "{'a':1}", '{"a":1,}', '{"a":[1,]}', '{"a" 1}', '{"a":tru}', '{"a":"\n"}', '{"a":"\\ud800"}', '{"a":"\\ud834\\udcb3"}', '{"a":"\\x41"}', '{"a":"\\u12"}', '{"a":{"b":1},"c":[{"d":2},3]}', '{"a":"007","b":"0x1f","c":" 5 ","d":"-3","e":""}']
    texts += ['{"k":[' + ",".join(str(i) for i in range(400)) + "]}", "{" + ",".join('"k%d":[%d,"%d"]' % (i, i, -i) for i in range(80)) + "}"]
    def part(k):
        o = []
        p = ctx.scratch(f"in{k}.json")
        for i in range(k, len(texts), N):
            b = texts[i].encode("utf-8", "surrogatepass")
            o.append({"ev": "base", "bytes": list(b), "src": texts[i][:200]})
            E = mutate(random.Random(f"{ctx.seed}m{i}"), b) if 0 < len(b) < 400 else [files.NOPE]
            if b and len(b) < (60 if ctx.thorough else 30): E += [files.edit(cut=c) for c in range(len(b))]
            for e in E:
                with open(p, "wb") as f:
                    f.write(files.damaged(b, e))
                x = ds[k].call({"op": "inputs", "path": p})
                c = lambda s: [ord(y) for y in s]
                o.append({"ev": "load", **e, "out": files.Readers.out(None, x), "val": [[c(key), [c(s) for s in vs]] for key, vs in x.get("ok", [])], "src": texts[i][:120]})
        for j, (rows, cols, names) in enumerate([(0, 70000, 1), (300, 300, 1), (66000, 1, 1), (0, 1, 66000), (2, 40000, 2), (70, 70, 20)] + ([(0, 1100000, 1), (1100, 1000, 1), (0, 16, 70000)] if ctx.thorough else [])):
            if j % N != k: continue
            rr = random.Random(f"{ctx.seed}-series{j}")
            num = lambda v: str(v) if rr.random() < 0.5 else f'"{v}"'
            def sig(s):
                m = iter(range(7 * s, 7 * (s + max(rows, 1) * cols), 7))
                row = lambda: "[" + ",".join(num(next(m)) for _ in range(cols)) + "]"
                return row() if not rows else "[" + ",".join(row() for _ in range(rows)) + "]"
            with open(p, "w") as f: f.write("{" + ",".join(f'"k{s}":{sig(s)}' for s in range(names)) + "}")
            x = ds[k].call({"op": "inputs", "path": p})
            got = dict(x.get("ok", []))
            number = lambda s: int(s) if s.isascii() and s.isdigit() and s == str(int(s)) else -1
            o.append({"ev": "series", "rows": rows, "cols": cols, "names": names, "out": files.Readers.out(None, x), "val": [[number(v) for v in got.get(f"k{s}", [])] for s in range(len(got))], "src": f"{names} x {rows} x {cols}"})
        os.path.exists(p) and os.unlink(p)
        for q in (p, ctx.dir, "", p + "/x"):
            o.append({"ev": "file", "out": files.Readers.out(None, ds[k].call({"op": "inputs", "path": q}))})
        return o
    with ThreadPoolExecutor(N) as ex:
        tr = list(ex.map(part, range(N)))
    ctx.count("documents", len(texts))
    ctx.count("loadings", sum(e["ev"] == "load" for t in tr for e in t))
    ctx.sample([{k: e.get(k) for k in ("src", "out")} for e in tr[0][:6]])
    cfg = "INIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda g: ctx.validate("InputsTrace", cfg, g, "input documents", n_traces=len(g), describe=files.describe), tr))

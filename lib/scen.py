"""Scenarios of System performed by the two tools, as traces for SysTrace."""
import json, random
import fmt, sysd, vk

TOOLS = ("cli", "js")
def circ_of(c): return {k: c["circ"][k] for k in ("nout", "nin", "nprv", "nw", "cons")}

def design(ctx):
    q = not ctx.thorough
    ctx.tlc("SystemMC", f"CONSTANTS Systems <- {'MCOne' if q else 'MCSystems'}\n Msgs = {{1,2}}\n MaxPub = 2\n MaxReq = 1\nINIT Init\nNEXT Next\nINVARIANT Agreement Soundness Recorded NoOther Embedded\nCHECK_DEADLOCK FALSE\n", workers=8, timeout=800)

def text(doc):
    return json.dumps(doc, separators=(",", ":"), ensure_ascii=False)

def number(t):
    """as far as JavaScript numbers carry it"""
    f = float(t)
    return int(f) if f.is_integer() and abs(f) <= 2 ** 53 else f
def canon(t):
    try:
        return json.dumps(json.loads(t, parse_int=number, parse_float=number), sort_keys=True, separators=(",", ":"), ensure_ascii=True)
    except ValueError:
        return "?"

class Run:
    """Performs one case; collects events."""
    def __init__(self, t, case, seed):
        self.t, self.c = t, case
        self.rng = random.Random(f"{seed}-{case['seed']}")
        self.s = t.system(case, self.rng)
        self.ev = [{"ev": "case", "circ": circ_of(case), "sym": case["sym"]}]
        self.cts = []

    def encap(self, tool, doc):
        d = fmt.doc(doc, fmt.forms(self.rng))
        o, ct, key = self.s.encap(tool, text(d))
        self.ev.append({"ev": "encap", "tool": tool, "doc": doc, "out": o, "stmt": self.t.stmt(ct) if o == "ok" else [], "key": key if o == "ok" else "", "raw": "" if o == "ok" else key})
        self.cts.append(ct)
        return len(self.cts) if o == "ok" else 0

    def decap(self, tool, i, asg, circ=None, system=None):
        s = system or self.s
        o, key = s.decap(tool, self.cts[i - 1], asg)
        self.ev.append({"ev": "decap", "tool": tool, "ct": i, "circ": circ or circ_of(self.c), "asg": asg, "out": o, "key": key if o in ("ok", "leak") else "", "raw": "" if o == "ok" else key})

    def encrypt(self, tool, doc, msg, embed, more=None):
        d = dict(fmt.doc(doc, fmt.forms(self.rng)), **(more or {}))
        o, b = self.s.encrypt(tool, text(d), msg, embed)
        e = {"ev": "encrypt", "tool": tool, "doc": doc, "text": canon(text(d)), "embed": embed is not False, "msg": msg.hex(), "mlen": len(msg), "out": o, "bytes": list(b) if o == "ok" else [], "wlen": -1, "tlen": 0, "etext": "", "stmt": []}
        if o == "ok":
            r = self.t.iocall({"op": "ct", "ct": b[5:].hex()})
            if "ok" in r:
                e["wlen"] = r["ok"]["len"]
                e["stmt"] = [fmt.signed(x) for x in r["ok"]["pub"]]
            if e["embed"] and len(b) > 9 + e["wlen"] >= 9:
                e["tlen"] = int.from_bytes(b[5 + e["wlen"]:9 + e["wlen"]], "big")
                e["etext"] = canon(b[9 + e["wlen"]:9 + e["wlen"] + e["tlen"]].decode("utf-8", "replace"))
        self.ev.append(e)
        self.cts.append(b)
        return len(self.cts) if o == "ok" else 0

    def decrypt(self, tool, i, asg, pre=0, post=0):
        o, m = self.s.decrypt(tool, self.cts[i - 1], asg, pre, post)
        self.ev.append({"ev": "decrypt", "tool": tool, "ct": i, "circ": circ_of(self.c), "asg": asg, "out": o, "msg": m.hex()})

    def getpub(self, i, pre=0, post=0, fill=255):
        o, t = self.s.getpub(self.cts[i - 1], pre, post, fill)
        self.ev.append({"ev": "getpub", "ct": i, "out": o, "text": canon(t) if o == "ok" else ""})

def perform(ctx, tools, cases, f, seed=None):
    """f(run, case, i) on every case, in parallel; returns the events in order"""
    def one(ic):
        i, c = ic
        r = Run(tools, c, ctx.seed if seed is None else seed)
        f(r, c, i)
        return r.ev
    evs = [e for es in tools.map(one, list(enumerate(cases))) for e in es]
    ctx.count("tool_runs", sum(e["ev"] != "case" for e in evs))
    return evs

def validate(ctx, events, checks, what, n):
    cfg = 'CONSTANTS Checks = {%s}\nINIT Init\nNEXT Next\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n' % ",".join('"%s"' % c for c in checks)
    return ctx.validate("SysTrace", cfg, events, what, n_traces=n, describe=lambda e: json.dumps({k: v for k, v in e.items() if k != "bytes"})[:500])

import json, random, re
from concurrent.futures import ThreadPoolExecutor
import sysd, vk, wasmgen
LEVEL = "model_checking"
KINDS = ["encap", "decap", "encrypt", "decrypt"]
def run(ctx):
    q = not ctx.thorough
    cs = "{1,2,3}" if q else "{1,2,3,4}"
    if ctx.thorough:
        ctx.prove("InitProof")
    ctx.tlc("InitImpl", f"CONSTANTS Callers = {cs}\n Shared = TRUE\nSPECIFICATION Spec\nINVARIANT Guarded\nPROPERTY Refines Answered\nCHECK_DEADLOCK FALSE\n", workers=8)
    r = ctx.tlc("InitImpl", "CONSTANTS Callers = {1,2}\n Shared = FALSE\nSPECIFICATION Spec\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n", workers=4, design=False)
    if r.ok:
        raise vk.ToolError("the design check cannot tell a broken design")
    nc, ns, nt, cap = (3, 2, 3, 8) if q else (4, 3, 4, 10)
    t = ctx.tlc("InitGen", f"CONSTANTS NCalls = {nc}\n NSettle = {ns}\n NTurn = {nt}\n Cap = {cap}\nINIT GInit\nNEXT GNext\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", workers=1)
    sch = [json.loads(x) for x in re.findall(r'^"?SCHED (\[.*\])"?\s*$', t.out.replace('\\"', '"'), re.M)]
    if len(sch) < 500:
        raise vk.ToolError(f"{len(sch)} schedules")
    random.Random(ctx.seed).shuffle(sch)
    cap = 1600 if q else 30000
    sch = sch[:cap]
    dest = sysd.build_js(ctx)
    ctx.build("io-drv")
    w = ctx.scratch("id.wasm")
    with open(w, "wb") as f: f.write(wasmgen.program(2, [("a", range(1, 2))]))
    N = 8
    def part(k):
        d = sysd.jsdrv(ctx, dest)
        ev = []
        for i in range(k, len(sch), N):
            r = random.Random(f"{ctx.seed}-{i}")
            # callers of every kind; some of their operations are refused by the module
            kinds = r.choice([["encap"], ["decap"], KINDS, KINDS])
            n, steps = 0, []
            for x in sch[i]:
                if x == "c":
                    n += 1
                    steps.append({"do": "call", "who": n, "kind": r.choice(kinds), "bad": r.random() < 0.15})
                else:
                    steps.append({"do": {"r": "resolve", "j": "reject", "t": "turn"}[x]})
            y = d.call({"op": "schedule", "steps": steps, "lock": r.random() < 0.5, "end": r.choice(["resolve", "resolve", "reject"]), "init": r.choice(["promise"] * 8 + ["sync", "throw"]), "wasm_path": w})
            ev.append({"ev": "start", "sched": "".join(sch[i])})
            ev += y["ok"] if "ok" in y else [{"ev": "hang", "raw": str(y)[:300]}]
        d.close()
        return ev
    with ThreadPoolExecutor(N) as ex: tr = list(ex.map(part, range(N)))
    ctx.count("schedules", len(sch))
    ctx.sample(tr[0][:12])
    cfg = f"CONSTANTS Callers = {{1,2,3,4}}\nINIT TInit\nNEXT TNext\nINVARIANT Note\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n"
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: ctx.validate("InitTrace", cfg, x, "concurrent calls and initialisation", n_traces=sum(e["ev"] == "start" for e in x), describe=lambda e: json.dumps(e)[:300]), tr))
    seen = {k: sum(e["ev"] == k for x in tr for e in x) for k in ("op", "done", "fail", "init_bad", "init_ok")}
    ctx.notes["events"] = seen
    if min(seen.values()) < 20:
        raise vk.ToolError(f"vacuous: {seen}")

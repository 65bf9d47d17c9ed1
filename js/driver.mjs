// Driver for zkenc-js: one JSON request per line, one "@@{json}" answer per line.
import fs from "fs"; import util from "util"; import readline from "readline"; import { pathToFileURL } from "url"; import { createRequire } from "module";
const DIST = process.argv[2], url = f => pathToFileURL(DIST + "/src/" + f).href;
// what the package prints is dropped, or kept in a file
const said = process.env.ZK_OUT ? (...a) => fs.appendFileSync(process.env.ZK_OUT, util.format(...a) + "\n") : () => {};
for (const k of ["log", "error", "warn", "info", "debug", "trace", "dir", "table"]) console[k] = said;
const FD = Number(process.env.ZK_FD), send = o => { const b = Buffer.from("@@" + JSON.stringify(o) + "\n"); let i = 0; while (i < b.length) { try { i += fs.writeSync(FD, b, i); } catch (e) { if (e.code !== "EAGAIN") throw e; } } };
const hex = b => Buffer.from(b).toString("hex"), un = s => new Uint8Array(Buffer.from(s, "hex"));
// values a JSON text cannot carry: {"$big": "12"} is a bigint
const val = x => Array.isArray(x) ? x.map(val) : x && typeof x === "object" ? ("$big" in x ? BigInt(x.$big) : "$undef" in x ? undefined : Object.fromEntries(Object.entries(x).map(([k, v]) => [k, val(v)]))) : x;
const doc = v => val(typeof v === "string" ? JSON.parse(v) : v);
const file = (v, k) => v[k + "_path"] ? new Uint8Array(fs.readFileSync(v[k + "_path"])) : un(v[k] ?? "");
const big = a => a.map(x => x.toString());
const msg = e => { const m = e instanceof Error ? `${e.name}: ${e.message}` : String(e); if (m.includes("driver:")) return "driver: " + m; return m; };
// In lockstep, the asynchronous operations of the platform that overlap answer together, in either order: callers that
// are equally far then take their next steps one right after the other.
let locked = false, flying = 0, landed = [], flip = 0;
const land = () => { if (--flying === 0) setImmediate(() => { if (flying || !landed.length) return; const x = landed; landed = []; if (flip++ % 2) x.reverse(); for (const f of x) f(); }); };
const lockstep = (o, name) => { const f = o[name].bind(o); Object.defineProperty(o, name, { configurable: true, writable: true, value: (...a) => { if (!locked) return f(...a);
  const p = f(...a); flying++; return new Promise((ok, bad) => p.then(v => { landed.push(() => ok(v)); land(); }, e => { landed.push(() => bad(e)); land(); })); } }); };
for (const n of ["compile", "instantiate"]) lockstep(WebAssembly, n);
for (const n of ["importKey", "encrypt", "decrypt"]) lockstep(crypto.subtle, n);
const api = await import(url("index.js"));
const mods = {}; const mod = async f => mods[f] ??= await import(url(f));
const wasmCache = new Map();
const wasm = p => { if (!wasmCache.has(p)) wasmCache.set(p, new Uint8Array(fs.readFileSync(p))); return wasmCache.get(p); };
const view = (b, pre, post, fill, after) => { if (after !== undefined) { const t = un(after), u = new Uint8Array(pre + b.length + t.length).fill(fill ?? 0xff); u.set(b, pre); u.set(t, pre + b.length); return u.subarray(pre, pre + b.length); } if (!pre && !post) return b; const u = new Uint8Array(pre + b.length + post).fill(fill ?? 0xff); u.set(b, pre); return u.subarray(pre, pre + b.length); };
const snap = o => JSON.stringify(o, (k, v) => typeof v === "bigint" ? v + "n" : v);
let fresh = 0;
// The caller's side of the package's memory: callers use their buffers and input objects again for the next call,
// wipe results they no longer need and keep others.  An operation must leave its arguments as they are, must look at
// what they contain now, and must not touch what it returned earlier (see Memory in spec/).
const pools = new Map(), lent = [], kept = []; let turnNo = 0;
const lend = b => { lent.push([b, Buffer.from(b)]); return b; };
const use = (kind, b) => {
  if (turnNo % 4 === 3) return lend(b);
  const k = kind + b.length; let u = pools.get(k);
  if (!u) pools.set(k, u = new Uint8Array(b.length));
  u.set(b); return lend(u);
};
let lastDoc = null;
const useDoc = v => { const d = doc(v); if (turnNo % 3 !== 1 || !d || typeof d !== "object" || Array.isArray(d)) return lendDoc(d);
  if (!lastDoc) lastDoc = {}; for (const k of Object.keys(lastDoc)) delete lastDoc[k]; for (const k of Object.keys(d)) Object.defineProperty(lastDoc, k, { value: d[k], writable: true, enumerable: true, configurable: true }); return lendDoc(lastDoc); };
const lentDocs = [], lendDoc = d => { lentDocs.push([d, snap(d)]); return d; };
const out = b => { const h = hex(b); if (turnNo % 3 === 2) b.fill(0xee); kept.push([b, Buffer.from(b)]); if (kept.length > 24) kept.shift(); return h; };
function touched() {
  for (const [b, c] of lent) if (Buffer.compare(b, c)) return "an argument was changed";
  for (const [d, c] of lentDocs) if (snap(d) !== c) return "an input object was changed";
  for (const [b, c] of kept) if (Buffer.compare(b, c)) return "an earlier result was changed";
}
const seen = (kind, v, k) => v.pre || v.post || v.after !== undefined ? lend(view(un(v[k]), v.pre | 0, v.post | 0, v.fill, v.after)) : use(kind, un(v[k]));
const ops = {
  async ping() { return "pong"; },
  async encap(v) { const r = await api.encap({ r1csBuffer: use("r", file(v, "r1cs")), symContent: v.sym }, useDoc(v.inputs)); return { ct: out(r.ciphertext), key: out(r.key) }; },
  async decap(v) { return { key: out(await api.decap({ r1csBuffer: use("r", file(v, "r1cs")), wasmBuffer: lend(wasm(v.wasm_path)) }, use("c", un(v.ct)), useDoc(v.inputs))) }; },
  async encrypt(v) { const opt = v.opt === undefined ? [] : [doc(v.opt)]; const m = seen("m", v, "msg"); const r = await api.encrypt({ r1csBuffer: use("r", file(v, "r1cs")), symContent: v.sym }, useDoc(v.inputs), m, ...opt); return { ct: out(r.ciphertext), key: out(r.key) }; },
  async decrypt(v) { const c = seen("c", v, "ct"); return { msg: out(await api.decrypt({ r1csBuffer: use("r", file(v, "r1cs")), wasmBuffer: lend(wasm(v.wasm_path)) }, c, useDoc(v.inputs))) }; },
  async getpub(v) { const c = seen("c", v, "ct"); const r = api.getPublicInput(c); return { pub: JSON.stringify(r) }; },
  async gcm_enc(v) { return out(await (await mod("crypto.js")).aesGcmEncrypt(seen("k", v, "key"), seen("d", v, "data"))); },
  async gcm_dec(v) { return out(await (await mod("crypto.js")).aesGcmDecrypt(seen("k", v, "key"), seen("d", v, "data"))); },
  async nonces(v) { const m = await mod("crypto.js"); const o = []; const k = un(v.key), x = un(v.data), one = async () => hex((await m.aesGcmEncrypt(k, x)).subarray(0, 12)); const g = v.together || 1; for (let i = 0; i < v.n; i += g) o.push(...await Promise.all(Array.from({ length: g }, one))); return o; },
  async sym(v) { const s = await mod("sym_parser.js"); const m = s.parseSymFile(v.text); const i = v.max === undefined || v.max === null ? s.getInputSignals(m) : s.getInputSignals(m, v.max); const srt = x => [...x.entries()].sort((a, b) => Buffer.compare(Buffer.from(a[0]), Buffer.from(b[0]))); return { map: srt(m), inputs: srt(i) }; },
  async map(v) { const s = await mod("sym_parser.js"); const r = s.mapInputsToWires(doc(v.inputs), s.getInputSignals(s.parseSymFile(v.sym))); return [...r.entries()].sort((a, b) => a[0] - b[0]).map(([k, x]) => [k, x]); },
  // witness calculator: {wasm_path, steps:[{call, input, sanity}], concurrent, cjs}
  async wc(v) {
    const build = v.cjs && fs.existsSync(DIST + "/witness_calculator.cjs") ? createRequire(DIST + "/x.js")(DIST + "/witness_calculator.cjs") : (await mod("witness_calculator.js")).default;
    const code = v.wasm_path ? wasm(v.wasm_path) : un(v.wasm);
    const wc = await build(code, v.opts);
    const one = async s => { const inp = doc(s.input), before = snap(inp); try {
      const r = await wc[{ num: "calculateWitness", bin: "calculateBinWitness", wtns: "calculateWTNSBin" }[s.call]](inp, s.sanity);
      return { r, num: s.call === "num", mut: snap(inp) !== before };
    } catch (e) { return { err: msg(e), mut: snap(inp) !== before }; } };
    const res = [];
    if (v.concurrent) { locked = true; try { res.push(...await Promise.all(v.steps.map(one))); } finally { locked = false; } } else for (const s of v.steps) res.push(await one(s));
    // read only now: a later calculation must not change an earlier result
    for (const x of res) if (x.r !== undefined) { x.ok = x.num ? big(x.r) : hex(x.r); delete x.r; delete x.num; }
    return { res, n32: wc.n32, prime: wc.prime.toString(), size: wc.witnessSize, version: wc.version };
  },
  async calc(v) { const w = await mod("witness.js"); const c = wasm(v.wasm_path), i = doc(v.input ?? {});
    if (v.fn === "array") return big(await w.calculateWitnessArray(c, i));
    if (v.fn === "info") { const r = await w.getCircuitInfo(c); return { ...r, prime: r.prime.toString() }; }
    return hex(await w.calculateWitness(c, i)); },
  // a session over objects that stay alive: {init:{circ, doc, msg, key}, contents:{name: value}, steps, sym, wasm_path}
  async memory(v) {
    const z = await import(url("zkenc.js") + "?fresh=" + (++fresh)), C = await mod("crypto.js"), S = await mod("sym_parser.js");
    const build = (await mod("witness_calculator.js")).default, code = wasm(v.wasm_path), wc = await build(code);
    const isBuf = o => ArrayBuffer.isView(o), bytes = o => Buffer.from(o.buffer, o.byteOffset, o.byteLength);
    const text = o => o === null ? "none" : isBuf(o) ? (o.byteLength && bytes(o).every(x => x === 0xee) ? "wiped" : "b:" + bytes(o).toString("hex"))
      : o instanceof Map ? (o.size ? "m:" + JSON.stringify([...o.entries()].sort((a, b) => a[0] < b[0] ? -1 : 1)) : "wiped")
      : Array.isArray(o) ? (o.length && o.every(x => x === -1n) ? "wiped" : "a:" + o.map(String).join(",")) : (Object.keys(o).length ? "o:" + snap(o) : "wiped");
    const wipe = o => { if (o === null) return; if (isBuf(o)) bytes(o).fill(0xee); else if (o instanceof Map) o.clear(); else if (Array.isArray(o)) o.fill(-1n); else for (const k of Object.keys(o)) delete o[k]; };
    const put = (o, from) => { if (isBuf(o)) { if (o.byteLength !== from.byteLength) throw new Error("driver: sizes"); bytes(o).set(bytes(from)); } else if (o instanceof Map) { const e = [...from.entries()]; o.clear(); for (const [k, x] of e) o.set(k, x); }
      else if (Array.isArray(o)) { for (let i = 0; i < o.length; i++) o[i] = from[i]; } else { const e = Object.entries(from); wipe(o); Object.assign(o, Object.fromEntries(e)); } };
    const make = n => { const x = v.contents[n]; return typeof x === "string" ? un(x) : doc(x); };
    const obj = v.init.map(make), E = { symContent: v.sym.s1 }, D = { wasmBuffer: obj[4] }, WT = await mod("witness.js");
    const readAll = () => obj.map(text), res = [{ rd: readAll() }];
    let group = [];
    for (const s of v.steps) {
      const A = s.a ? obj[s.a - 1] : undefined, B = s.b ? obj[s.b - 1] : undefined, Cc = s.c ? obj[s.c - 1] : undefined;
      if (s.ev !== "call") { if (s.ev === "set") put(A, make(s.v)); else if (s.ev === "wipe") wipe(A); else if (A !== null && B !== null) put(B, A); res.push({ out: "ok", rd: readAll(), res: [] }); continue; }
      const f = { encap: async () => { const r = await z.encap({ ...E, ...(s.v === "3" && { symContent: v.sym.s3 }), r1csBuffer: A }, B); return [r.ciphertext, r.key]; },
        encrypt: async () => { const r = await z.encrypt({ ...E, ...(s.v === "3" && { symContent: v.sym.s3 }), r1csBuffer: A }, B, Cc, { includePublicInput: s.v !== "0" }); return [r.ciphertext, r.key]; },
        decap: async () => [await z.decap({ ...D, r1csBuffer: A }, B, Cc)], decrypt: async () => [await z.decrypt({ ...D, r1csBuffer: A }, B, Cc)],
        getpub: async () => [z.getPublicInput(A)], enc: async () => [await C.aesGcmEncrypt(A, B)], dec: async () => [await C.aesGcmDecrypt(A, B)],
        num: () => wc.calculateWitness(A, 0).then(r => [r]), bin: () => wc.calculateBinWitness(A, 0).then(r => [r]), wtns: () => wc.calculateWTNSBin(A, 0).then(r => [r]),
        arr: () => WT.calculateWitnessArray(D.wasmBuffer, A).then(r => [r]), file: () => WT.calculateWitness(D.wasmBuffer, A).then(r => [r]),
        sym: async () => [S.parseSymFile(v.sym[s.v])], sig: async () => [S.getInputSignals(A)] };
      group.push([s, [A, B, Cc].includes(null) ? null : f[s.op]().then(r => ({ r }), e => ({ e: msg(e) }))]);
      if (s.g) continue;
      locked = group.length > 1;
      for (const [q, p] of group) {
        const x = p && await p; let o = "ok", r = [];
        if (!x) o = "skip"; else if ("e" in x) { if (x.e.includes("driver:")) throw new Error(x.e); o = "err"; }
        else { r = x.r; if (r.length !== q.k || r.some(y => y === null || typeof y !== "object")) throw new Error("driver: results"); }
        while (r.length < q.k) r.push(null);
        obj.push(...r); res.push({ out: o, rd: [], res: o === "ok" ? r.map(text) : [] });
      }
      locked = false; group = []; res.at(-1).rd = readAll();
    }
    return res;
  },
  // a schedule over concurrent callers of a fresh instance of the package
  async schedule(v) { try { locked = !!v.lock; return await schedule(v); } finally { locked = false; } },
};
async function schedule(v) {
  const z = await import(url("zkenc.js") + "?fresh=" + (++fresh));
  const log = [], settle = [];
  const key = x => new Uint8Array(32).fill(x), wire1 = w => Number(Buffer.from(w).readUInt32LE(108));   // the first public wire of a wtns
  globalThis.__zk = {
    init() {
      const i = settle.length; log.push({ ev: "init_start" });
      if (v.init === "sync") { settle.push({ used: 1 }); log.push({ ev: "init_ok" }); return undefined; }
      if (v.init === "throw") { settle.push({ used: 1 }); log.push({ ev: "init_bad" }); throw new Error("no wasm"); }
      return new Promise((a, b) => settle.push({ a, b }));
    },
    encap(r, w) { log.push({ ev: "op", who: r[0], op: "encap", ok: !r[1], w: wire1(w), c: r[0] }); if (r[1]) throw "refused " + r[0]; return { ciphertext: new Uint8Array([r[0], r[0]]), key: key(r[0]) }; },
    decap(r, w, c) { log.push({ ev: "op", who: r[0], op: "decap", ok: !r[1], w: wire1(w), c: c[0] }); if (r[1]) throw "refused " + r[0]; return key(r[0]); },
  };
  const turn = () => new Promise(r => setImmediate(r));
  const pend = [];
  try {
    for (const s of v.steps) {
      if (s.do === "call") {
        const id = s.who, bad = s.bad ? 1 : 0;
        const r1csBuffer = new Uint8Array([id, bad]), E = { r1csBuffer, symContent: "1,1,0,main.a" }, D = { r1csBuffer, wasmBuffer: wasm(v.wasm_path) }, inp = { a: id };
        const C = await mod("crypto.js"), head = [1, 0, 0, 0, 2, id, id, 0, 0, 0, 2, 123, 125];
        const sealed = s.kind === "decrypt" ? new Uint8Array([...head, ...await C.aesGcmEncrypt(key(id), new Uint8Array([id, id, id]))]) : null;
        log.push({ ev: "call", who: id, kind: s.kind });
        const p = s.kind === "encap" ? z.encap(E, inp).then(r => [...r.ciphertext, ...r.key])
          : s.kind === "decap" ? z.decap(D, new Uint8Array([id]), inp).then(r => [...r])
          : s.kind === "decrypt" ? z.decrypt(D, sealed, inp).then(r => [...r])
          : z.encrypt(E, inp, new Uint8Array([id])).then(async r => { const k = r.ciphertext, pl = 9 + 2 + Buffer.from(k).readUInt32BE(7); return [k[5], k[6], ...r.key, ...await C.aesGcmDecrypt(key(id), k.subarray(pl))]; });
        pend.push(p.then(r => log.push({ ev: "done", who: id, res: r }), e => log.push({ ev: "fail", who: id, res: [], msg: msg(e) })));
      } else if (s.do === "resolve") { const i = settle.findIndex(x => !x.used); if (i >= 0) { settle[i].used = 1; log.push({ ev: "init_ok" }); settle[i].a(); } }
      else if (s.do === "reject") { const i = settle.findIndex(x => x && !x.used); if (i >= 0) { settle[i].used = 1; log.push({ ev: "init_bad" }); settle[i].b(new Error("no wasm")); } }
      else if (s.do === "turn") { await turn(); await turn(); }
    }
    // let everything finish: all outstanding initialisations succeed or fail as the scenario ends
    const deadline = Date.now() + 5000;
    for (;;) {
      const i = settle.findIndex(x => !x.used);
      if (i >= 0) { settle[i].used = 1; if (v.end === "reject") { log.push({ ev: "init_bad" }); settle[i].b(new Error("no wasm")); } else { log.push({ ev: "init_ok" }); settle[i].a(); } }
      let all = false; await Promise.race([Promise.all(pend).then(() => { all = true; }), new Promise(r => setTimeout(r, 30))]);
      if (all && settle.every(x => x.used)) { log.push({ ev: "end" }); break; }
      if (Date.now() > deadline) { log.push({ ev: "hang" }); break; }
    }
  } finally { globalThis.__zk = undefined; }
  return log;
}
process.on("unhandledRejection", () => {});
for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  if (!line) continue;
  const v = JSON.parse(line);
  let o; turnNo++; lent.length = lentDocs.length = 0;
  try { if (!ops[v.op]) throw new Error("driver: unknown op " + v.op); o = { ok: await ops[v.op](v) }; }
  catch (e) { const m = msg(e); o = m.startsWith("driver:") ? { panic: m } : { err: m, kind: e instanceof Error ? e.name : typeof e }; }
  const t = touched(); if (t) { o = { altered: t }; kept.length = 0; }
  send(o);
}

// Stand-in for the wasm-pack output: the operations of zkenc-js/src/lib.rs run natively (jsbridge, one
// process per module), or through the hooks of a scenario.
import fs from "fs"; import path from "path"; import { spawn, spawnSync } from "child_process";
const C = fs.constants;
let io = null;
function start() {
  const d = fs.mkdtempSync(path.join(process.env.ZK_TMP, "b"));
  // both ends of a named pipe: nobody holds a spare one, so the death of either side is seen by the other
  const pipe = name => { const p = path.join(d, name); if (spawnSync("mkfifo", [p]).status !== 0) throw new Error("driver: mkfifo"); const t = fs.openSync(p, C.O_RDWR), r = fs.openSync(p, C.O_RDONLY), w = fs.openSync(p, C.O_WRONLY); fs.closeSync(t); return { r, w }; };
  const a = pipe("req"), b = pipe("ans");
  const o = process.env.ZK_OUT ? fs.openSync(process.env.ZK_OUT, "a") : "ignore";   // what the module prints
  const p = spawn(process.env.ZK_BRIDGE, [], { stdio: [a.r, o, o, b.w] });
  if (o !== "ignore") fs.closeSync(o);
  p.unref(); p.on("error", () => {});
  fs.closeSync(a.r); fs.closeSync(b.w);
  fs.rmSync(d, { recursive: true, force: true });
  io = { w: a.w, r: b.r };
}
function stop() { fs.closeSync(io.w); fs.closeSync(io.r); io = null; }
const u32 = n => { const b = Buffer.alloc(4); b.writeUInt32LE(n); return b; };
function read(n) { const b = Buffer.alloc(n); let i = 0; while (i < n) { const k = fs.readSync(io.r, b, i, n - i, null); if (!k) throw new Error("eof"); i += k; } return b; }
function bridge(cmd, files) {
  for (const b of files) if (!(b instanceof Uint8Array)) throw new TypeError("expected a Uint8Array");
  if (!io) start();
  let st, v;
  try {
    const q = Buffer.concat([Buffer.from([cmd]), u32(files.length), ...files.flatMap(b => [u32(b.length), Buffer.from(b)])]);
    let i = 0; while (i < q.length) i += fs.writeSync(io.w, q, i);
    st = read(1)[0]; const n = read(4).readUInt32LE(); v = Array.from({ length: n }, () => new Uint8Array(read(read(4).readUInt32LE())));
  } catch (e) { stop(); throw new WebAssembly.RuntimeError("unreachable"); }     // the module is gone
  if (st === 1) throw Buffer.from(v[0]).toString();            // wasm-bindgen throws the JsValue (a string)
  if (st === 2) throw new WebAssembly.RuntimeError("unreachable");
  return v;
}
export function init() { const h = globalThis.__zk; return h && h.init ? h.init() : undefined; }
export default init;
export function wasm_encap(r, w) { const h = globalThis.__zk; if (h && h.encap) return h.encap(r, w); const [ciphertext, key] = bridge(1, [r, w]); return { ciphertext, key, free() {} }; }
export function wasm_decap(r, w, c) { const h = globalThis.__zk; if (h && h.decap) return h.decap(r, w, c); return bridge(2, [r, w, c])[0]; }

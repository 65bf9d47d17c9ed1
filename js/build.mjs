// node build.mjs DEST: the package's TypeScript compiled file by file into DEST/src, with a stand-in
// for the wasm-pack output in DEST/pkg.
import fs from "fs"; import path from "path"; import { createRequire } from "module";
const es = createRequire("/opt/veriftools/node/node_modules/x.js")("esbuild");
const SRC = "/repo/packages/zkenc-js/src", dest = process.argv[2];
const walk = (d, r = "") => fs.readdirSync(path.join(d, r), { withFileTypes: true }).flatMap(e => e.isDirectory() ? walk(d, path.join(r, e.name)) : [path.join(r, e.name)]);
for (const f of walk(SRC)) {
  if (!f.endsWith(".ts") || f.endsWith(".test.ts") || f.endsWith(".d.ts")) continue;
  const o = path.join(dest, "src", f.replace(/\.ts$/, ".js"));
  fs.mkdirSync(path.dirname(o), { recursive: true });
  fs.writeFileSync(o, es.transformSync(fs.readFileSync(path.join(SRC, f), "utf8"), { loader: "ts", format: "esm", target: "es2022", sourcefile: f }).code);
}
fs.mkdirSync(path.join(dest, "pkg"), { recursive: true });
fs.copyFileSync(new URL("./pkg.js", import.meta.url), path.join(dest, "pkg", "zkenc_js.js"));
fs.writeFileSync(path.join(dest, "package.json"), '{"type":"module"}');
// the CommonJS original that is shipped beside it
if (fs.existsSync(path.join(SRC, "witness_calculator.js"))) fs.copyFileSync(path.join(SRC, "witness_calculator.js"), path.join(dest, "witness_calculator.cjs"));

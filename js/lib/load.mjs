// Loads the TypeScript package of the working tree: every source file transpiled on its own (no type checking), as tsc would emit it.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { pathToFileURL } from "node:url";
const require = createRequire("/opt/veriftools/node/node_modules/");
const ts = require("typescript");
const REPO = process.env.VERIF_REPO ?? "/repo";
export const SRC = path.join(REPO, "packages/zkenc-js/src");
const cache = new Map();
let trees = 0;

function files(dir, rel = "") {
  const out = [];
  for (const e of fs.readdirSync(path.join(dir, rel), { withFileTypes: true })) {
    const r = path.join(rel, e.name);
    if (e.isDirectory()) out.push(...files(dir, r));
    else out.push(r);
  }
  return out;
}
/// Make a fresh copy of the package (fresh module state). `pkg` is the source of the WebAssembly module stand-in.
/// variant "dist": what tsc emits. variant "src": as the test runner resolves it, with witness_calculator.js used where it exists.
export function tree(scratch, { pkg = "", variant = "dist" } = {}) {
  const root = path.join(scratch, `tree-${trees++}`);
  const out = path.join(root, "dist");
  fs.mkdirSync(path.join(root, "pkg"), { recursive: true });
  fs.writeFileSync(path.join(root, "package.json"), '{"type":"module"}');
  fs.writeFileSync(path.join(root, "pkg", "zkenc_js.js"), pkg || "export function init(){} export function wasm_encap(){throw new Error('no module')} export function wasm_decap(){throw new Error('no module')}");
  const all = files(SRC);
  const tsStems = new Set(all.filter((f) => f.endsWith(".ts")).map((f) => f.slice(0, -3)));
  for (const f of all) {
    if (/\.(test|spec)\.ts$/.test(f) || f.endsWith(".d.ts")) continue;
    const dst = path.join(out, f.replace(/\.ts$/, ".js"));
    fs.mkdirSync(path.dirname(dst), { recursive: true });
    const src = path.join(SRC, f);
    if (f.endsWith(".ts")) {
      if (!cache.has(src)) cache.set(src, ts.transpileModule(fs.readFileSync(src, "utf8"), { compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020, esModuleInterop: true }, fileName: src }).outputText);
      fs.writeFileSync(dst, cache.get(src));
    } else if (f.endsWith(".js") && !tsStems.has(f.slice(0, -3))) {
      fs.copyFileSync(src, dst);
    }
  }
  if (variant === "src") {
    const js = path.join(SRC, "witness_calculator.js");
    if (!fs.existsSync(js)) return null;
    fs.copyFileSync(js, path.join(out, "witness_calculator.cjs"));
    fs.writeFileSync(path.join(out, "witness_calculator.js"), "import m from './witness_calculator.cjs'; export default m.default ?? m;");
  }
  return root;
}
export const load = (root, file) => import(pathToFileURL(path.join(root, "dist", file)).href);

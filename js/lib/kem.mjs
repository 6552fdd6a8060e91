// Stand-in for the WebAssembly key-encapsulation module: a recording toy KEM that decides with the independent R1CS reader and evaluator.
import path from "node:path";
import { pathToFileURL } from "node:url";
import { tree, load } from "./load.mjs";
const here = path.dirname(new URL(import.meta.url).pathname);
export const KEM = `
import { Buffer } from "node:buffer";
import nodeCrypto from "node:crypto";
import { decodeR1cs, decodeWtns, violated } from ${JSON.stringify(pathToFileURL(path.join(here, "circuit.mjs")).href)};
const hex = (b) => Buffer.from(b.buffer, b.byteOffset, b.length).toString("hex");
export const ctl = { inits: 0, ready: false, initDelay: 0, ctLen: 200, wrap: false, events: [], wrong: [], table: new Map(), circuits: new Map(), random: null };
const bad = (m) => { ctl.wrong.push(m); };
const give = (b) => { if (!ctl.wrap) return new Uint8Array(b); const big = new Uint8Array(b.length + 37).fill(0xa5); big.set(b, 21); return big.subarray(21, 21 + b.length); };
class EncapResult { #c; #k; constructor(c, k) { this.#c = c; this.#k = k; } get ciphertext() { return give(this.#c); } get key() { return give(this.#k); } free() {} }
function enter(what, ...args) {
  if (!ctl.ready) bad(what + " was called before the module was initialised");
  for (const a of args) if (Object.prototype.toString.call(a) !== "[object Uint8Array]") { bad(what + " was given something that is no byte array"); throw "expected bytes"; }
  ctl.events.push(what);
}
function circuit(b) { const h = nodeCrypto.createHash("sha256").update(b).digest("hex"); if (!ctl.circuits.has(h)) ctl.circuits.set(h, decodeR1cs(b)); return [h, ctl.circuits.get(h)]; }
export function init() {
  ctl.inits++; ctl.events.push("init");
  if (ctl.initDelay < 0) { ctl.ready = true; return; }
  return new Promise((r) => setTimeout(() => { ctl.ready = true; ctl.events.push("ready"); r(); }, ctl.initDelay));
}
export default init;
export function wasm_encap(r1cs, witness) {
  enter("wasm_encap", r1cs, witness);
  let h, c, w; try { [h, c] = circuit(r1cs); } catch (e) { throw "R1CS parse error"; }
  try { w = decodeWtns(witness); } catch (e) { bad("the assignment handed to encapsulation is malformed: " + e.message); throw "Witness parse error"; }
  const n = c.nOut + c.nPub;
  ctl.last = { r1cs: h, p: w.p, n8: w.n8, values: w.values };
  if (w.values.length < n + 1) throw "Missing public inputs";
  const ct = ctl.random(typeof ctl.ctLen === "function" ? ctl.ctLen() : ctl.ctLen), key = ctl.random(32);
  ctl.table.set(hex(ct), { key, r1cs: h, publics: w.values.slice(1, n + 1).map((v) => v % c.p) });
  return new EncapResult(ct, key);
}
export function wasm_decap(r1cs, witness, ct) {
  enter("wasm_decap", r1cs, witness, ct);
  let h, c, w; try { [h, c] = circuit(r1cs); } catch (e) { throw "R1CS parse error"; }
  try { w = decodeWtns(witness); } catch (e) { bad("the witness handed to decapsulation is malformed: " + e.message); throw "Witness parse error"; }
  const e = ctl.table.get(hex(ct));
  if (!e) throw "Ciphertext deserialization failed";
  if (e.r1cs !== h) throw "Decapsulation failed: circuit";
  if (w.values.length !== c.nWires) throw "Witness size mismatch";
  if (violated(c, w.values) !== -1) throw "Decapsulation failed: unsatisfied";
  if (e.publics.some((v, i) => v !== w.values[i + 1])) throw "Decapsulation failed: public";
  return give(e.key);
}
`;
/// A fresh package over a fresh stand-in.
export async function fresh(x, rng, o = {}) {
  const root = tree(x.scratch, { pkg: KEM, ...o });
  const kem = (await import(pathToFileURL(path.join(root, "pkg", "zkenc_js.js")).href)).ctl;
  kem.random = (n) => rng.bytes(n);
  return { root, kem, z: o.lazy ? null : await load(root, "index.js") };
}

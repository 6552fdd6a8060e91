// node wasm_same.mjs MODULE CASES ANSWERS SCRATCH: what the WebAssembly build answers (rust/full/same is what the others do).
import { Buffer } from "node:buffer";
import nodeCrypto from "node:crypto";
import fs from "node:fs";

const [module, cases, answers] = process.argv.slice(2);
const hex = (b) => Buffer.from(b).toString("hex");
const digest = (b) => b.length <= 64 ? hex(b) : `${b.length}:${hex(nodeCrypto.createHash("sha256").update(b).digest().subarray(0, 16))}`;
const M = (1n << 64n) - 1n;
/// The dictated bytes, continued as in rust/full/ark/getrandom.
class Stream {
  constructor(b) { this.b = b; this.at = 0; }
  fill(d) {
    for (let i = 0; i < d.length; i++, this.at++) {
      if (this.at < this.b.length) { d[i] = this.b[this.at]; continue; }
      let z = (BigInt(this.at >> 3) * 0x9e3779b97f4a7c15n & M) ^ 0x123456789abcdef0n;
      z = (z ^ z >> 30n) * 0xbf58476d1ce4e5b9n & M;
      z = (z ^ z >> 27n) * 0x94d049bb133111ebn & M;
      d[i] = Number((z ^ z >> 31n) >> BigInt(8 * (this.at & 7)) & 255n);
    }
  }
}
const compiled = new WebAssembly.Module(fs.readFileSync(module));
let w, stream, told = "";
const mem = (p, n) => new Uint8Array(w.memory.buffer, p >>> 0, n);
function start() {
  w = new WebAssembly.Instance(compiled, { env: {
    told: (p, n) => { told = Buffer.from(mem(p, n)).toString(); },
    random: (p, n) => { if (!stream) return 5; stream.fill(mem(p, n)); return 0; },
  } }).exports;
  w.start();
}
start();
const give = (b) => { const p = w.give(b.length); mem(p, b.length).set(b); return [p, b.length]; };
function run(op, a) {
  if (op !== "js-encap" && op !== "js-decap") return `refused no such operation: ${op}`;
  stream = op === "js-encap" ? new Stream(a[2]) : null;
  told = "";
  try {
    const bad = op === "js-encap" ? w.encap(...give(a[0]), ...give(a[1])) : w.decap(...a.flatMap(give));
    const out = (i) => Buffer.from(mem(w.out_ptr(i), w.out_len(i)));
    const v = bad ? out(0) : op === "js-decap" ? out(0) : Buffer.concat([(() => { const n = Buffer.alloc(4); n.writeUInt32LE(w.out_len(0)); return n; })(), out(0), out(1)]);
    w.out_drop();
    return bad ? `refused ${v.toString().replaceAll("\n", " ")}` : `ok ${digest(v)}`;
  } catch (e) {
    const say = `panic ${told || String(e?.message ?? e)}`.replaceAll("\n", " ");
    start();
    return say;
  }
}
const out = fs.openSync(answers, "w");
fs.writeSync(out, "32 bits, little endian, WebAssembly\n");
for (const l of fs.readFileSync(cases, "utf8").split("\n")) {
  if (!l) continue;
  const [op, ...a] = l.split(" ");
  fs.writeSync(out, run(op, a.map((h) => new Uint8Array(Buffer.from(h, "hex")))) + "\n");
}

// Circuits made at run time: R1CS file, symbol file, WebAssembly calculator and satisfying inputs, with independent readers and evaluator.
import { Buffer } from "node:buffer";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
export const BN254 = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
const BASE = fs.readFileSync(path.join(path.dirname(fileURLToPath(import.meta.url)), "..", "wasm", "interp.wasm"));
const CFG = new WebAssembly.Instance(new WebAssembly.Module(BASE), { runtime: { exceptionHandler() {}, printErrorMessage() {}, writeBufferMessage() {}, showSharedRWMemory() {} } }).exports.configAddr();
export const mod = (a, p) => ((a % p) + p) % p;
export function le(v, n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) { b[i] = Number(v & 255n); v >>= 8n; } return b; }
export function fromLe(b) { let v = 0n; for (let i = b.length - 1; i >= 0; i--) v = (v << 8n) | BigInt(b[i]); return v; }
export class W {
  constructor() { this.p = []; }
  u32(v) { const b = Buffer.alloc(4); b.writeUInt32LE(v >>> 0); this.p.push(b); return this; }
  u64(v) { const b = Buffer.alloc(8); b.writeBigUInt64LE(BigInt(v)); this.p.push(b); return this; }
  raw(b) { this.p.push(Buffer.from(b)); return this; }
  done() { return new Uint8Array(Buffer.concat(this.p)); }
}
export function section(type, body) { return new W().u32(type).u64(body.length).raw(body).done(); }
export function encodeR1cs(c, order = [2, 1, 3]) {
  const h = new W().u32(c.n8).raw(le(c.p, c.n8)).u32(c.nWires).u32(c.nOut).u32(c.nPub).u32(c.nPrv).u64(c.nWires).u32(c.constraints.length).done();
  const k = new W();
  for (const con of c.constraints) for (const side of con) { k.u32(side.length); for (const [w, f] of side) k.u32(w).raw(le(mod(f, c.p), c.n8)); }
  const m = new W(); for (let i = 0; i < c.nWires; i++) m.u64(i);
  const body = { 1: h, 2: k.done(), 3: m.done() };
  const out = new W().raw(Buffer.from("r1cs")).u32(1).u32(order.length);
  for (const t of order) out.raw(section(t, body[t] ?? new Uint8Array(5)));
  return out.done();
}
export function decodeR1cs(b) {
  const d = Buffer.from(b.buffer, b.byteOffset, b.length);
  let at = 12; const s = {};
  for (let i = d.readUInt32LE(8); i > 0; i--) { const t = d.readUInt32LE(at), l = Number(d.readBigUInt64LE(at + 4)); s[t] ??= d.subarray(at + 12, at + 12 + l); at += 12 + l; }
  const n8 = s[1].readUInt32LE(0), h = s[1].subarray(4 + n8);
  const c = { n8, p: fromLe(s[1].subarray(4, 4 + n8)), nWires: h.readUInt32LE(0), nOut: h.readUInt32LE(4), nPub: h.readUInt32LE(8), nPrv: h.readUInt32LE(12), constraints: [] };
  let q = 0;
  for (let i = h.readUInt32LE(24); i > 0; i--) c.constraints.push([0, 1, 2].map(() => { const n = s[2].readUInt32LE(q); q += 4; const side = []; for (let j = 0; j < n; j++) { side.push([s[2].readUInt32LE(q), fromLe(s[2].subarray(q + 4, q + 4 + n8))]); q += 4 + n8; } return side; }));
  return c;
}
export const evalSide = (side, w, p) => { let v = 0n; for (const [i, f] of side) v += f * w[i]; return mod(v, p); };
/// Index of the first violated constraint, or -1.
export function violated(c, w) {
  if (w.length !== c.nWires || w[0] !== 1n) return -2;
  for (let i = 0; i < c.constraints.length; i++) { const [a, b, k] = c.constraints[i].map((s) => evalSide(s, w, c.p)); if (mod(a * b, c.p) !== k) return i; }
  return -1;
}
export function encodeWtns(w, p, n8 = 32) {
  return new W().raw(Buffer.from("wtns")).u32(2).u32(2).raw(section(1, new W().u32(n8).raw(le(p, n8)).u32(w.length).done())).raw(section(2, Buffer.concat(w.map((v) => le(v, n8))))).done();
}
/// Strict reader of a .wtns container: throws on anything not exactly well formed.
export function decodeWtns(b) {
  const d = Buffer.from(b.buffer, b.byteOffset, b.length);
  const need = (ok, m) => { if (!ok) throw new Error(`not a well-formed witness file: ${m}`); };
  need(d.length >= 12 && d.subarray(0, 4).toString("latin1") === "wtns", "magic"); need(d.readUInt32LE(4) === 2, "version"); need(d.readUInt32LE(8) === 2, "section count");
  let at = 12; const s = {};
  for (let i = 0; i < 2; i++) { need(at + 12 <= d.length, "section header"); const t = d.readUInt32LE(at), l = d.readBigUInt64LE(at + 4); need(BigInt(at + 12) + l <= BigInt(d.length), "section length"); need(!s[t], "duplicate section"); s[t] = d.subarray(at + 12, at + 12 + Number(l)); at += 12 + Number(l); }
  need(at === d.length, "bytes after the last section"); need(s[1] && s[2], "section types");
  const n8 = s[1].readUInt32LE(0); need(s[1].length === 8 + n8, "header length");
  const n = s[1].readUInt32LE(4 + n8); need(s[2].length === n * n8, "data length");
  const values = []; for (let i = 0; i < n; i++) values.push(fromLe(s[2].subarray(i * n8, i * n8 + n8)));
  return { n8, p: fromLe(s[1].subarray(4, 4 + n8)), values };
}
const leb = (n) => { const o = []; do { let b = n & 127; n >>>= 7; if (n) b |= 128; o.push(b); } while (n); return o; };
const sleb = (n) => { const o = []; for (;;) { const b = n & 127; n >>= 7; if ((n === 0 && !(b & 64)) || (n === -1 && b & 64)) { o.push(b); return o; } o.push(b | 128); } };
function patchWasm(words) {
  const data = Buffer.from(new Uint32Array(words).buffer);
  const out = [BASE.subarray(0, 8)];
  let p = 8, done = false;
  const seg = Buffer.concat([Buffer.from([0, 0x41, ...sleb(CFG), 0x0b, ...leb(data.length)]), data]);
  while (p < BASE.length) {
    const id = BASE[p]; let q = p + 1, len = 0, sh = 0, x;
    do { x = BASE[q++]; len |= (x & 127) << sh; sh += 7; } while (x & 128);
    let body = BASE.subarray(q, q + len);
    if (id === 11) { let r = 0, n = 0; sh = 0; do { x = body[r++]; n |= (x & 127) << sh; sh += 7; } while (x & 128); body = Buffer.concat([Buffer.from(leb(n + 1)), body.subarray(r), seg]); done = true; }
    if (id !== 12) out.push(Buffer.from([id, ...leb(body.length)]), body);
    p = q + len;
  }
  if (!done) out.push(Buffer.from([11, ...leb(seg.length + 1), 1]), seg);
  return new Uint8Array(Buffer.concat(out));
}
export function fnv(s) { let h = 0xCBF29CE484222325n; for (let i = 0; i < s.length; i++) h = ((h ^ BigInt(s.charCodeAt(i))) * 0x100000001b3n) & 0xffffffffffffffffn; return h; }
/// Names whose hash has leading zero digits (in either half), by kind: found once by search.
const RARE = (() => {
  const kinds = [[], [], [], [], []];
  for (let i = 0; i < 30000 && kinds.some((k) => k.length < 4); i++) {
    const n = `${"abcdefghijklmnop"[i & 15]}${(i * 7919) % 30011}${i & 1 ? "" : "_in"}`, v = fnv(n);
    if (v >> 52n === 0n) kinds[0].push(n); else if (v >> 56n === 0n) kinds[1].push(n); else if (v >> 60n === 0n) kinds[2].push(n);
    const low = v & 0xffffffffn; if (low >> 24n === 0n) kinds[3].push(n); else if (low >> 28n === 0n) kinds[4].push(n);
  }
  return kinds.filter((k) => k.length).map((k) => k.slice(0, 40));
})();
/// A long name, often one that differs from another long name in one place only.
function stretch(r, have) {
  const long = have.filter((n) => n.length > 40);
  if (long.length && r.chance(3, 4)) { const n = r.pick(long), i = r.pick([n.length - 1, r.us(n.length - 1) + 1, 1]); return n.slice(0, i) + (n[i] === "q" ? "w" : "q") + n.slice(i + 1) + (r.chance(1, 4) ? "_" : ""); }
  return r.pick(["very_", "long$", "L", "abcdefgh"]).repeat(r.range(8, 40)) + r.us(100);
}
/// A random circuit. Signals: outputs, public inputs, private inputs (arrays up to three dimensions), then intermediates.
export function circuit(r, o = {}) {
  const n32 = o.n32 ?? 8, p = o.p ?? BN254;
  const dims = () => { const k = r.us(10); return k < 5 ? [] : k < 8 ? [r.range(1, 4)] : k < 9 ? [r.range(1, 3), r.range(1, 3)] : r.chance(1, 3) ? Array.from({ length: r.range(4, 5) }, () => r.range(1, 2)) : [r.range(1, 2), 2, r.range(1, 3)]; };
  const names = new Set();
  const fresh = (pre) => { let n; do { n = names.size && r.chance(1, 12) ? stretch(r, [...names]) : r.chance(1, 6) ? r.pick(r.pick(RARE)) : r.chance(1, 4) ? `${pre}${r.us(50)}_${r.pick(["X", "y", "R8x", "value", "$s"])}` : `${r.pick(["a", "in", "root", "message", "sig", "key", "x", pre])}${r.us(30)}`; } while (names.has(n)); names.add(n); return n; };
  const size = (d) => d.reduce((a, b) => a * b, 1);
  const c = { n32, n8: n32 * 4, p, signals: [], constraints: [], nOut: 0, nPub: 0, nPrv: 0 };
  let w = 1;
  const group = (kind, n) => { for (let i = 0; i < n; i++) { const d = o.scalars ? [] : o.dims ?? dims(); c.signals.push({ name: fresh(kind), kind, dims: d, first: w, size: size(d) }); w += size(d); if (kind === "out") c.nOut += size(d); else if (kind === "pub") c.nPub += size(d); else c.nPrv += size(d); } };
  group("out", o.outs ?? r.pick([0, 0, 1, 2])); group("pub", o.pubs ?? r.range(o.minPub ?? 0, 3)); group("prv", o.prvs ?? r.range(1, 3));
  const nIn = c.nPub + c.nPrv, inFirst = 1 + c.nOut;
  const nMid = r.range(o.chain ? 1 : 0, o.maxMid ?? 6); c.nWires = w + nMid + (o.chain ?? 0); c.mids = nMid; c.chain = { from: w + nMid, count: o.chain ?? 0 };
  // Some inputs are determined by inputs before them (and checked); the rest are free.
  const coeff = () => r.chance(1, 2) ? r.pick([1n, p - 1n, 2n]) : r.fe(p);
  const lcOf = (avail, k) => { const s = []; for (let i = 0; i < k; i++) { const f = coeff(); if (f) s.push([r.pick(avail), f]); } return s; };
  const avail = [0]; c.rules = [];
  const last = inFirst + nIn - 1;
  for (let i = inFirst; i < inFirst + nIn; i++) {
    const bound = !o.free && i > inFirst && r.chance(1, 4) || (!o.free && i === last && !c.rules.length && nIn > 1);
    if (bound) c.rules.push({ wire: i, a: lcOf(avail, r.range(1, 3)), b: lcOf(avail, r.range(1, 2)), d: lcOf(avail, r.us(3)) });
    else if (!o.free && r.chance(1, 8)) { c.rules.push({ wire: i, bool: true }); }
    avail.push(i);
  }
  c.ops = [];
  for (let i = 0; i < nMid; i++) { const t = w + i; c.ops.push({ wire: t, a: lcOf(avail, r.range(1, 3)), b: lcOf(avail, r.range(1, 3)), d: lcOf(avail, r.us(3)) }); avail.push(t); }
  for (let i = 1; i <= c.nOut; i++) c.ops.push({ wire: i, a: lcOf(avail, r.range(1, 3)), b: lcOf(avail, r.range(0, 2)), d: lcOf(avail, r.us(3)) });
  const neg = (s) => s.map(([i, f]) => [i, mod(-f, p)]);
  for (const u of c.rules) c.constraints.push(u.bool ? [[[u.wire, 1n]], [[u.wire, 1n], [0, p - 1n]], []] : [u.a, u.b, [[u.wire, 1n], ...neg(u.d)]]);
  for (const u of c.ops) c.constraints.push([u.a, u.b, [[u.wire, 1n], ...neg(u.d)]]);
  const checks = c.constraints.slice(0, c.rules.length);
  c.checked = c.rules.filter((u) => !u.bool).map((u) => u.wire);
  // Files.
  c.r1cs = encodeR1cs(c, r.pick([[2, 1, 3], [1, 2, 3], [1, 3, 2], [7, 2, 1, 3]]));
  const each = (d, f, pre = "") => { if (!d.length) f(pre); else for (let i = 0; i < d[0]; i++) each(d.slice(1), f, `${pre}[${i}]`); };
  c.wireOf = new Map();
  const lines = []; let label = 1;
  for (const s of c.signals) { let k = s.first; each(s.dims, (ix) => { c.wireOf.set(s.name + ix, k); lines.push(`${label++},${k++},${r.us(3)},main.${s.name}${ix}`); }); }
  for (let i = 0; i < nMid; i++) lines.push(`${label++},${r.chance(1, 5) ? -1 : w + i},1,main.sub.t[${i}]`);
  if (r.chance(1, 3)) r.shuffle(lines);
  const nl = r.chance(1, 8) ? "\r\n" : "\n";
  c.sym = lines.join(nl) + (r.chance(1, 6) ? "" : nl);
  const words = []; const push = (v) => { const b = le(v, n32 * 4); for (let i = 0; i < n32; i++) words.push(b[4 * i] + b[4 * i + 1] * 256 + b[4 * i + 2] * 65536 + b[4 * i + 3] * 16777216); };
  const ins = c.signals.filter((s) => s.kind !== "out");
  words.push(n32, c.nWires, nIn, ins.length, checks.length + c.ops.length + (o.chain ? 1 : 0)); push(p);
  const R = 1n << BigInt(32 * n32); push(R * R % p);
  let inv = 1n; for (let i = 0; i < 6; i++) inv = mod(inv * (2n - p * inv), 1n << 32n); words.push(Number(mod(-inv, 1n << 32n)));
  for (const s of ins) { const h = fnv(s.name); words.push(Number(h >> 32n), Number(h & 0xffffffffn), s.first, s.size); }
  const term = (s) => { for (const [i, f] of s) { words.push(i); push(f); } };
  const op = (kind, wire, a, b, k) => { words.push(kind, wire, a.length, b.length, k.length); term(a); term(b); term(k); };
  for (const [a, b, k] of checks) op(r.chance(1, 4) ? 2 : 1, 0, a, b, k);
  for (const u of c.ops) op(0, u.wire, u.a, u.b, u.d);
  if (o.chain) words.push(3, c.chain.from, o.chain, 0, 0);
  c.wasm = patchWasm(words);
  return c;
}
/// Values of all wires for random satisfying inputs. `keep`: wires that must take given values when free.
export function assign(r, c, keep = new Map()) {
  const w = new Array(c.nWires).fill(0n); w[0] = 1n;
  const rules = new Map(c.rules.map((u) => [u.wire, u]));
  for (let i = 1 + c.nOut; i < 1 + c.nOut + c.nPub + c.nPrv; i++) {
    const u = rules.get(i);
    w[i] = u && !u.bool ? mod(evalSide(u.a, w, c.p) * evalSide(u.b, w, c.p) + evalSide(u.d, w, c.p), c.p) : keep.has(i) ? keep.get(i) : u ? BigInt(r.us(2)) : r.fe(c.p);
  }
  return complete(c, w);
}
export function complete(c, w) { for (const u of c.ops) w[u.wire] = mod(evalSide(u.a, w, c.p) * evalSide(u.b, w, c.p) + evalSide(u.d, w, c.p), c.p); for (let i = c.chain.from, e = i + c.chain.count; i < e; i++) w[i] = (w[i - 1] * w[i - 1] + w[i - 2]) % c.p; return w; }
/// One spelling of a field element. JSON-safe: numbers and strings only.
export function spell(r, v, p, json = false) {
  for (;;) {
    let t = v;
    const k = r.us(6);
    if (k === 0) t = v - p; else if (k === 1) t = v + p * BigInt(r.range(1, 3)); else if (k === 2 && r.chance(1, 4)) t = v - p * BigInt(r.range(2, 5)); else if (k === 3 && r.chance(1, 6)) t = v + (p << BigInt(r.range(1, 40)));
    const small = t >= BigInt(Number.MIN_SAFE_INTEGER) && t <= BigInt(Number.MAX_SAFE_INTEGER);
    switch (r.us(5)) {
      case 0: if (small && t !== 0n || t === 0n) return Number(t); break;
      case 1: if (!json && t >= 0n) return "0x" + t.toString(16); break;
      case 2: if (!json) return t; break;
      default: return t.toString();
    }
  }
}
/// Input object for the given kinds of signals.
export function inputs(r, c, w, kinds, say = (v) => v.toString(), flat = false) {
  const put = (s, d, at) => { if (!d.length) return say(w[at.i++], s, at.i - 1); const out = []; for (let i = 0; i < d[0]; i++) out.push(put(s, d.slice(1), at)); return out; };
  const o = {};
  for (const s of r.shuffle(c.signals.filter((s) => kinds.includes(s.kind)))) {
    const v = put(s, s.dims, { i: s.first });
    o[s.name] = flat && r.chance(1, 2) ? reshape(r, v) : v;
  }
  return o;
}
/// Another nesting of the same leaves.
export function reshape(r, v) {
  const l = Array.isArray(v) ? v.flat(9) : [v];
  if (l.length === 1) return r.pick([l, [l], l[0]]);
  const k = r.us(3);
  if (k === 0) return l;
  const i = r.range(1, l.length - 1);
  return k === 1 ? [l.slice(0, i), l.slice(i)] : [l[0], [l.slice(1)]];
}
export function snapshot(v) { return JSON.stringify(v, (k, x) => typeof x === "bigint" ? `${x}n` : x instanceof Uint8Array ? Buffer.from(x.buffer, x.byteOffset, x.length).toString("hex") : x); }

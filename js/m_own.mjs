// What a call is given stays as it was, counts by its contents only, and what it gives back is the caller's alone: C48.
import { Buffer } from "node:buffer";
import nodeCrypto from "node:crypto";
import fs from "node:fs";
import vm from "node:vm";
import { assign, circuit, inputs, snapshot, spell } from "./lib/circuit.mjs";
import { fresh } from "./lib/kem.mjs";
import { load } from "./lib/load.mjs";

const realm = vm.createContext({});
const there = { bytes: vm.runInContext("(n) => new Uint8Array(n)", realm), json: vm.runInContext("(s) => JSON.parse(s, (k, v) => v && v.$big !== undefined ? BigInt(v.$big) : v)", realm), map: vm.runInContext("(a) => { const m = new Map(); for (let i = 0; i < a.length; i++) m.set(a[i][0], a[i][1]); return m; }", realm) };
class Bytes extends Uint8Array { get kind() { return "bytes of a subclass"; } }
class Inputs { describe() { return "not an input"; } }
const refOpen = (k, s) => { const d = nodeCrypto.createDecipheriv("aes-256-gcm", k, s.subarray(0, 12)); d.setAuthTag(s.subarray(s.length - 16)); return Buffer.concat([d.update(s.subarray(12, s.length - 16)), d.final()]); };
const hex = (b) => b.buffer.detached ? "detached" : Buffer.from(b.buffer, b.byteOffset, b.length).toString("hex");
const isBytes = (v) => ArrayBuffer.isView(v);
export const BYTES = ["plain", "view", "buffer", "realm", "subclass", "tight"], OBJECTS = ["plain", "bare", "frozen", "realm", "class", "watched", "getters", "sealed"], MAPS = ["plain", "realm", "subclass"];

/// The same bytes in another shape, with everything of their memory that has to stay as it is.
function bytesAs(kind, b, r) {
  let v;
  if (kind === "view") { const big = new Uint8Array(b.length + r.range(1, 40) + 9); r.bytes(big.length).forEach((x, i) => { big[i] = x; }); const at = r.range(1, big.length - b.length - 1); big.set(b, at); v = big.subarray(at, at + b.length); }
  else if (kind === "tight") { const big = new Uint8Array(b.length + 5).fill(0xee); big.set(b, 5); v = big.subarray(5); }
  else if (kind === "buffer") v = b.length < 3000 ? Buffer.from(b) : Buffer.from(b.buffer.slice(b.byteOffset, b.byteOffset + b.length));
  else if (kind === "realm") { v = there.bytes(b.length); v.set(b); }
  else if (kind === "subclass") v = Bytes.from(b);
  else v = new Uint8Array(b);
  // The pool that small buffers lie in is others' as well.
  const pool = kind === "buffer" && v.buffer.byteLength > v.length;
  return { value: v, look: () => v.length + ":" + (pool || v.buffer.detached ? hex(v) : Buffer.from(v.buffer).toString("hex")), spoil: () => v.fill(0x5a) };
}
function watch(o, told, path = "") {
  if (o === null || typeof o !== "object" || isBytes(o)) return o;
  const tell = (what) => (t, k) => { told(`${what} ${path}.${String(k)}`); return true; };
  return new Proxy(o, { get: (t, k) => watch(Reflect.get(t, k), told, `${path}.${String(k)}`), set: tell("sets"), defineProperty: tell("defines"), deleteProperty: tell("deletes"), setPrototypeOf: tell("gives a prototype to"), preventExtensions: (t) => { told(`seals ${path}`); return Reflect.preventExtensions(t); } });
}
const deep = (o, f) => o === null || typeof o !== "object" || isBytes(o) ? o : f(Array.isArray(o) ? o.map((v) => deep(v, f)) : Object.fromEntries(Object.entries(o).map(([k, v]) => [k, deep(v, f)])));
function objectAs(kind, o, told) {
  const plain = deep(o, (v) => v);
  switch (kind) {
    case "bare": return deep(o, (v) => Array.isArray(v) ? v : Object.assign(Object.create(null), v));
    case "frozen": return deep(o, Object.freeze);
    case "sealed": return deep(o, Object.seal);
    case "class": return Object.assign(new Inputs(), plain);
    case "watched": return watch(plain, told);
    case "getters": return deep(o, (v) => Array.isArray(v) ? v : Object.defineProperties({}, Object.fromEntries(Object.entries(v).map(([k, x]) => [k, { get: () => x, set: () => told(`sets .${k}`), enumerable: true, configurable: true }]))));
    case "realm": { const w = there.json(JSON.stringify(o, (k, v) => typeof v === "bigint" ? { $big: String(v) } : isBytes(v) ? 0 : v)); for (const [k, v] of Object.entries(o)) if (isBytes(v)) w[k] = v; return w; }
    default: return plain;
  }
}
function mapAs(kind, m, told) {
  if (kind === "realm") return there.map([...m]);
  if (kind !== "subclass") return new Map(m);
  return new class extends Map { live = false; constructor() { super(); for (const [k, v] of m) super.set(k, v); this.live = true; } set(k, v) { if (this.live) told(`sets ${String(k)} of a map`); return super.set(k, v); } delete(k) { told(`deletes ${String(k)} of a map`); return super.delete(k); } clear() { told("clears a map"); return super.clear(); } }();
}
/// Everything there is to see of a value.
const see = (v) => isBytes(v) ? `${v.length}:${hex(v)}` : v instanceof Map || v?.[Symbol.toStringTag] === "Map" ? "map" + snapshot([...v].map(([k, x]) => [k, see(x)])) : v && typeof v === "object" && !Array.isArray(v) && Object.values(v).some(isBytes) ? snapshot(Object.entries(v).map(([k, x]) => [k, see(x)])) : snapshot([v]) ?? "";
/// Change everything that can be changed.
function scribble(v) {
  if (isBytes(v)) { for (let i = 0; i < v.length; i++) v[i] ^= 0xa5; return; }
  if (v instanceof Map) { for (const x of v.values()) scribble(x); const k = [...v.keys()]; v.clear(); v.set("scribble", 99); if (k.length) v.set(k[0], 12345); return; }
  if (Array.isArray(v)) { v.forEach(scribble); v.reverse(); v.push(77n); return; }
  if (v && typeof v === "object" && Object.getPrototypeOf(v) === Object.prototype) { for (const k of Object.keys(v)) { scribble(v[k]); delete v[k]; } v.scribble = 1; }
}

export async function C48(x) {
  const e = await fresh(x, { bytes: (n) => new Uint8Array(nodeCrypto.randomBytes(n)) });
  const [cry, sym, wit, wcb] = await Promise.all(["crypto.js", "sym_parser.js", "witness.js", "witness_calculator.js"].map((f) => load(e.root, f)));
  const z = e.z, used = new Map();
  const said = [console.error, console.log, console.warn]; console.error = console.log = console.warn = () => { };
  await x.run("calls", x.q(350, 9000), async (c) => {
    const r = c.rng, k = circuit(r, { maxMid: 3, scalars: r.chance(1, 4) }), w = assign(r, k);
    const say = r.chance(1, 2) ? (q) => spell(r, q, k.p, true) : undefined;
    const full = inputs(r, k, w, ["pub", "prv"], say), pub = inputs(r, k, w, ["out", "pub"], say);
    const msg = r.content(r.size(400)), key = r.bytes(32), nonce = r.bytes(12);
    const g = nodeCrypto.createCipheriv("aes-256-gcm", key, nonce), sealed = new Uint8Array(Buffer.concat([nonce, g.update(msg), g.final(), g.getAuthTag()]));
    e.kem.ctLen = r.range(1, 90); e.kem.wrap = r.chance(1, 2);
    const args = [], events = [], kept = [], forms = [];
    const told = (what) => events.push(what);
    // Arguments: what they are, what they look like, and how to spoil them afterwards.
    // Sometimes the very object that an earlier call was given.
    const again = (src) => { const q = args.filter((a) => a.src === src); return q.length && r.chance(1, 3) ? r.pick(q).value : undefined; };
    const B = (b, spoilable = true) => { const old = again(b); if (old) return old; const kind = r.pick(BYTES), a = bytesAs(kind, b, r); forms.push(kind); used.set(kind, (used.get(kind) ?? 0) + 1); args.push({ src: b, value: a.value, kind: `bytes (${kind})`, look: a.look, was: a.look(), spoil: spoilable ? a.spoil : null }); return a.value; };
    const O = (o) => { const old = again(o); if (old) return old; const kind = r.pick(OBJECTS), v = objectAs(kind, o, told), look = () => see(v) + Object.isFrozen(v) + Object.isSealed(v) + (Object.getPrototypeOf(v) === null); forms.push(kind); used.set(kind, (used.get(kind) ?? 0) + 1); args.push({ src: o, value: v, kind: `object (${kind})`, look, was: look(), spoil: ["plain", "class", "bare"].includes(kind) ? () => { for (const q of Object.keys(v)) { if (Array.isArray(v[q])) scribble(v[q]); v[q] = "9"; } } : null }); return v; };
    const M = (m) => { const old = again(m); if (old) return old; const kind = r.pick(MAPS), v = mapAs(kind, m, told), look = () => see(v); used.set(`map ${kind}`, (used.get(`map ${kind}`) ?? 0) + 1); args.push({ src: m, value: v, kind: `map (${kind})`, look, was: look(), spoil: () => { Map.prototype.set.call(v, "spoilt", 5); } }); return v; };
    const fail = (m, d) => c.fail(m, { forms: forms.slice(-6), ...d });
    const intact = (what) => {
      for (const a of args) { c.ops++; if (a.look() !== a.was) { fail(`${what} changes an argument: ${a.kind}`, { before: a.was.slice(0, 400), after: a.look().slice(0, 400) }); a.was = a.look(); } }
      if (events.length) fail(`${what} writes to an argument`, { what: events.splice(0).slice(0, 5) });
    };
    const steady = (what) => { for (const q of kept) { c.ops++; const now = see(q.value); if (now !== q.was) { fail(`${what} changes what ${q.what} gave before`, { before: q.was.slice(0, 400), after: now.slice(0, 400) }); q.was = now; } } };
    /// One call, whose outcome must be `want` (undefined: any value; null: refused).
    const call = async (what, f, want, norm = (v) => v) => {
      c.ops++;
      let v, err = null; try { v = await f(); } catch (q) { err = q; }
      intact(what); steady(what);
      if (want === null) { if (!err) fail(`${what} is accepted`, {}); return undefined; }
      if (err) { fail(`${what} fails on arguments of this shape: ${String(err?.message ?? err).slice(0, 200)}`, { args: args.slice(-4).map((a) => a.kind) }); return undefined; }
      if (want !== undefined) { const got = see(norm(v)); if (got !== want) { fail(`${what} gives something else for arguments of this shape`, { want: want.slice(0, 400), got: got.slice(0, 400), args: args.slice(-4).map((a) => a.kind) }); return undefined; } }
      kept.push({ what, value: v, was: see(v) });
      return v;
    };
    const E = () => { const r1csBuffer = B(k.r1cs); return O({ r1csBuffer, symContent: k.sym }); }, D = () => { const r1csBuffer = B(k.r1cs), wasmBuffer = B(k.wasm); return O({ r1csBuffer, wasmBuffer }); };
    // What the contents alone say, from the plain shapes (other monitors judge that).
    let base;
    const given = { r1cs: k.r1cs, wasm: k.wasm, full, pub }, before = Object.entries(given).map(([n, v]) => [n, see(v)]);
    const left = () => { for (const [n, was] of before) { c.ops++; if (see(given[n]) !== was) { fail(`a call changes an argument of the plain shape: ${n}`, { before: was.slice(0, 300), after: see(given[n]).slice(0, 300) }); return false; } } return true; };
    try {
      const extra = [["helper.x", r.us(9)], ["x", 1], ["main.zz", 900], ["main", 2]], wires = sym.parseSymFile(k.sym), ins = sym.getInputSignals(sym.parseSymFile(k.sym)), mixed = r.shuffle([...wires, ...extra]), max = r.pick([undefined, 3, 899, k.nWires]);
      base = { wires, ins, mixed: new Map(mixed), some: sym.getInputSignals(new Map(mixed), max), max, vals: sym.mapInputsToWires(full, ins), wa: await wit.calculateWitnessArray(k.wasm, full), wb: await wit.calculateWitness(k.wasm, full), info: await wit.getCircuitInfo(k.wasm), pub: JSON.parse(JSON.stringify(pub)) };
      await z.encap({ r1csBuffer: k.r1cs, symContent: k.sym }, pub); base.bound = snapshot(e.kem.last?.values ?? null);
    } catch (q) { if (left()) c.count("not_judged"); return; }
    if (!left()) return;
    const is = Object.fromEntries(Object.entries(base).map(([n, v]) => [n, n === "bound" ? v : see(v)]));
    c.input({ wires: k.nWires, pub, message: msg.length });
    const bound = (what) => { const b = snapshot(e.kem.last?.values ?? null); if (b !== is.bound) fail(`${what} binds other values for arguments of this shape`, { want: is.bound.slice(0, 300), got: b.slice(0, 300) }); };
    const calc = await call("the calculator", () => wcb.default(B(k.wasm)), undefined); if (calc) kept.pop();
    // Objects that the caller keeps and fills anew before each call: what they hold at the call is what counts.
    const held = { key: new Uint8Array(32), sealed: new Uint8Array(sealed.length), inputs: {}, enc: {}, dec: {}, wires: new Map(), wasm: null, r1cs: null, comb: null };
    const k2 = circuit(r, { maxMid: 3, scalars: r.chance(1, 2) }), two = [{ k, full, pub }, { k: k2, ...(() => { const v = assign(r, k2); return { full: inputs(r, k2, v, ["pub", "prv"]), pub: inputs(r, k2, v, ["out", "pub"]) }; })() }], w3 = assign(r, k), alike = [full, inputs(r, k, w3, ["pub", "prv"])];
    // Arrays and objects inside are kept too, where they can be.
    const within = (o, v) => { for (const q of Object.keys(v)) { if (o[q] && v[q] && typeof o[q] === "object" && typeof v[q] === "object" && Array.isArray(o[q]) === Array.isArray(v[q])) { if (Array.isArray(o[q])) o[q].length = v[q].length; within(o[q], v[q]); } else o[q] = structuredClone(v[q]); } if (!Array.isArray(o)) { const now = { ...o }; for (const q of Object.keys(o)) delete o[q]; for (const q of Object.keys(v)) o[q] = now[q]; } return o; };
    const refill = (o, v) => { for (const q of Object.keys(o)) delete o[q]; Object.assign(o, structuredClone(v)); return o; };
    // A custom section of no meaning brings two programs to one length.
    const pad = (b, n) => { let q = n - b.length - 1; const len = []; for (let i = 0; i < 5; i++) len.push(0); q -= 5; const size = q; for (let i = 0; i < 5; i++) len[i] = (size >>> (7 * i)) & 127 | (i < 4 ? 128 : 0); const out = new Uint8Array(n); out.set(b); out.set([0, ...len, 1, 120], b.length); return out; };
    const size = Math.max(k.wasm.length, k2.wasm.length) + 8, padded = two.map((t) => pad(t.k.wasm, size));
    held.wasm = new Uint8Array(size);
    const side = () => r.us(2);
    const refills = [
      async () => { for (let i = 0; i < 3; i++) { held.key.set(r.bytes(32)); const now = new Uint8Array(held.key), s = await call("aesGcmEncrypt with a key array filled anew", () => cry.aesGcmEncrypt(held.key, msg)); if (!s) return; let m; try { m = refOpen(now, s); } catch { } if (!m || hex(m) !== hex(msg)) fail("aesGcmEncrypt goes by what the key array held before", {}); kept.pop(); held.sealed.set(s); await call("aesGcmDecrypt with arrays filled anew", () => cry.aesGcmDecrypt(held.key, held.sealed), see(msg)); } },
      async () => { for (let i = 0; i < 3; i++) { const a = alike[side()], want = see(await wit.calculateWitnessArray(k.wasm, structuredClone(a))); (r.chance(2, 3) ? within : refill)(held.inputs, a); await call("a witness of an input object filled anew", () => wit.calculateWitnessArray(k.wasm, held.inputs), want); if (calc) { await call("a witness of one calculator and an input object filled anew", () => calc.calculateWitness(held.inputs), want); await call("a witness file of one calculator and an input object filled anew", () => calc.calculateWTNSBin(held.inputs), see(await wit.calculateWitness(k.wasm, structuredClone(a)))); await call("witness bytes of one calculator and an input object filled anew", () => calc.calculateBinWitness(held.inputs), see(await (await wcb.default(k.wasm)).calculateBinWitness(structuredClone(a)))); } } },
      async () => { for (let i = 0; i < 3; i++) { const j = side(), want = see(await wit.calculateWitnessArray(two[j].k.wasm, two[j].full)); held.wasm.set(padded[j]); await call("a witness of a program array filled anew", () => wit.calculateWitnessArray(held.wasm, two[j].full), want); } },
      async () => { for (let i = 0; i < 3; i++) { const j = side(); held.wires.clear(); for (const [n, v] of sym.parseSymFile(two[j].k.sym)) held.wires.set(n, v); await call("getInputSignals of a map filled anew", () => sym.getInputSignals(held.wires), see(sym.getInputSignals(new Map(held.wires)))); } },
      async () => { for (let i = 0; i < 3; i++) { const j = side(), t = two[j], ins = sym.getInputSignals(sym.parseSymFile(t.k.sym)); held.wires.clear(); for (const [n, v] of ins) held.wires.set(n, v); (r.chance(1, 2) ? within : refill)(held.inputs, t.full); await call("mapInputsToWires of objects filled anew", () => sym.mapInputsToWires(held.inputs, held.wires), see(sym.mapInputsToWires(structuredClone(t.full), ins))); } },
      async () => {
        for (let i = 0; i < 3; i++) {
          const t = two[side()];
          refill(held.enc, {}); Object.assign(held.enc, { r1csBuffer: t.k.r1cs, symContent: t.k.sym }); refill(held.dec, {}); Object.assign(held.dec, { r1csBuffer: t.k.r1cs, wasmBuffer: t.k.wasm });
          await z.encap({ r1csBuffer: t.k.r1cs, symContent: t.k.sym }, structuredClone(t.pub)); const want = snapshot(e.kem.last?.values ?? null);
          (r.chance(1, 2) ? within : refill)(held.inputs, t.pub); const v = await call("encrypt with objects filled anew", () => z.encrypt(held.enc, held.inputs, msg)); if (!v) return;
          if (snapshot(e.kem.last?.values ?? null) !== want) fail("encrypt goes by what its objects held before", { want: want.slice(0, 300), got: snapshot(e.kem.last?.values).slice(0, 300) });
          if (!held.comb || held.comb.length !== v.ciphertext.length) held.comb = new Uint8Array(v.ciphertext.length); held.comb.set(v.ciphertext);
          await call("getPublicInput of an array filled anew", () => z.getPublicInput(held.comb), see(JSON.parse(JSON.stringify(t.pub))));
          (r.chance(1, 2) ? within : refill)(held.inputs, t.full); await call("decrypt with objects filled anew", () => z.decrypt(held.dec, held.comb, held.inputs), see(msg));
        }
      },
    ];
    // Buses: values within values, of objects and arrays.
    const nest = { o: {}, wires: [["one", 0]] };
    const grow = (path, d) => { const kind = d > 2 ? 0 : r.us(3); if (kind === 0) { nest.wires.push([path, nest.wires.length]); return r.pick([r.us(1000), String(r.us(1000)), BigInt(r.us(1000))]); } if (kind === 1) return Array.from({ length: r.range(1, 3) }, (_, i) => grow(`${path}[${i}]`, d + 1)); const o = {}; for (const q of ["x", "y", "z"].slice(0, r.range(1, 3))) o[q] = grow(`${path}.${q}`, d + 1); return o; };
    for (const q of ["bus", "p", "main_q"].slice(0, r.range(1, 3))) nest.o[q] = grow(q, 0);
    const acts = [
      async () => { const s = await call("aesGcmEncrypt", () => cry.aesGcmEncrypt(B(key), B(msg))); if (s) { let m; try { m = refOpen(key, s); } catch { } if (!m || hex(m) !== hex(msg)) fail("aesGcmEncrypt gives something else for arguments of this shape", {}); } },
      () => call("aesGcmDecrypt", () => cry.aesGcmDecrypt(B(key), B(sealed)), see(msg)),
      () => { const s = new Uint8Array(sealed); s[r.us(s.length)] ^= 1; return call("aesGcmDecrypt of a changed message", () => cry.aesGcmDecrypt(B(key), B(s)), null); },
      () => call("aesGcmEncrypt with a short key", () => cry.aesGcmEncrypt(B(key.slice(1)), B(msg)), null),
      () => call("parseSymFile", () => sym.parseSymFile(k.sym), is.wires),
      () => call("getInputSignals", () => base.max === undefined ? sym.getInputSignals(M(base.mixed)) : sym.getInputSignals(M(base.mixed), base.max), is.some),
      () => call("mapInputsToWires", () => sym.mapInputsToWires(O(full), M(base.ins)), is.vals),
      () => call("mapInputsToWires of values within values", () => sym.mapInputsToWires(O(nest.o), M(nest.wires)), see(sym.mapInputsToWires(structuredClone(nest.o), new Map(nest.wires)))),
      () => call("calculateWitness", () => wit.calculateWitness(B(k.wasm), O(full)), is.wb),
      () => call("calculateWitnessArray", () => wit.calculateWitnessArray(B(k.wasm), O(full)), is.wa),
      () => call("getCircuitInfo", () => wit.getCircuitInfo(B(k.wasm)), is.info),
      () => call("a witness of an unknown signal", () => wit.calculateWitness(B(k.wasm), O({ ...full, unknown: 1 })), null),
      () => calc && call("calculateWitness of one calculator", () => calc.calculateWitness(O(full)), is.wa),
      () => calc && call("calculateWTNSBin of one calculator", () => calc.calculateWTNSBin(O(full)), is.wb),
      () => calc && call("calculateBinWitness of one calculator", () => calc.calculateBinWitness(O(full)), undefined),
      () => calc && call("a refusal of one calculator", () => calc.calculateWTNSBin(O({ ...full, unknown: 1 })), null),
      async () => { const v = await call("encap", () => z.encap(E(), O(pub))); if (v) { bound("encap"); await call("decap", () => z.decap(D(), B(v.ciphertext), O(full)), see(v.key)); const t = new Uint8Array(v.ciphertext); t[0] ^= 1; await call("decap of a changed ciphertext", () => z.decap(D(), B(t), O(full)), null); } },
      async () => {
        const inc = r.pick([undefined, true, false]), v = await call("encrypt", () => r.chance(1, 3) && inc === undefined ? z.encrypt(E(), O(pub), B(msg)) : z.encrypt(E(), O(pub), B(msg), O(inc === undefined ? {} : { includePublicInput: inc })));
        if (!v) return;
        bound("encrypt");
        await call("decrypt", () => z.decrypt(D(), B(v.ciphertext), O(full)), see(msg));
        await call("getPublicInput", () => z.getPublicInput(B(v.ciphertext)), inc === false ? null : is.pub);
        const t = new Uint8Array(v.ciphertext); t[t.length - 1] ^= 1; await call("decrypt of a changed ciphertext", () => z.decrypt(D(), B(t), O(full)), null);
        await call("getPublicInput of half a ciphertext", () => z.getPublicInput(B(v.ciphertext.slice(0, r.us(5 + e.kem.ctLen)))), null);
      },
      ...refills,
      () => call("encap to too few values", () => z.encap(E(), O({})), k.nOut + k.nPub ? null : undefined),
    ];
    c.count("refills", refills.length * 3);
    const order = r.shuffle(acts.map((_, i) => i)), todo = order.concat(order.slice(0, r.us(8)));
    for (const i of todo) {
      await acts[i](); if (c.fails.length) break;
      // The caller does as it likes with what it was given, and with what it gave.
      if (kept.length && r.chance(2, 3)) { const [q] = kept.splice(r.us(kept.length), 1); scribble(q.value); c.count("results_scribbled_on"); intact(`scribbling on what ${q.what} gave`); steady(`scribbling on what ${q.what} gave`); }
      if (r.chance(1, 4)) { for (const a of args.splice(0)) if (a.spoil) { a.spoil(); c.count("arguments_spoilt"); } steady("spoiling the arguments of calls that have ended"); }
    }
    c.max("results_alive_at_once", kept.length); c.count("acts", todo.length);
    c.key(snapshot(forms), todo.join()); c.sample({ forms: forms.slice(0, 20), wires: k.nWires });
    for (const m of e.kem.wrong.splice(0).slice(0, 1)) fail(m, {});
    e.kem.table.clear(); e.kem.circuits.clear();
  });
  [console.error, console.log, console.warn] = said;
  x.counters.shapes_used = used.size;
  fs.rmSync(e.root, { recursive: true, force: true });
}

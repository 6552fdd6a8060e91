// The JavaScript package over the real bindings, and the command-line tool, on the same files: C28 C30 C35 C37.
import fs from "node:fs";
import path from "node:path";
import crypto from "node:crypto";
import { execFile } from "node:child_process";
import { pathToFileURL } from "node:url";
import { eq, hex, edgeMessages } from "./lib/mon.mjs";
import { tree, load } from "./lib/load.mjs";
import { circuit, assign, inputs, spell, encodeWtns, decodeWtns, fromLe, mod, violated, BN254 } from "./lib/circuit.mjs";
import { known } from "./lib/known.mjs";
const BIN = process.env.FULL_BIN;
const PKG = `
import fs from "node:fs"; import path from "node:path"; import { spawnSync } from "node:child_process";
export const ctl = { dir: "", n: 0, crashed: [] };
function kem(what, ins, outs) {
  const files = ins.map((b) => { if (!(b instanceof Uint8Array)) throw new TypeError("expected bytes"); const p = path.join(ctl.dir, "kem" + ctl.n++); fs.writeFileSync(p, b); return p; });
  const res = outs.map(() => path.join(ctl.dir, "kem" + ctl.n++));
  let r;
  for (let i = 0; i < 8; i++) { r = spawnSync(${JSON.stringify(path.join(BIN ?? "", "kem"))}, [what, ...files, ...res], { stdio: ["ignore", "ignore", "pipe"] }); if (!r.error) break; Atomics.wait(new Int32Array(new SharedArrayBuffer(4)), 0, 0, 200); }
  for (const f of files) fs.unlinkSync(f);
  if (r.status === 3) throw r.stderr.toString().trim();
  if (r.status !== 0) { ctl.crashed.push(what + ": " + r.stderr.toString().slice(0, 400)); throw new WebAssembly.RuntimeError("unreachable"); }
  return res.map((p) => { const b = new Uint8Array(fs.readFileSync(p)); fs.unlinkSync(p); return b; });
}
let ready = false;
export function init() { ready = true; }
export default init;
const need = () => { if (!ready) throw new TypeError("the module is not initialised"); };
export function wasm_encap(r1cs, witness) { need(); const [ciphertext, key] = kem("encap", [r1cs, witness], [0, 0]); return { ciphertext, key, free() {} }; }
export function wasm_decap(r1cs, witness, ct) { need(); return kem("decap", [r1cs, witness, ct], [0])[0]; }
`;
async function open(x) {
  const root = tree(x.scratch, { pkg: PKG });
  const { ctl } = await import(pathToFileURL(path.join(root, "pkg", "zkenc_js.js")).href);
  ctl.dir = path.join(x.scratch, "kem"); fs.mkdirSync(ctl.dir, { recursive: true });
  return { z: await load(root, "index.js"), ws: await load(root, "witness.js"), ctl };
}
const cli = (...a) => new Promise((done) => execFile(path.join(BIN, "zkenc"), a, { maxBuffer: 1 << 26, env: { ...process.env, RUST_BACKTRACE: "0", RAYON_NUM_THREADS: "2" } }, (e, out, err) => done({ ok: !e, code: e ? e.code ?? e.signal : 0, err: String(err).slice(0, 400) })));
let dirs = 0;
class Files {
  constructor(x) { this.dir = path.join(x.scratch, `f${dirs++}`); fs.mkdirSync(this.dir); }
  at(n) { return path.join(this.dir, n); }
  put(n, b) { fs.writeFileSync(this.at(n), b); return this.at(n); }
  get(n) { try { return new Uint8Array(fs.readFileSync(this.at(n))); } catch { return null; } }
  done() { fs.rmSync(this.dir, { recursive: true, force: true }); }
  encrypt(out = "o.enc", embed = true, input = "in.json") { return cli("encrypt", "--circuit", this.at("c.r1cs"), "--sym", this.at("c.sym"), "--input", this.at(input), "--message", this.at("msg"), "--output", this.at(out), ...(embed ? [] : ["--no-public-input"])); }
  decrypt(ct, out) { return cli("decrypt", "--circuit", this.at("c.r1cs"), "--witness", this.at("w.wtns"), "--ciphertext", this.at(ct), "--output", this.at(out)); }
  encap(input = "in.json", ct = "o.ct", key = "o.key") { return cli("encap", "--circuit", this.at("c.r1cs"), "--sym", this.at("c.sym"), "--input", this.at(input), "--ciphertext", this.at(ct), "--key", this.at(key)); }
  decap(ct, key) { return cli("decap", "--circuit", this.at("c.r1cs"), "--witness", this.at("w.wtns"), "--ciphertext", this.at(ct), "--key", this.at(key)); }
}
/// A scene: circuit, satisfying values, its public inputs in a random spelling, the inputs of the witness calculation.
function scene(r, o = {}) {
  const c = circuit(r, { n32: 8, p: BN254, ...o });
  const w = assign(r, c);
  return { c, w, publics: inputs(r, c, w, ["out", "pub"], (v) => spell(r, v, BN254, true)), full: inputs(r, c, w, ["pub", "prv"], (v) => v.toString()), publicWires: w.slice(1, 1 + c.nOut + c.nPub) };
}
const shape = (s) => ({ outputs: s.c.nOut, inputs: s.c.nPub, wires: s.c.nWires, signals: s.c.signals.map((g) => g.name + JSON.stringify(g.dims)) });
function layout(b) {
  const v = new DataView(b.buffer, b.byteOffset, b.length), n = v.getUint32(1, false), o = { flag: b[0], ct: b.slice(5, 5 + n), text: null };
  if (o.ct.length !== n) throw new RangeError("witness ciphertext cut off");
  let at = 5 + n;
  if (o.flag === 1) { const m = v.getUint32(at, false); o.text = b.slice(at + 4, at + 4 + m); if (o.text.length !== m) throw new RangeError("public input cut off"); at += 4 + m; }
  o.sealed = b.slice(at);
  return o;
}
/// The public inputs a witness ciphertext carries.
function carried(ct) {
  const v = new DataView(ct.buffer, ct.byteOffset, ct.length);
  let at = 160;
  for (const size of [32, 64, 32, 32]) at += 8 + Number(v.getBigUint64(at, true)) * size;
  const n = Number(v.getBigUint64(at, true)), out = [];
  for (let i = 0; i < n; i++) out.push(fromLe(ct.subarray(at + 8 + 32 * i, at + 40 + 32 * i)));
  if (at + 8 + 32 * n !== ct.length) throw new RangeError("ciphertext length");
  return out;
}
function unseal(key, sealed) {
  const d = crypto.createDecipheriv("aes-256-gcm", key, sealed.subarray(0, 12));
  d.setAuthTag(sealed.subarray(sealed.length - 16));
  return new Uint8Array(Buffer.concat([d.update(sealed.subarray(12, sealed.length - 16)), d.final()]));
}
/// JSON text with random blanks, and members the circuit does not know.
function jsonText(r, obj) {
  const o = {};
  for (const [k, v] of r.shuffle([...Object.entries(obj), ...(r.chance(1, 2) ? [[r.pick(["note", "ключ", "名前", "a\"b\\c", "\u0000", "😀", "z z"]) + "!", r.pick([0, "7", ["1", 2]])]] : [])])) o[k] = v;
  let t = JSON.stringify(o, null, r.pick([0, 0, 1, 2, 4, "\t"]));
  if (r.chance(1, 4)) t = t.replace(/[^\x00-\x7f]/g, (ch) => "\\u" + ch.charCodeAt(0).toString(16).padStart(4, "0"));
  if (r.chance(1, 3)) t = r.pick(["\n", " ", "\r\n"]) + t + r.pick(["\n", "  \n\n", ""]);
  return t;
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
function crashes(c, ctl) { for (const m of ctl.crashed.splice(0)) c.fail(`the bindings crashed: ${m}`, null); }
function committed(r) { return known().map((k) => { const full = k.gen(r); return { name: k.name, c: { r1cs: k.r1cs, sym: k.sym, wasm: k.wasm }, full, publics: Object.fromEntries(k.pub.map((n) => [n, full[n]])) }; }); }

/// Keys encapsulated by one tool and recovered by the other.
export async function C28(x) {
  const { z, ctl } = await open(x);
  await x.run("cross", x.q(160, 6000), async (c) => {
    const s = scene(c.rng), f = new Files(x);
    c.input(shape(s)); c.sample(shape(s)); c.key(s.c.r1cs);
    f.put("c.r1cs", s.c.r1cs); f.put("c.sym", s.c.sym); f.put("in.json", jsonText(c.rng, s.publics)); f.put("w.wtns", encodeWtns(s.w, BN254));
    const files = { r1csBuffer: s.c.r1cs, symContent: s.c.sym, wasmBuffer: s.c.wasm };
    const e = await f.encap();
    if (c.check(e.ok, "the encap command failed on valid files", e)) {
      const k = await c.must("decap", () => z.decap(files, f.get("o.ct"), s.full));
      if (k) c.check(eq(k, f.get("o.key")), "the package does not recover the command's key", () => ({ recovered: hex(k), key: hex(f.get("o.key")) }));
      c.count("command_to_package");
    }
    if (s.publicWires.length) {
      const g = await c.must("encap", () => z.encap(files, s.publics));
      if (g) {
        f.put("j.ct", g.ciphertext);
        const d = await f.decap("j.ct", "j.key");
        c.check(d.ok && eq(f.get("j.key"), g.key), "the command does not recover the package's key", () => ({ ended: d }));
        const k = await c.must("decap", () => z.decap(files, g.ciphertext, s.full));
        if (k) c.check(eq(k, g.key) && k.length === 32, "the package does not recover its own key", () => ({ recovered: hex(k), key: hex(g.key) }));
        c.count("package_to_command");
      }
    }
    crashes(c, ctl); f.done();
  });
}
export async function C30(x) {
  const { z, ctl } = await open(x);
  await x.run("package", x.q(120, 4000), async (c) => {
    let s; do s = scene(c.rng, { minPub: 1 }); while (!s.publicWires.length);
    c.input(shape(s)); c.key(s.c.r1cs);
    const files = { r1csBuffer: s.c.r1cs, symContent: s.c.sym, wasmBuffer: s.c.wasm };
    const g = await c.must("encap", () => z.encap(files, s.publics));
    if (!g) return;
    for (let i = 0; i < 4; i++) {
      const v = assign(c.rng, s.c);
      if (v.slice(1, 1 + s.publicWires.length).every((a, j) => a === s.publicWires[j])) continue;
      if (violated(s.c, v) !== -1) throw new Error("monitor: the witness does not satisfy the circuit");
      const full = inputs(c.rng, s.c, v, ["pub", "prv"], (t) => t.toString());
      await c.refused("decapsulation gave a key for another public input", () => z.decap(files, g.ciphertext, full), () => ({ made_for: s.publicWires, opened_with: v.slice(1, 1 + s.publicWires.length) }));
      c.count("refused");
    }
    crashes(c, ctl);
  });
}
export async function C35(x) {
  const { z, ws, ctl } = await open(x);
  const one = async (c, s, msg, given) => {
    const f = new Files(x), text = given ?? jsonText(c.rng, s.publics), r = c.rng;
    f.put("c.r1cs", s.c.r1cs); f.put("c.sym", s.c.sym); f.put("in.json", text); f.put("msg", msg); f.put("w.wtns", s.wtns);
    const files = { r1csBuffer: s.c.r1cs, symContent: s.c.sym, wasmBuffer: s.c.wasm };
    c.input({ ...s.about, message: msg.length, text }); c.key(text, msg);
    for (const embed of s.slow ? [true] : [true, false]) {
      const e = await f.encrypt("o.enc", embed);
      if (!c.check(e.ok, "the encrypt command failed on valid files", e)) continue;
      const b = f.get("o.enc");
      let p; try { p = layout(b); } catch (err) { c.fail(`the command's file does not have the layout of the format: ${err.message}`, { file: hex(b) }); continue; }
      c.check(p.flag === (embed ? 1 : 0), "the command's flag byte does not say whether the public input is embedded", { flag: p.flag, embed });
      if (embed) c.check(p.text !== null && eq(p.text, new Uint8Array(Buffer.from(text))), "the embedded public input is not the input file's text", () => ({ file: text, embedded: p.text && Buffer.from(p.text).toString() }));
      c.check(p.sealed.length === msg.length + 28, "the sealed message does not have the message's length plus 28", { sealed: p.sealed.length, message: msg.length });
      const key = await c.must("decap", () => z.decap(files, p.ct, s.full));
      if (key) { const m = await c.out(() => unseal(key, p.sealed)); c.check(m.ok && eq(m.value, msg), "the sealed message does not open with AES-256-GCM under the recovered key", { error: m.err }); }
      const m = await c.must("decrypt of the command's file", () => z.decrypt(files, b, s.full));
      if (m) c.check(eq(m, msg), "the package does not recover the command's message", () => ({ got: hex(m), want: hex(msg) }));
      if (embed) { const q = await c.must("getPublicInput of the command's file", () => z.getPublicInput(b)); if (q) c.check(same(q, JSON.parse(text)), "getPublicInput of the command's file is not the input", () => ({ got: q, want: JSON.parse(text) })); }
      else await c.refused("getPublicInput returned something although nothing is embedded", () => z.getPublicInput(b));
      c.count("command_to_package");
    }
    for (const embed of !s.publicWires?.length && !s.slow && !s.about.circuit ? [] : s.slow ? [false] : [true, false]) {
      const g = await c.must("encrypt", () => z.encrypt(files, s.publics, msg, embed ? r.pick([undefined, {}, { includePublicInput: true }]) : { includePublicInput: false }));
      if (!g) continue;
      f.put("j.enc", g.ciphertext);
      const d = await f.decrypt("j.enc", "j.msg");
      c.check(d.ok && eq(f.get("j.msg"), msg), "the command does not recover the package's message", () => ({ ended: d, got: f.get("j.msg") && hex(f.get("j.msg")), want: hex(msg), embedded: embed }));
      let p; try { p = layout(g.ciphertext); } catch (err) { c.fail(`the package's ciphertext does not have the layout of the format: ${err.message}`, null); continue; }
      c.check(p.flag === (embed ? 1 : 0) && (!embed || same(JSON.parse(Buffer.from(p.text).toString()), s.publics)), "the package's ciphertext does not embed the public input as asked", () => ({ flag: p.flag, embedded: p.text && Buffer.from(p.text).toString(), embed }));
      c.count("package_to_command");
    }
    crashes(c, ctl); f.done();
  };
  const made = (r) => { let s; do s = scene(r); while (!s.publicWires.length); return { ...s, wtns: encodeWtns(s.w, BN254), about: shape(s) }; };
  await x.run("random", x.q(90, 5000), async (c) => { const s = made(c.rng), msg = c.rng.content(c.rng.size(3000)); c.sample({ ...s.about, message: msg.length }); await one(c, s, msg); });
  const sizes = x.interesting(x.q(140000, 2000000));
  await x.run("sizes", Math.ceil(sizes.length / x.q(8, 1)), async (c) => { const s = made(c.rng); const n = sizes[x.q(c.idx * 8 + c.rng.us(8), c.idx)] ?? 5; await one(c, s, c.rng.content(n)); c.max("largest_message", n); });
  // Messages that begin or end in what a reader of text might drop, each through one of the two tools and back through the other.
  const edges = edgeMessages();
  await x.run("edges", 1, async (c) => {
    const r = c.rng, s = made(r), files = { r1csBuffer: s.c.r1cs, symContent: s.c.sym, wasmBuffer: s.c.wasm };
    const f = new Files(x); f.put("c.r1cs", s.c.r1cs); f.put("c.sym", s.c.sym); f.put("in.json", jsonText(r, s.publics)); f.put("w.wtns", s.wtns); c.key(s.c.r1cs);
    const g = await c.must("encrypt", () => z.encrypt(files, s.publics, r.bytes(4))); if (!g) return;
    const taken = (b) => { try { return layout(b); } catch (err) { c.fail(`the combined file does not have the layout of the format: ${err.message}`, { file: hex(b) }); return null; } };
    const key = g.key, own = taken(g.ciphertext); if (!own) return;
    const head = g.ciphertext.subarray(0, g.ciphertext.length - own.sealed.length);
    for (let i = 0; i < edges.length; i++) {
      const m = edges[i];
      // The package's file, with another message sealed under its key.
      const iv = r.bytes(12), q = crypto.createCipheriv("aes-256-gcm", key, iv);
      f.put("j.enc", new Uint8Array(Buffer.concat([head, iv, q.update(m), q.final(), q.getAuthTag()])));
      const d = await f.decrypt("j.enc", "j.msg");
      c.check(d.ok && eq(f.get("j.msg"), m), "the command does not recover the package's message", () => ({ ended: d, got: f.get("j.msg") && hex(f.get("j.msg")), want: hex(m) }));
      f.put("msg", m);
      const e = await f.encrypt("o.enc", i % 2 === 0);
      if (!c.check(e.ok, "the encrypt command failed on valid files", e)) continue;
      const p = taken(f.get("o.enc")); if (!p) return;
      const k = await c.must("decap", () => z.decap(files, p.ct, s.full));
      if (k) { const o = await c.out(() => unseal(k, p.sealed)); c.check(o.ok && eq(o.value, m), "the sealed message does not open to the message", () => ({ error: o.err, got: o.ok && hex(o.value), want: hex(m) })); }
      c.count("messages_with_edges");
    }
    crashes(c, ctl); f.done();
  });
  // Input files that are empty objects, or long ones.
  await x.run("texts", x.q(20, 200), async (c) => {
    const r = c.rng; let s;
    do s = scene(r); while ((s.publicWires.length === 0) !== (c.idx % 4 === 0));
    let text = jsonText(r, s.publics);
    const n = [0, 65500 + r.us(80), 130000 + r.us(100000), 1 << 20, 255 + r.us(4)][c.idx % 5];
    if (c.idx === 0) text = "{}";
    else if (c.idx === 4) text = " {\n}\n";
    else if (r.chance(1, 2)) text += r.pick([" ", "\n"]).repeat(n);
    else text = JSON.stringify(r.chance(1, 2) ? { ...s.publics, ["spare!" + r.pick(["x", "é", "漢", "😀"]).repeat(Math.ceil(n / r.pick([1, 2, 3, 4])))]: "7" } : { ...s.publics, "spare!": Array.from({ length: Math.ceil(n / 3) }, () => r.us(100)) });
    c.max("longest_input_file", Buffer.byteLength(text));
    await one(c, { ...s, wtns: encodeWtns(s.w, BN254), about: shape(s) }, r.content(r.size(300)), text);
  });
  await x.run("committed", x.q(2, 20), async (c) => {
    const k = committed(c.rng)[c.idx % 2];
    const w = await c.must("witness calculation", () => ws.calculateWitness(k.c.wasm, k.full));
    if (w) await one(c, { ...k, wtns: w, about: { circuit: k.name }, slow: k.name === "signature" }, c.rng.content(100));
  });
}
/// Public bytes of the package's ciphertexts against the key they are made with.
export async function C38(x) {
  const { z, ctl } = await open(x);
  const sha = (b) => crypto.createHash("sha256").update(b).digest();
  await x.run("package", x.q(60, 2000), async (c) => {
    let s; do s = scene(c.rng); while (!s.publicWires.length);
    c.input(shape(s)); c.sample(shape(s)); c.key(s.c.r1cs);
    const files = { r1csBuffer: s.c.r1cs, symContent: s.c.sym, wasmBuffer: s.c.wasm }, msg = c.rng.bytes(64);
    const g = await c.must("encap", () => z.encap(files, s.publics));
    const embed = c.rng.chance(1, 2);
    const e = await c.must("encrypt", () => z.encrypt(files, s.publics, msg, { includePublicInput: embed }));
    if (!g || !e) return;
    const found = [];
    const look = (what, key, bytes, ct) => {
      const b = Buffer.from(bytes), k = Buffer.from(key);
      if (k.length !== 32) { c.fail("the key is not 32 bytes", { bytes: k.length }); return; }
      for (let i = 0; i + 8 <= 32; i++) if (b.includes(k.subarray(i, i + 8))) { found.push(`bytes ${i}..${i + 8} of the key stand in ${what}`); break; }
      for (const t of [k.toString("hex"), k.toString("hex").toUpperCase(), k.toString("base64"), k.toString("base64url").replace(/=+$/, ""), Buffer.from(k).reverse()]) if (b.includes(t)) found.push(`the key spelled out stands in ${what}`);
      const pubs = Buffer.from(JSON.stringify(s.publics));
      const strings = [["nothing", Buffer.alloc(0)], ["the circuit", Buffer.from(s.c.r1cs)], ["the public input", pubs], ["all of it", b], ["the witness ciphertext", Buffer.from(ct)], ["alpha", Buffer.from(ct.subarray(0, 32))], ["beta", Buffer.from(ct.subarray(32, 96))], ["delta", Buffer.from(ct.subarray(96, 160))], ["the elements", Buffer.from(ct.subarray(0, 160))]];
      for (const [n, v] of strings) for (const h of ["sha256", "sha512", "sha3-256", "blake2s256"]) { c.ops++; if (crypto.createHash(h).update(v).digest().subarray(0, 32).equals(k)) found.push(`the key is the ${h} hash of ${n}, out of ${what}`); }
      c.count("computations_tried", strings.length * 4 + 30);
      return strings;
    };
    look("the ciphertext of encap", g.key, g.ciphertext, g.ciphertext);
    let p; try { p = layout(e.ciphertext); } catch (err) { c.fail("the package's ciphertext does not have the layout of the format", { error: err.message }); return; }
    const key = await c.must("decap", () => z.decap(files, p.ct, s.full));
    if (key) {
      const strings = look("the ciphertext of encrypt", key, e.ciphertext, p.ct);
      c.check(!Buffer.from(e.ciphertext).includes(Buffer.from(msg).subarray(0, 16)), "the message stands in the ciphertext", null);
      for (const [n, v] of strings ?? []) for (const k of [sha(v), ...(v.length >= 32 ? [v.subarray(0, 32), v.subarray(v.length - 32)] : [])]) {
        if (Buffer.from(k).equals(Buffer.from(key))) continue;
        const o = await c.out(() => unseal(k, p.sealed));
        if (o.ok) found.push(`the message opens under a key computed from ${n}`);
      }
    }
    c.check(found.length === 0, "the key is computed from the ciphertext alone", { found });
    crashes(c, ctl);
  });
}
const WORDS = ["abc", "one", "1.5", "-0.5", "12abc", "--1", "-", "1,5", "five 5", "NaN", "Infinity", "true", "0.1", "1/2", "a1", "١٢", "1e3", "5n", "1.0"];
const FRACTIONS = ["1.5", "-0.5", "0.1", "3.999", "123456.75", "1e-3", "-2.5e0", "4503599627370495.5"];
/// Tokens whose value the three tools have to agree on.
function literal(r) {
  const p = BN254;
  let v;
  switch (r.us(13)) {
    case 9: case 10: { const d = r.range(14, 21); v = 10n ** BigInt(d - 1) * BigInt(r.range(1, 9)) + r.big(3 * d) % 10n ** BigInt(d - 1); break; }
    case 11: v = (1n << 53n) + (r.chance(1, 2) ? BigInt(r.us(40)) : r.big(r.range(10, 52))); break;
    case 12: v = (1n << BigInt(r.pick([31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128]))) + BigInt(r.range(-40, 40)); break;
    case 0: v = BigInt(r.us(2000)) - 1000n; break;
    case 1: v = (1n << BigInt(r.range(1, 52))) + BigInt(r.us(3)) - 1n; break;
    case 2: v = BigInt(Number.MAX_SAFE_INTEGER) - BigInt(r.us(3)); break;
    case 3: v = (1n << BigInt(r.range(53, 300))) + BigInt(r.us(3)) - 1n; break;
    case 4: v = p * BigInt(r.us(4)) + BigInt(r.us(5)) - 2n; break;
    case 5: v = r.big(r.range(1, 600)); break;
    case 6: v = 10n ** BigInt(r.range(1, 100)); break;
    case 7: v = 0n; break;
    default: v = r.fe(p);
  }
  if (r.chance(2, 5)) v = -v;
  const small = v >= -(2n ** 53n) + 1n && v <= 2n ** 53n - 1n;
  return { v, t: small && r.chance(1, 2) ? v.toString() : JSON.stringify(v.toString()) };
}
export async function C37(x) {
  const { z, ws, ctl } = await open(x);
  /// Texts of the public inputs and of the inputs to the witness calculation, with these tokens at these wires.
  const texts = (r, s, at) => {
    const put = (o, kinds) => { let k = 0; return JSON.stringify(inputs(r, s.c, s.w, kinds, (v, g, i) => at.has(i) ? `\u0001${at.get(i)}\u0001` : v.toString())).replace(/"\\u0001(.*?)\\u0001"/g, (_, t) => JSON.parse(`"${t}"`)); };
    return [put(0, ["out", "pub"]), put(0, ["pub", "prv"])];
  };
  await x.run("values", x.q(200, 8000), async (c) => {
    // Free public wires take random literals; the rest follows.
    const r = c.rng, base = circuit(r, { n32: 8, p: BN254, pubs: r.range(1, 7) });
    const bound = new Set(base.rules.map((u) => u.wire)), at = new Map(), keep = new Map();
    for (let i = 1 + base.nOut; i < 1 + base.nOut + base.nPub; i++) if (!bound.has(i)) { const l = literal(r); at.set(i, l.t); keep.set(i, mod(l.v, BN254)); }
    if (!at.size) return;
    const s = { c: base, w: assign(r, base, keep) }, f = new Files(x);
    const [pub, full] = texts(r, s, at);
    f.put("c.r1cs", base.r1cs); f.put("c.sym", base.sym); f.put("in.json", pub); f.put("msg", "m");
    c.input({ publics: pub, full }); c.sample({ publics: pub }); c.key(pub);
    const want = s.w.slice(1, 1 + base.nOut + base.nPub);
    const agree = (who, got) => c.check(got.length === want.length && got.every((v, i) => v === want[i]), `${who} takes an input number for another field element`, () => { const i = want.findIndex((v, j) => v !== got[j]); return { wire: i + 1, literal: at.get(i + 1), taken_as: got[i], value: want[i] }; });
    const a = await f.encap();
    if (c.check(a.ok, "the encap command failed on valid numbers", a)) agree("the encap command", carried(f.get("o.ct")));
    const b = await f.encrypt();
    if (c.check(b.ok, "the encrypt command failed on valid numbers", b)) agree("the encrypt command", carried(layout(f.get("o.enc")).ct));
    const files = { r1csBuffer: base.r1cs, symContent: base.sym };
    const g = await c.must("encap", () => z.encap(files, JSON.parse(pub)));
    if (g) agree("the package's encap", carried(g.ciphertext));
    const w = await c.must("witness calculation", () => ws.calculateWitness(base.wasm, JSON.parse(full)));
    if (w) agree("witness calculation", decodeWtns(w).values.slice(1, 1 + want.length));
    c.count("literals", at.size);
    crashes(c, ctl); f.done();
  });
  await x.run("no-numbers", x.q(140, 3000), async (c) => {
    const r = c.rng, s = scene(r, { minPub: 1 });
    const first = 1 + s.c.nOut, n = s.c.nPub;
    if (!n) return;
    const bad = c.idx < WORDS.length ? JSON.stringify(WORDS[c.idx]) : c.idx < WORDS.length + FRACTIONS.length ? FRACTIONS[c.idx - WORDS.length] : r.pick([() => JSON.stringify(r.pick(WORDS)), () => r.pick(FRACTIONS), () => `${r.us(1e6)}.${1 + r.us(99)}1`, () => JSON.stringify("xyz".repeat(1 + r.us(3)) + r.us(9))])();
    const at = new Map([[first + r.us(n), bad]]);
    const [pub, full] = texts(r, s, at), f = new Files(x);
    f.put("c.r1cs", s.c.r1cs); f.put("c.sym", s.c.sym); f.put("in.json", pub); f.put("msg", "m");
    c.input({ publics: pub, full }); c.sample({ publics: pub }); c.key(bad);
    const a = await f.encap();
    c.check(!a.ok && !f.get("o.ct") && !f.get("o.key"), "the encap command took something that is no integer", { given: bad, ended: a });
    const b = await f.encrypt();
    c.check(!b.ok && !f.get("o.enc"), "the encrypt command took something that is no integer", { given: bad, ended: b });
    await c.refused("the package's encap took something that is no integer", () => z.encap({ r1csBuffer: s.c.r1cs, symContent: s.c.sym }, JSON.parse(pub)), { given: bad });
    await c.refused("witness calculation took something that is no integer", () => ws.calculateWitness(s.c.wasm, JSON.parse(full)), { given: bad });
    c.count("refused_by_all");
    crashes(c, ctl); f.done();
  });
}

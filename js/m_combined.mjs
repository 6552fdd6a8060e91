// Combined ciphertexts and the high-level JavaScript operations over a recording stand-in for the KEM: C23, C24, C25, C26, C27.
import nodeCrypto from "node:crypto";
import { isDeepStrictEqual } from "node:util";
import { BN254, assign, circuit, encodeR1cs, inputs, mod, snapshot, spell } from "./lib/circuit.mjs";
import { known, leaves, mapAll } from "./lib/known.mjs";
import { fresh } from "./lib/kem.mjs";
import { found, overheard } from "./lib/secrets.mjs";
import { eq, hex, Rng, sleep, edgeMessages } from "./lib/mon.mjs";

const open = (k, s) => { const d = nodeCrypto.createDecipheriv("aes-256-gcm", k, s.subarray(0, 12)); d.setAuthTag(s.subarray(s.length - 16)); return new Uint8Array(Buffer.concat([d.update(s.subarray(12, s.length - 16)), d.final()])); };
function view(r, b) {
  switch (r.us(4)) {
    case 0: return b;
    case 1: { const pre = r.us(40), big = r.bytes(pre + b.length + r.us(40)); big.set(b, pre); return big.subarray(pre, pre + b.length); }
    case 2: return Buffer.from(b);
    default: { const big = Buffer.alloc(b.length + 16, 1); big.set(b, 8); return new Uint8Array(big.buffer, big.byteOffset + 8, b.length); }
  }
}
const encFiles = (r, k) => ({ r1csBuffer: view(r, k.r1cs), symContent: k.sym });
const decFiles = (r, k) => ({ r1csBuffer: view(r, k.r1cs), wasmBuffer: view(r, k.wasm) });
const filesShot = (f) => snapshot({ ...f });
/// Circuit with inputs: generated, or one of the committed ones.
function scene(r, o = {}) {
  if (o.known ?? r.chance(1, 40)) { const k = known()[o.which ?? 0], full = k.gen(r), all = Object.fromEntries(Object.keys(full).map((n) => [n, full[n]])); return { k, name: k.name, full: all, pub: k.publicOf(all), n: k.model.nPub, show: { circuit: k.name } }; }
  const k = circuit(r, o), w = assign(r, k);
  return { k, w, name: "generated", full: inputs(r, k, w, ["pub", "prv"], (q) => spell(r, q, k.p, true)), pub: inputs(r, k, w, ["out", "pub"], (q) => spell(r, q, k.p, true)), n: k.nOut + k.nPub, show: { circuit: "generated", signals: k.signals.map((s) => `${s.kind} ${s.name}${s.dims.map((d) => `[${d}]`).join("")}`) } };
}
const UNI = ["é", "電路", "😀", "\u0000", "\u2028", "\"", "\\", "\n", "ß", "\u00ff", "\ud800", "ü".normalize("NFD"), "\ufeff", "𝔘"];
function extra(r, d = 3) {
  switch (r.us(d > 0 ? 9 : 6)) {
    case 0: return r.pick([0, 1, -1, 1.5, 1e300, -2e-7, 9007199254740991]);
    case 1: return Array.from({ length: r.us(12) }, () => r.pick(UNI)).join("");
    case 2: return r.pick([true, false, null, "", "0", [], {}]);
    case 3: return "x".repeat(r.size(400));
    case 4: case 5: return r.us(1000);
    case 6: return Array.from({ length: r.us(5) }, () => extra(r, d - 1));
    default: { const o = {}; for (let i = r.us(4); i > 0; i--) o[r.pick(UNI) + r.us(9)] = extra(r, d - 1); return o; }
  }
}
const OPTS = [[undefined, true], [{}, true], [{ includePublicInput: true }, true], [{ includePublicInput: undefined }, true], [{ includePublicInput: false }, false], [{ includePublicInput: false, note: "x" }, false], [{ verbose: true }, true]];
/// Independent reading of a combined ciphertext.
function parts(b) {
  const d = Buffer.from(b.buffer, b.byteOffset, b.length); let at = 5 + d.readUInt32BE(1);
  const o = { flag: d[0], wct: b.slice(5, at), pub: null };
  if (o.wct.length !== d.readUInt32BE(1)) throw new Error("witness ciphertext cut");
  if (o.flag === 1) { const n = d.readUInt32BE(at); o.pub = b.slice(at + 4, at + 4 + n); if (o.pub.length !== n) throw new Error("public input cut"); at += 4 + n; }
  o.sealed = b.slice(at); o.sealedAt = at; return o;
}
async function encrypt(c, e, s, msg, opt) {
  const f = encFiles(c.rng, s.k), m = view(c.rng, msg), before = [filesShot(f), snapshot(s.pub), hex(m), snapshot(opt)];
  const r = await c.must("encrypt", () => opt === undefined ? e.z.encrypt(f, s.pub, m) : e.z.encrypt(f, s.pub, m, opt));
  if (!r) return;
  const after = [filesShot(f), snapshot(s.pub), hex(m), snapshot(opt)];
  if (!c.check(after.every((v, i) => v === before[i]), "encryption changed one of its arguments", {})) return;
  if (!c.check(r.ciphertext instanceof Uint8Array && r.key instanceof Uint8Array && r.key.length === 32, "encryption does not return a ciphertext and a 32-byte key", {})) return;
  return r;
}
const strange = (c, e) => { for (const w of e.kem.wrong.splice(0)) c.fail(w, {}); };

export async function C23(x) {
  const e = await fresh(x, new Rng("kem"));
  const go = async (c, s, msg, [opt, embed], ctLen) => {
    e.kem.ctLen = ctLen; e.kem.wrap = c.rng.chance(1, 2);
    c.input({ ...s.show, public_input: s.pub, message_length: msg.length, options: opt, witness_ciphertext_length: ctLen });
    const r = await encrypt(c, e, s, msg, opt);
    strange(c, e);
    if (!r) return;
    const made = [...e.kem.table].pop(); e.kem.table.clear();
    let p; try { p = parts(r.ciphertext); } catch (q) { c.fail("the combined ciphertext is not laid out as documented", { error: String(q), head: hex(r.ciphertext.subarray(0, 40)) }); return; }
    if (!c.check(p.flag === (embed ? 1 : 0), "the flag byte is wrong", { flag: p.flag, embed })) return;
    if (!c.check(Buffer.from(p.wct).toString("hex") === made[0], "the witness ciphertext part is not the one that was produced", { expected_length: ctLen, got_length: p.wct.length })) return;
    c.check(eq(r.key, made[1].key), "the returned key is not the encapsulated one", {});
    let got; try { got = open(made[1].key, p.sealed); } catch (q) { c.fail("the rest is not the sealed message", { sealed_length: p.sealed.length, message_length: msg.length }); return; }
    if (!c.check(eq(got, msg), "the sealed message holds another message", { length: msg.length, got: got.length })) return;
    if (embed) {
      let v; try { v = JSON.parse(new TextDecoder("utf-8", { fatal: true, ignoreBOM: true }).decode(p.pub)); } catch (q) { c.fail("the embedded public input is no UTF-8 JSON", { error: String(q), bytes: hex(p.pub) }); return; }
      if (!c.check(isDeepStrictEqual(v, s.pub), "the embedded public input differs from the given one", { embedded: v })) return;
      const b = view(c.rng, r.ciphertext), shot = hex(b);
      const g = await c.must("getPublicInput", () => e.z.getPublicInput(b));
      if (g !== undefined) c.check(isDeepStrictEqual(g, s.pub) && hex(b) === shot, "reading the public input back gives another value", { got: g });
      c.count("embedded"); c.max("largest_public_input", p.pub.length);
    } else { await c.refused("a public input was read although none was embedded", () => e.z.getPublicInput(view(c.rng, r.ciphertext))); c.count("not_embedded"); }
    c.max("largest_witness_ciphertext", ctLen); c.max("largest_message", msg.length);
  };
  await x.run("random", x.q(1500, 30000), async (c) => {
    const r = c.rng, s = scene(r);
    for (let i = r.us(4); i > 0; i--) s.pub["extra " + r.pick(UNI) + i] = extra(r);
    const msg = r.content(r.size(600)), ctLen = r.pick([0, 1, 27, 28, 254, 255, 256, 257, 1000, r.us(3000)]);
    c.key(snapshot(s.pub), msg, ctLen); c.sample({ ...s.show, public_input: s.pub, witness_ciphertext_length: ctLen, message_length: msg.length });
    await go(c, s, msg, r.pick(OPTS), ctLen);
  });
  const lens = x.interesting(1100000);
  await x.run("witness_length", lens.length, async (c) => { const s = scene(c.rng); c.key(lens[c.idx]); await go(c, s, c.rng.content(c.rng.us(50)), OPTS[c.rng.us(OPTS.length)], lens[c.idx]); });
  await x.run("public_length", lens.length, async (c) => {
    // JSON of exactly the given byte length, in one- and multi-byte characters.
    const s = scene(c.rng); s.pub.pad = ""; const base = Buffer.byteLength(JSON.stringify(s.pub)), n = Math.max(0, lens[c.idx] - base), u = c.rng.pick(["x", "é", "電", "😀"]), ub = Buffer.byteLength(u);
    s.pub.pad = "x".repeat(n % ub) + u.repeat(Math.floor(n / ub)); c.key(lens[c.idx]); await go(c, s, c.rng.content(c.rng.us(50)), OPTS[c.rng.us(4)], c.rng.us(300));
  });
  await x.run("message_length", lens.length, async (c) => { const s = scene(c.rng); c.key(lens[c.idx]); await go(c, s, c.rng.content(lens[c.idx]), OPTS[c.idx % 2 ? 4 : 0], c.rng.us(300)); });
  await x.run("large", x.q(2, 8), async (c) => { const s = scene(c.rng); c.key(c.idx); await go(c, s, c.rng.bytes(10), OPTS[c.idx % 5], 16777215 + c.idx); });
  await x.run("no_public", 20, async (c) => { const s = scene(c.rng, { outs: 0, pubs: 0, known: false }); s.pub = {}; c.key(c.idx); await go(c, s, c.rng.bytes(c.idx), OPTS[c.idx % 5], 64); });
  await x.run("committed", x.q(8, 60), async (c) => { const s = scene(c.rng, { known: true, which: c.idx % 2 }); c.key(snapshot(s.pub)); await go(c, s, c.rng.content(c.rng.us(500)), c.rng.pick(OPTS), 1576); });
}
export async function C24(x) {
  const e = await fresh(x, new Rng("kem"));
  const attempt = async (c, s, b, msg, must, what) => {
    const q = view(c.rng, b), shot = hex(q);
    const r = await c.out(() => e.z.decrypt(decFiles(c.rng, s.k), q, s.full));
    c.ops++; c.count(r.ok ? "returned_original" : "threw");
    if (hex(q) !== shot) return c.fail("decryption changed the ciphertext", {});
    if (!r.ok) return true;
    if (!(r.value instanceof Uint8Array) || !eq(r.value, msg)) return c.fail(`decryption returned something else than the original message: ${what}`, { got: hex(r.value ?? []), expected: hex(msg) });
    return must ? c.fail(`decryption accepted a ciphertext although it was ${what}`, { bytes: hex(b) }) : true;
  };
  const base = async (c, o = {}) => {
    const s = scene(c.rng, { maxMid: 2, known: false, scalars: true, ...o }), msg = c.rng.content(c.rng.pick([0, 1, 5, 16, 40])), embed = c.rng.chance(2, 3);
    e.kem.ctLen = o.ctLen ?? c.rng.pick([1, 3, 30, 64]); e.kem.wrap = false; e.kem.table.clear();
    const r = await encrypt(c, e, s, msg, { includePublicInput: embed });
    if (!r) return null;
    const b = new Uint8Array(r.ciphertext), p = parts(b);
    c.input({ ...s.show, ciphertext: hex(b), embed, message: hex(msg) }); c.key(b);
    if (!await attempt(c, s, b, msg, false, "untouched")) return null;
    return { s, msg, embed, b, p, r };
  };
  await x.run("every_bit", x.q(14, 200), async (c) => {
    const q = await base(c); if (!q) return;
    const { s, msg, embed, b, p } = q; c.sample({ ...s.show, length: b.length, embed });
    for (let i = 0; i < b.length * 8; i++) {
      const t = new Uint8Array(b), at = i >> 3; t[at] ^= 1 << (i & 7);
      const lenField = at >= 1 && at < 5 || embed && at >= 5 + p.wct.length && at < 9 + p.wct.length;
      if (!await attempt(c, s, t, msg, lenField || at >= p.sealedAt, lenField ? "changed in a length field" : "changed in the sealed message")) return;
    }
    c.count("bits_flipped", b.length * 8);
  });
  await x.run("every_truncation", x.q(30, 400), async (c) => {
    const q = await base(c); if (!q) return;
    const { s, msg, embed, b, p } = q;
    for (let n = 0; n < b.length; n++) {
      if (!await attempt(c, s, c.rng.chance(1, 2) ? b.subarray(0, n) : b.slice(0, n), msg, true, "truncated")) return;
      if (!embed || n < p.sealedAt) if (!await c.refused("a public input was read from truncated bytes or none was embedded", () => e.z.getPublicInput(c.rng.chance(1, 2) ? b.subarray(0, n) : b.slice(0, n)), { length: n })) return;
    }
    for (const k of [1, 2, 4, 15, 16, 17, 28, 100]) if (!await attempt(c, s, new Uint8Array(Buffer.concat([b, c.rng.chance(1, 2) ? new Uint8Array(k) : c.rng.bytes(k)])), msg, true, "extended")) return;
    if (!await attempt(c, s, new Uint8Array(Buffer.concat([b, b])), msg, true, "extended")) return;
    c.count("truncations", b.length);
  });
  await x.run("lengths", x.q(40, 600), async (c) => {
    const q = await base(c); if (!q) return;
    const { s, msg, embed, b, p } = q, n = b.length;
    const vals = (v) => [...new Set([0, 1, v - 1, v + 1, v - 5, v + 4, n, n - 1, n - 5, n - 4, n + 1, n - 28, v + 28, v - 28, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - n, 2 ** 32 - 5, 255, 256, 65535, 65536, v * 256, v + 256, v + 65536, v + 2 ** 24, ...x.ints.slice(0, 40)])].filter((t) => t >= 0 && t < 2 ** 32 && t !== v);
    const put = (at, v) => { const t = new Uint8Array(b); new DataView(t.buffer).setUint32(at, v); return t; };
    for (const v of vals(p.wct.length)) { const t = put(1, v); if (!await attempt(c, s, t, msg, true, `changed in a length field (witness ciphertext length ${v})`)) return; if (5 + v + 4 > n && !await c.refused("a public input was read from bytes that end before their declared lengths", () => e.z.getPublicInput(view(c.rng, t)))) return; }
    if (embed) for (const v of vals(p.pub.length)) {
      const t = put(5 + p.wct.length, v);
      if (!await attempt(c, s, t, msg, true, `changed in a length field (public input length ${v})`)) return;
      if (9 + p.wct.length + v > n && !await c.refused("a public input was read from bytes that end before their declared lengths", () => e.z.getPublicInput(view(c.rng, t)), { declared: v, present: n - 9 - p.wct.length })) return;
    }
    // Cut where the public input can still be read, which is declared to be longer than what is there.
    if (embed) for (const more of [1, 2, 3, 4, 5, 27, 28, 29, c.rng.range(1, 300), 65536, 2 ** 31 - p.pub.length, 2 ** 32 - 1 - p.pub.length]) {
      const blank = Math.min(more - 1, c.rng.pick([0, 0, 1, 28])), t = new Uint8Array(p.sealedAt + blank).fill(32);
      t.set(b.subarray(0, p.sealedAt)); new DataView(t.buffer).setUint32(5 + p.wct.length, p.pub.length + more);
      if (!await c.refused("a public input was read from bytes that end before its declared length", () => e.z.getPublicInput(view(c.rng, t)), { declared: p.pub.length + more, present: p.pub.length + blank })) return;
      if (!await attempt(c, s, t, msg, true, "cut after the public input")) return;
      c.count("cut_after_public");
    }
    for (let f = 0; f < 256; f++) {
      const t = new Uint8Array(b); t[0] = f;
      if (f !== b[0] && f % 5 === c.idx % 5 && !await attempt(c, s, t, msg, false, "changed in the flag")) return;
      if (f !== 1 && !await c.refused("a public input was read although the flag is not 1", () => e.z.getPublicInput(t), { flag: f })) return;
    }
    c.count("length_values_tried", 2 * vals(1).length);
  });
  await x.run("moved", x.q(60, 1500), async (c) => {
    // Parts of two ciphertexts exchanged; bytes moved from one part to the next with the lengths adjusted.
    const q = await base(c, { ctLen: 40 }); if (!q) return;
    const { s, msg, embed, b, p } = q;
    const msg2 = c.rng.bytes(msg.length + 1), r2 = await encrypt(c, e, s, msg2, { includePublicInput: embed }); if (!r2) return;
    const p2 = parts(new Uint8Array(r2.ciphertext));
    const u32 = (v) => { const o = Buffer.alloc(4); o.writeUInt32BE(v); return o; };
    const cat = (f, w, pub, z) => new Uint8Array(Buffer.concat([Buffer.from([f]), u32(w.length), w, ...(f === 1 ? [u32(pub.length), pub] : []), z]));
    const pub = p.pub ?? new Uint8Array(0), f = embed ? 1 : 0, k = c.rng.range(1, 12);
    const tries = [
      ["given another sealed message", cat(f, p.wct, pub, p2.sealed), true], ["given another witness ciphertext", cat(f, p2.wct, pub, p.sealed), true],
      ["changed: sealed bytes counted as public input", cat(1, p.wct, Buffer.concat([pub, p.sealed.subarray(0, k)]), p.sealed.subarray(k)), true],
      ["changed: empty sealed message", cat(f, p.wct, pub, new Uint8Array(0)), true], ["changed: sealed message cut to the tag", cat(f, p.wct, pub, p.sealed.slice(-16)), true],
      ["changed: sealed message in place of the public input", cat(1, p.wct, p.sealed, pub), true], ["changed: witness ciphertext empty", cat(f, new Uint8Array(0), pub, p.sealed), true],
      ["changed: sealed plaintext", cat(f, p.wct, pub, msg), true], ["changed: everything one byte later", new Uint8Array(Buffer.concat([Buffer.from([f]), b])), true],
      ["public input dropped", cat(0, p.wct, null, p.sealed), false], ["public input replaced", cat(1, p.wct, Buffer.from('{"a":1}'), p.sealed), false],
    ];
    if (embed) tries.push(["changed: public input counted as sealed", cat(1, p.wct, pub.slice(0, -1), Buffer.concat([pub.slice(-1), p.sealed])), true]);
    for (const [what, t, must] of tries) if (!await attempt(c, s, t, msg, must, what)) return;
    // A wrong witness: inputs of the same circuit with other public values.
    c.count("rearrangements", tries.length);
  });
  await x.run("arbitrary", x.q(1200, 25000), async (c) => {
    const r = c.rng, s = scene(r, { maxMid: 1, known: false, scalars: true }), b = r.content(r.size(120));
    if (b.length > 5 && r.chance(1, 2)) { b[0] = r.us(2); new DataView(b.buffer, b.byteOffset).setUint32(1, r.us(b.length)); }
    c.key(b); c.input({ bytes: hex(b), ...s.show });
    await c.refused("arbitrary bytes were decrypted", () => e.z.decrypt(decFiles(r, s.k), view(r, b), s.full));
    const g = await c.out(() => e.z.getPublicInput(view(r, b)));
    if (g.ok) { let want; try { const p = parts(b); want = p.flag === 1 ? JSON.parse(new TextDecoder().decode(p.pub)) : undefined; } catch { } c.check(want !== undefined && isDeepStrictEqual(want, g.value), "a public input was read from bytes that hold none", { got: g.value }); }
  });
  strange({ fail: (m) => x.viols.push({ case: null, input: null, message: m, detail: null }) }, e);
}
export async function C25(x) {
  const e = await fresh(x, new Rng("kem"));
  const round = async (c, s, msg, [opt, embed]) => {
    c.input({ ...s.show, public_input: s.pub, inputs: s.full, message_length: msg.length, options: opt });
    const r = await encrypt(c, e, s, msg, opt); if (!r) return;
    const back = async (what) => {
      const f = decFiles(c.rng, s.k), q = view(c.rng, r.ciphertext), before = [filesShot(f), snapshot(s.full), hex(q)];
      const d = await c.must("decrypt", () => e.z.decrypt(f, q, s.full)); if (d === undefined) return false;
      return c.check(d instanceof Uint8Array && eq(d, msg), `decryption does not return the message${what}`, () => ({ message: hex(msg), got: hex(d), length: msg.length, got_length: d.length })) && c.check([filesShot(f), snapshot(s.full), hex(q)].every((v, i) => v === before[i]), "decryption changed one of its arguments", {});
    };
    if (!await back("")) return;
    let p; try { p = parts(new Uint8Array(r.ciphertext)); } catch (q) { c.fail("the combined ciphertext cannot be taken apart", {}); return; }
    const key = await c.must("decap", () => e.z.decap(decFiles(c.rng, s.k), view(c.rng, p.wct), s.full)); if (!key) return;
    c.check(eq(key, r.key), "the recovered key is not the key encryption returned", { got: hex(key), expected: hex(r.key) });
    c.count("round_trips"); c.count("message_bytes", msg.length); strange(c, e);
    return { r, back };
  };
  await x.run("random", x.q(900, 18000), async (c) => {
    const r = c.rng, s = scene(r), msg = r.content(r.size(2000));
    e.kem.ctLen = r.range(8, 700); e.kem.wrap = r.chance(1, 2);
    c.key(snapshot(s.full), msg); c.sample({ ...s.show, message_length: msg.length });
    await round(c, s, msg, r.pick(OPTS));
  });
  const lens = x.interesting(1100000);
  const edges = edgeMessages();
  await x.run("edges", edges.length, async (c) => { const s = scene(c.rng, { known: false }); e.kem.ctLen = 64; c.key(edges[c.idx]); await round(c, s, edges[c.idx], c.rng.pick(OPTS)); });
  await x.run("message_length", lens.length, async (c) => { const s = scene(c.rng, { known: false }); e.kem.ctLen = 64; c.key(lens[c.idx]); await round(c, s, c.rng.content(lens[c.idx]), c.rng.pick(OPTS)); });
  await x.run("witness_length", lens.length, async (c) => { const s = scene(c.rng, { known: false }); e.kem.table.clear(); e.kem.ctLen = lens[c.idx]; c.key(lens[c.idx]); await round(c, s, c.rng.content(c.rng.us(60)), c.rng.pick(OPTS)); });
  await x.run("public_length", lens.length, async (c) => {
    const s = scene(c.rng, { known: false }), u = c.rng.pick(["x", "é", "電", "😀"]); e.kem.ctLen = 40;
    s.pub.pad = u.repeat(Math.ceil(lens[c.idx] / Buffer.byteLength(u))); c.key(lens[c.idx]); await round(c, s, c.rng.content(c.rng.us(60)), OPTS[0]);
  });
  await x.run("encap", x.q(200, 4000), async (c) => {
    const r = c.rng, s = scene(r, { known: false }); e.kem.ctLen = r.range(8, 300); c.key(snapshot(s.full)); c.input({ ...s.show, public_input: s.pub });
    const q = await c.must("encap", () => e.z.encap(encFiles(r, s.k), s.pub)); if (!q) return;
    if (!c.check(q.ciphertext instanceof Uint8Array && q.key instanceof Uint8Array && q.key.length === 32, "encapsulation does not return a ciphertext and a 32-byte key", {})) return;
    const k = await c.must("decap", () => e.z.decap(decFiles(r, s.k), view(r, q.ciphertext), s.full)); if (k) c.check(eq(k, q.key), "the recovered key is not the encapsulated one", {});
  });
  await x.run("history", x.q(25, 400), async (c) => {
    // Many ciphertexts of several circuits and messages, decrypted in another order, some more than once.
    const r = c.rng, live = []; e.kem.ctLen = 48; c.key(c.idx);
    for (let i = 0; i < 12; i++) { const q = await round(c, scene(r, { known: false, maxMid: 2 }), r.content(r.size(60)), r.pick(OPTS)); if (!q) return; live.push(q); }
    for (let i = 0; i < 14; i++) if (!await r.pick(live).back(" later in a history")) return;
  });
  await x.run("committed", x.q(8, 80), async (c) => { const s = scene(c.rng, { known: true, which: c.idx % 3 === 2 ? 1 : 0 }); e.kem.ctLen = 1576; c.key(snapshot(s.full)); await round(c, s, c.rng.content(c.rng.us(500)), c.rng.pick(OPTS)); });
}
export async function C26(x) {
  const e = await fresh(x, new Rng("kem"));
  e.kem.ctLen = 40;
  const via = (c, k, pub) => { const f = encFiles(c.rng, k); return c.rng.chance(1, 2) ? e.z.encap(f, pub) : e.z.encrypt(f, pub, c.rng.bytes(3), { includePublicInput: c.rng.chance(1, 2) && !/n"/.test(snapshot(pub)) }); };
  const committed = async (c, k, n, pub, want, wires) => {
    e.kem.last = null;
    c.input({ public_input: pub, public_wires: n });
    const before = snapshot(pub);
    const r = await c.must("encapsulation of a complete public input", () => via(c, k, pub)); strange(c, e); if (!r) return false;
    const l = e.kem.last;
    if (!c.check(l && l.p === BN254 && l.n8 === 32, "the assignment names another field", { prime: l?.p })) return false;
    if (!c.check(l.values[0] === 1n, "the constant wire is not 1", { got: l.values[0] })) return false;
    for (let i = 1; i <= n; i++) if (!c.check(l.values[i] === want[i], "a public wire does not carry its value", () => ({ wire: i, signal: [...wires].find((q) => q[1] === i)?.[0], expected: want[i], got: l.values[i] }))) return false;
    c.count("public_wires_checked", n); c.check(snapshot(pub) === before, "encapsulation changed its inputs", {});
    return true;
  };
  const big = (r, c) => (q) => { const v = spell(r, q, BN254, false); return v; };
  await x.run("random", x.q(2500, 40000), async (c) => {
    const r = c.rng, k = circuit(r, { minPub: 1, pubs: r.range(1, 6) }), w = assign(r, k), n = k.nOut + k.nPub;
    for (let t = 0; t < 3; t++) {
      const pub = inputs(r, k, w, r.chance(1, 4) ? ["out", "pub", "prv"] : ["out", "pub"], big(r, c));
      if (r.chance(1, 3)) pub["unknown" + r.us(5)] = r.pick([0, "1", [1, 2], { a: 1 }, "text"]);
      c.key(k.r1cs, snapshot(pub)); c.sample({ public_input: pub, public_wires: n });
      if (!await committed(c, k, n, pub, w, k.wireOf)) return;
    }
  });
  await x.run("values", x.q(900, 15000), async (c) => {
    // Values around every multiple and power that a conversion could get wrong.
    const r = c.rng, k = circuit(r, { outs: 0, pubs: 3, scalars: true, prvs: 1, maxMid: 0 }), p = BN254;
    const edge = () => { const b = r.pick([0n, p, 2n * p, 5n * p, 1n << 253n, 1n << 254n, 1n << 255n, 1n << 256n, 1n << 257n, 1n << 300n, 1n << 512n, 1n << 64n, 1n << 63n, 1n << 53n, 1n << 32n, 1n << 31n, p - 1n, (p - 1n) / 2n, r.big(254), r.big(270)]) + BigInt(r.range(-3, 3)); return r.chance(1, 2) ? b : -b; };
    const w = [1n], pub = {};
    for (const s of k.signals.filter((q) => q.kind === "pub")) { const v = edge(); w[s.first] = mod(v, p); pub[s.name] = v >= -9007199254740991n && v <= 9007199254740991n && r.chance(1, 2) ? Number(v) : r.chance(1, 3) ? v : v >= 0n && r.chance(1, 4) ? "0x" + v.toString(16) : v.toString(); }
    c.key(snapshot(pub)); await committed(c, k, k.nPub, pub, w, k.wireOf);
  });
  await x.run("changed", x.q(300, 5000), async (c) => {
    // One object of files and one of inputs, changed in place between the calls; symbol files of one length.
    const r = c.rng, k = circuit(r, { outs: 0, pubs: r.range(3, 6), scalars: true, prvs: 2, maxMid: 30 }), n = k.nPub, names = k.signals.filter((q) => q.kind === "pub").map((q) => q.name), at = new Map(k.wireOf);
    const f = encFiles(r, k), w = assign(r, k), pub = inputs(r, k, w, ["pub"]), text = k.sym;
    // Lines of the signals by wire; exchanging the names of two of them keeps the length.
    const write = () => text.split("\n").map((l) => { const q = l.split(","), s = q[3]?.trim().slice(5); return names.includes(s) ? [q[0], at.get(s), q[2], q[3]].join(",") : l; }).join("\n");
    c.key(k.r1cs);
    for (let t = 0; t < 6; t++) {
      if (t) { const a = r.pick(names), b = r.pick(names); if (r.chance(1, 2)) { const v = at.get(a); at.set(a, at.get(b)); at.set(b, v); f.symContent = write(); } else pub[a] = r.chance(1, 2) ? r.fe(BN254).toString() : r.us(1000); }
      const want = [1n]; for (const q of names) want[at.get(q)] = mod(BigInt(pub[q]), BN254);
      e.kem.last = null; c.input({ public_input: pub, wires: names.map((q) => [q, at.get(q)]) });
      if (!await c.must("encapsulation of a complete public input", () => r.chance(2, 3) ? e.z.encap(f, pub) : e.z.encrypt(f, pub, r.bytes(3)))) return;
      for (let i = 1; i <= n; i++) if (!c.check(e.kem.last.values[i] === want[i], "a public wire does not carry its value after a change of the files or inputs", () => ({ wire: i, expected: want[i], got: e.kem.last.values[i] }))) return;
      c.count("changes_followed");
    }
    strange(c, e);
  });
  await x.run("many", x.q(3, 12), async (c) => {
    // As many public inputs as large circuits have.
    const r = c.rng, n = [66000, 131100, 210000, 300000][c.idx % 4] + r.us(50), dims = r.pick([[n], [2, n >> 1], [n >> 3, 8]]), size = dims.reduce((a, b) => a * b, 1);
    const model = { n8: 32, p: BN254, nWires: size + 3, nOut: 0, nPub: size + 1, nPrv: 1, constraints: [[[[1, 1n]], [[0, 1n]], [[size + 2, 1n]]]] }, lines = [`1,1,0,main.first`], want = [1n, 7n];
    const put = (d, pre) => d.length ? Array.from({ length: d[0] }, (_, i) => put(d.slice(1), `${pre}[${i}]`)) : (lines.push(`${want.length},${want.length},0,main.${pre}`), want.push(BigInt(want.length * 3)), r.us(2) ? Number(want.at(-1)) : String(want.at(-1)));
    const pub = { big: put(dims, "big"), first: "7" }; lines.push(`9,${size + 2},0,main.last`); if (r.chance(1, 2)) pub.last = 7;
    c.key(c.idx); c.max("most_public_inputs", size + 1);
    const k = { r1cs: encodeR1cs(model), sym: lines.join("\n") + "\n" }; e.kem.last = null;
    const f = encFiles(r, k); c.input({ dims });
    if (!await c.must("encapsulation of a complete public input", () => e.z.encap(f, pub))) return;
    for (let i = 0; i <= size + 1; i++) if (e.kem.last.values[i] !== want[i]) return c.fail("a public wire does not carry its value", { wire: i, expected: want[i], got: e.kem.last.values[i] });
    c.ops++; e.kem.circuits.clear(); e.kem.table.clear();
    strange(c, e);
  });
  await x.run("missing", x.q(900, 15000), async (c) => {
    const r = c.rng, k = circuit(r, { minPub: 1, pubs: r.range(1, 4) }), w = assign(r, k), n = k.nOut + k.nPub;
    c.key(k.r1cs);
    const sigs = k.signals.filter((s) => s.kind !== "prv");
    const subsets = sigs.length <= 4 ? Array.from({ length: (1 << sigs.length) - 1 }, (_, m) => sigs.filter((_, i) => m >> i & 1)) : Array.from({ length: 12 }, () => sigs.filter(() => r.chance(2, 3))).filter((q) => q.length < sigs.length);
    for (const keep of subsets) {
      const all = inputs(r, k, w, r.chance(1, 2) ? ["out", "pub", "prv"] : ["out", "pub"]), pub = {};
      for (const q of Object.keys(all)) if (!sigs.some((s) => s.name === q) || keep.some((s) => s.name === q)) pub[q] = all[q];
      c.input({ public_input: pub, missing: sigs.filter((s) => !keep.includes(s)).map((s) => s.name) }); c.sample({ public_input: pub, missing: sigs.filter((s) => !keep.includes(s)).map((s) => s.name) });
      if (!await c.refused("encapsulation succeeded although public inputs are missing", () => via(c, k, pub))) return;
      c.count("subsets_refused");
    }
    for (const s of sigs.filter((q) => q.dims.length)) {
      // One element of an array missing at its end; the whole array given as one value.
      const all = inputs(r, k, w, ["out", "pub"]); let at = all[s.name]; while (Array.isArray(at[0]) && r.chance(4, 5)) at = at[at.length - 1]; at.pop();
      c.input({ public_input: all, shortened: s.name });
      if (!await c.refused("encapsulation succeeded although an element is missing", () => via(c, k, all))) return;
      const misnamed = inputs(r, k, w, ["out", "pub"]); misnamed[s.name + "_"] = misnamed[s.name]; delete misnamed[s.name];
      if (!await c.refused("encapsulation succeeded although a signal is misnamed", () => via(c, k, misnamed))) return;
      c.count("elements_refused");
    }
    strange(c, e);
  });
  for (const kc of known()) await x.run(kc.name, x.q(60, 800), async (c) => {
    const r = c.rng, full = kc.gen(r), n = kc.model.nPub, w = [1n], pub = kc.publicOf(mapAll(Object.fromEntries(r.shuffle(Object.keys(full)).map((q) => [q, full[q]])), (q) => spell(r, BigInt(q), BN254)));
    for (const q of kc.pub) for (const [ix, v] of leaves(full[q])) w[kc.wireOf.get(q + ix)] = BigInt(v);
    c.key(snapshot(pub));
    if (!await committed(c, kc, n, pub, w, kc.wireOf)) return;
    const gone = r.pick(Object.keys(pub)), less = { ...pub }; r.chance(1, 2) || !Array.isArray(less[gone]) ? delete less[gone] : less[gone] = less[gone].slice(0, -1);
    c.input({ circuit: kc.name, public_input: less }); await c.refused("encapsulation succeeded although public inputs are missing", () => via(c, kc, less));
  });
}
export async function C27(x) {
  const orders = new Set();
  // Injected delays at every asynchronous step the package takes, so that calls interleave differently each time.
  const real = { compile: WebAssembly.compile, instantiate: WebAssembly.instantiate, enc: crypto.subtle.encrypt, dec: crypto.subtle.decrypt, imp: crypto.subtle.importKey };
  const sub = Object.getPrototypeOf(crypto.subtle);
  let jr = new Rng("jitter"), on = true, steps = 0, gate = [], together = 0;
  // Calls held at a gate go on in the same turn, one step each.
  const hold = () => new Promise((q) => { if (!gate.length) setTimeout(() => { const g = gate; gate = []; if (g.length > 1) together++; for (const f of g) f(); }, 1 + jr.us(3)); gate.push(q); });
  const lag = async () => { if (!on) return; steps++; const k = jr.us(9); if (k > 5) await hold(); else if (k === 0) await sleep(jr.us(4)); else if (k < 3) for (let i = jr.us(8); i > 0; i--) await null; else if (k === 3) await new Promise((q) => setImmediate(q)); };
  WebAssembly.compile = async function (...a) { await lag(); const v = await real.compile.apply(WebAssembly, a); await lag(); return v; };
  WebAssembly.instantiate = async function (...a) { await lag(); const v = await real.instantiate.apply(WebAssembly, a); await lag(); return v; };
  sub.encrypt = async function (...a) { const p = await real.enc.apply(this, a); await lag(); return p; };
  sub.decrypt = async function (...a) { const p = await real.dec.apply(this, a); await lag(); return p; };
  sub.importKey = async function (...a) { const p = await real.imp.apply(this, a); await lag(); return p; };
  await x.run("storm", x.q(120, 2500), async (c) => {
    const r = c.rng, e = await fresh(x, r);
    e.kem.ctLen = () => r.range(16, 90); e.kem.initDelay = r.pick([-1, 0, 0, 1, 5, 15]); e.kem.wrap = r.chance(1, 3);
    const scenes = Array.from({ length: r.range(1, 4) }, () => scene(r, { known: false, maxMid: 2 }));
    // The same circuits with other inputs.
    for (const s of [...scenes]) for (let i = r.us(3); i > 0; i--) { const w = assign(r, s.k); scenes.push({ ...s, w, full: inputs(r, s.k, w, ["pub", "prv"], (q) => spell(r, q, s.k.p, true)), pub: inputs(r, s.k, w, ["out", "pub"], (q) => spell(r, q, s.k.p, true)) }); }
    const same = r.chance(1, 2), files = new Map();
    const encOf = (s) => { if (!same) return encFiles(r, s.k); if (!files.has(s.k)) files.set(s.k, [encFiles(r, s.k), decFiles(r, s.k)]); return files.get(s.k)[0]; }, decOf = (s) => { if (!same) return decFiles(r, s.k); encOf(s); return files.get(s.k)[1]; };
    c.key(c.idx); c.input({ init_delay: e.kem.initDelay, circuits: scenes.map((s) => s.show) });
    const witness = (await import(new URL(`file://${e.root}/dist/witness.js`))).calculateWitnessArray;
    const made = [], done = [];
    const one = async (i) => {
      const s = r.pick(scenes), kind = r.us(made.length ? 9 : 5), msg = r.content(r.size(80)), files = encOf(s);
      if (r.chance(1, 3)) await lag();
      switch (kind) {
        case 0: case 1: { const opt = r.pick(OPTS)[0], q = await e.z.encrypt(files, s.pub, msg, opt); made.push({ s, msg, ct: q.ciphertext, key: q.key }); const t = e.kem.table.get(Buffer.from(parts(new Uint8Array(q.ciphertext)).wct).toString("hex")); return ["encrypt", !!t && eq(t.key, q.key)]; }
        case 2: { const q = await e.z.encap(files, s.pub), k = await e.z.decap(decOf(s), q.ciphertext, s.full); return ["encap and decap", eq(k, q.key)]; }
        case 3: { if (!s.w) return ["witness", true]; const w = await witness(s.k.wasm, s.full); return ["witness", w.length === s.w.length && w.every((v, j) => v === s.w[j])]; }
        case 4: {
          // Calls that have to fail.
          const f = r.us(3);
          const out = await (f === 0 ? e.z.decrypt(decFiles(r, s.k), r.bytes(60), s.full) : f === 1 ? e.z.encap({ r1csBuffer: r.bytes(5), symContent: s.k.sym }, s.pub) : e.z.decap({ r1csBuffer: s.k.r1cs, wasmBuffer: r.bytes(20) }, r.bytes(30), s.full)).then(() => "returned", () => "failed");
          return ["failing call", out === "failed"];
        }
        case 5: { const m = r.pick(made); return ["getPublicInput", await (async () => { const p = parts(new Uint8Array(m.ct)); try { const g = e.z.getPublicInput(m.ct); return p.flag === 1 && isDeepStrictEqual(g, m.s.pub); } catch { return p.flag !== 1; } })()]; }
        default: { const m = r.pick(made), d = await e.z.decrypt(decOf(m.s), m.ct, m.s.full); return ["decrypt", eq(d, m.msg)]; }
      }
    };
    const errs = console.error; console.error = () => { };
    const n = r.range(4, 24), jobs = [];
    for (let wave = 0; wave < 3; wave++) {
      for (let i = 0; i < n; i++) { const id = jobs.length; jobs.push(c.out(() => one(id)).then((q) => { done.push(id); return q; })); }
      if (wave < 2) await (r.chance(1, 2) ? Promise.all(jobs) : sleep(r.us(6)));
    }
    const res = await Promise.all(jobs);
    console.error = errs;
    orders.add(done.join(",")); c.sample({ calls: jobs.length, completion_order: done.slice(0, 30) });
    for (const q of res) { if (!c.check(q.ok, "an overlapping call failed that succeeds alone", { error: q.err })) return; if (!c.check(q.value[1], `an overlapping call gave another result than alone: ${q.value[0]}`, {})) return; c.count(`calls ${q.value[0]}`); }
    c.check(e.kem.inits === 1, "the module was not initialised exactly once", { inits: e.kem.inits, events: e.kem.events.slice(0, 12) });
    strange(c, e);
  });
  await x.run("first_calls", x.q(120, 2000), async (c) => {
    // Only the very first calls, all started before the module can be ready.
    const r = c.rng, e = await fresh(x, r); e.kem.ctLen = 24; e.kem.initDelay = r.pick([0, 2, 8]);
    const s = scene(r, { known: false, maxMid: 1 }), n = r.range(2, 8); c.key(c.idx); c.input({ calls: n, init_delay: e.kem.initDelay, ...s.show });
    const kinds = Array.from({ length: n }, () => r.us(4)), msg = r.bytes(9);
    const res = await Promise.all(kinds.map((k) => c.out(() => k === 0 ? e.z.encap(encFiles(r, s.k), s.pub) : k === 1 ? e.z.encrypt(encFiles(r, s.k), s.pub, msg) : k === 2 ? e.z.decap(decFiles(r, s.k), r.bytes(9), s.full) : e.z.decrypt(decFiles(r, s.k), r.bytes(70), s.full))));
    res.forEach((q, i) => c.check(q.ok === kinds[i] < 2, "a first call went otherwise than alone", { call: ["encap", "encrypt", "decap of junk", "decrypt of junk"][kinds[i]], error: q.err }));
    for (const q of res.filter((q, i) => q.ok && kinds[i] < 2)) c.check(q.value.ciphertext.length > 0 && q.value.key.length === 32, "a first call gave no result", {});
    const used = e.kem.events.filter((v) => v.startsWith("wasm")).length;
    c.check(e.kem.inits === 1 || !used && e.kem.inits === 0, "the module was not initialised exactly once", { inits: e.kem.inits, events: e.kem.events.slice(0, 12) });
    c.count("first_calls", n); strange(c, e);
  });
  x.counters.distinct_completion_orders = orders.size; x.counters.injected_delays = steps; x.counters.released_together = together;
  on = false;
}
/// Nothing secret is said.
export async function C42(x) {
  const e = await fresh(x, new Rng("kem"));
  const witness = (await import(new URL(`file://${e.root}/dist/witness.js`))), sealing = (await import(new URL(`file://${e.root}/dist/crypto.js`)));
  await x.run("package", x.q(500, 20000), async (c) => {
    const r = c.rng, s = c.idx % 40 === 39 ? scene(r, { known: true, which: 1 }) : scene(r, { known: false, prvs: r.range(1, 4) }); e.kem.ctLen = r.range(8, 200);
    const msg = r.chance(1, 2) ? r.bytes(r.range(12, 90)) : Buffer.from(Array.from({ length: r.range(12, 90) }, () => r.pick([..."abcdefghijklmnopqrstuvwxyz ABCDEFGH 0123456789"])).join(""));
    c.key(snapshot(s.full)); c.input(s.show); c.sample(s.show);
    // Private values that no public one shows.
    const bytes = [["the message", new Uint8Array(msg), 12]], numbers = [], mid = (v) => v >> 64n & (1n << 128n) - 1n;
    const known_ = new Set(s.w ? s.w.slice(0, s.n + 1).flatMap((v) => [mid(v), mid(mod(-v, BN254))]) : []);
    if (s.w) for (let i = s.n + 1; i < s.w.length; i++) { const v = s.w[i], m = mod(-v, BN254); if (!known_.has(mid(v)) && !known_.has(mid(m)) && v > 1n << 70n && m > 1n << 70n) numbers.push([`private wire ${i}`, v], [`private wire ${i}, negated`, m], [`private wire ${i}, off by one`, v + 1n]); }
    // The same as they are spelled, reduced or not.
    if (s.w) for (const g of s.k.signals.filter((q) => q.kind === "prv" && q.name in s.full)) for (const [, t] of leaves(s.full[g.name])) { const v = BigInt(t), a = v < 0n ? -v : v; if (![v, -v].some((q) => known_.has(mid(mod(q, BN254))))) numbers.push([`private input ${g.name}`, a], [`private input ${g.name}, off by one`, v < 0n ? a - 1n : a + 1n]); }
    const logs = [], opt = { includePublicInput: r.chance(1, 2) && !/n"/.test(snapshot(s.pub)) };
    const hear = async (what, f) => { const o = await overheard(f); logs.push([what, o.said]); return o; };
    const q = await hear("encrypt", () => e.z.encrypt(encFiles(r, s.k), s.pub, msg, opt)), g = await hear("encap", () => e.z.encap(encFiles(r, s.k), s.pub));
    if (!c.check(q.ok && g.ok, "an operation failed on valid input", () => ({ error: String(q.err ?? g.err) }))) return;
    bytes.push(["the key", q.value.key, 8], ["the key", g.value.key, 8]);
    const own = r.bytes(32), sealed = await hear("aesGcmEncrypt", () => sealing.aesGcmEncrypt(own, msg)); bytes.push(["the key", own, 8]);
    await hear("decrypt", () => e.z.decrypt(decFiles(r, s.k), q.value.ciphertext, s.full));
    await hear("decap", () => e.z.decap(decFiles(r, s.k), g.value.ciphertext, s.full));
    await hear("calculateWitness", () => witness.calculateWitness(s.k.wasm, s.full));
    await hear("getPublicInput", () => e.z.getPublicInput(q.value.ciphertext));
    // Operations that fail.
    const cut = (b) => b.slice(0, r.us(b.length)), flip = (b) => { const t = new Uint8Array(b); if (t.length) t[r.us(t.length)] ^= 1 << r.us(8); return t; };
    const less = (o) => { const t = structuredClone(o), k = Object.keys(t); if (k.length) delete t[r.pick(k)]; return t; };
    const off = (o) => { const t = structuredClone(o), k = Object.keys(t); if (k.length) { const n = r.pick(k), bump = (v) => Array.isArray(v) ? v.map((y, i) => i ? y : bump(y)) : (BigInt(v) + 1n).toString(); t[n] = bump(t[n]); } return t; };
    const more = (o) => { const t = structuredClone(o), k = Object.keys(t); if (k.length) { const n = r.pick(k); t[n] = [t[n], t[n]]; } return t; };
    for (const [what, f] of [
      ["decrypt of a cut ciphertext", () => e.z.decrypt(decFiles(r, s.k), cut(q.value.ciphertext), s.full)],
      ["decrypt of a changed ciphertext", () => e.z.decrypt(decFiles(r, s.k), flip(q.value.ciphertext), s.full)],
      ["decap of a changed ciphertext", () => e.z.decap(decFiles(r, s.k), flip(g.value.ciphertext), s.full)],
      ["decrypt with an input missing", () => e.z.decrypt(decFiles(r, s.k), q.value.ciphertext, less(s.full))],
      ["decrypt with another input", () => e.z.decrypt(decFiles(r, s.k), q.value.ciphertext, off(s.full))],
      ["decrypt with too many values", () => e.z.decrypt(decFiles(r, s.k), q.value.ciphertext, more(s.full))],
      ["decap with another input", () => e.z.decap(decFiles(r, s.k), g.value.ciphertext, off(s.full))],
      ["decap with damaged code", () => e.z.decap({ r1csBuffer: s.k.r1cs, wasmBuffer: flip(cut(s.k.wasm)) }, g.value.ciphertext, s.full)],
      ["encrypt with an input missing", () => e.z.encrypt(encFiles(r, s.k), less(s.pub), msg, opt)],
      ["encrypt for a damaged circuit", () => e.z.encrypt({ r1csBuffer: cut(s.k.r1cs), symContent: s.k.sym }, s.pub, msg, opt)],
      ["aesGcmEncrypt with a short key", () => sealing.aesGcmEncrypt(own.slice(0, 31), msg)],
      ["aesGcmDecrypt with a long key", () => sealing.aesGcmDecrypt(new Uint8Array([...own, 1]), sealed.value)],
      ["aesGcmDecrypt of a changed message", () => sealing.aesGcmDecrypt(own, flip(sealed.value))],
      ["aesGcmDecrypt of a cut message", () => sealing.aesGcmDecrypt(own, cut(sealed.value))],
    ]) { const o = await hear(what, f); c.count(o.ok ? "failing_operations_that_did_not" : "failing_operations"); }
    c.count("secrets_looked_for", bytes.length + numbers.length);
    for (const [what, t] of logs) { c.ops++; c.count("operations_overheard"); c.count("characters_looked_through", t.length); const w = found(t, bytes, numbers); if (w) { c.fail(`a secret is printed or in an error`, { operation: what, secret: w, said: t.slice(0, 2000) }); return; } }
    strange(c, e);
  });
}

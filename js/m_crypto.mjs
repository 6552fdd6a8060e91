// AES-GCM of the JavaScript package: C01, C02, C03, C04, C06. Independent implementation: OpenSSL through node:crypto.
import nodeCrypto from "node:crypto";
import { Worker } from "node:worker_threads";
import { spawn } from "node:child_process";
import path from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";
import { eq, hex, edgeMessages, Rng } from "./lib/mon.mjs";
import { tree, load } from "./lib/load.mjs";

const refSeal = (k, n, m) => { const c = nodeCrypto.createCipheriv("aes-256-gcm", k, n); return Buffer.concat([n, c.update(m), c.final(), c.getAuthTag()]); };
const refOpen = (k, s) => { const d = nodeCrypto.createDecipheriv("aes-256-gcm", k, s.subarray(0, 12)); d.setAuthTag(s.subarray(s.length - 16)); return Buffer.concat([d.update(s.subarray(12, s.length - 16)), d.final()]); };
/// The same bytes held in different ways.
function view(r, b) {
  switch (r.us(4)) {
    case 0: return b;
    case 1: { const pre = r.us(40), post = r.us(40); const big = r.bytes(pre + b.length + post); big.set(b, pre); return big.subarray(pre, pre + b.length); }
    case 2: return Buffer.from(b);
    default: { const big = Buffer.alloc(b.length + 16, 7); big.set(b, 8); return new Uint8Array(big.buffer, big.byteOffset + 8, b.length); }
  }
}
const keyOf = (r) => r.chance(1, 8) ? new Uint8Array(32).fill(r.pick([0, 255, 1])) : r.bytes(32);
async function mod(x) { return load(tree(x.scratch), "crypto.js"); }

async function trip(c, m, k, msg) {
  const key = view(c.rng, k), data = view(c.rng, msg);
  const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(key, data));
  if (!e) return;
  if (!c.check(e instanceof Uint8Array && e.length === msg.length + 28, "a sealed message is not 28 bytes longer", { length: msg.length, sealed: e?.length })) return;
  c.check(eq(key, k) && eq(data, msg), "encryption changed its arguments", {});
  const sealed = view(c.rng, new Uint8Array(e)), copy = new Uint8Array(e);
  const d = await c.must("aesGcmDecrypt", () => m.aesGcmDecrypt(key, sealed));
  if (!d) return;
  c.check(d instanceof Uint8Array && eq(d, msg), "decryption does not return the message", () => ({ message: hex(msg), got: hex(d), length: msg.length, got_length: d.length }));
  c.check(eq(key, k) && eq(sealed, copy), "decryption changed its arguments", {});
  c.count("bytes", msg.length);
}
export async function C01(x) {
  const m = await mod(x);
  await x.run("random", x.q(3000, 60000), async (c) => {
    const k = keyOf(c.rng), msg = c.rng.content(c.rng.size(2000));
    c.key(k, msg); c.input({ key: hex(k), message: hex(msg), length: msg.length }); c.sample({ key: hex(k), length: msg.length });
    await trip(c, m, k, msg);
  });
  const edges = edgeMessages();
  await x.run("edges", edges.length, async (c) => { const m1 = edges[c.idx]; c.key(m1); c.input({ message: hex(m1) }); await trip(c, m, keyOf(c.rng), m1); });
  const lens = x.interesting(1100000);
  await x.run("len", lens.length, async (c) => { c.key(lens[c.idx]); c.input({ length: lens[c.idx] }); await trip(c, m, keyOf(c.rng), c.rng.content(lens[c.idx])); });
  await x.run("every_len", x.q(520, 5000), async (c) => { c.key(c.idx); c.input({ length: c.idx }); await trip(c, m, keyOf(c.rng), c.rng.bytes(c.idx)); });
  await x.run("large", x.q(4, 20), async (c) => { const n = 1048577 * c.rng.range(1, 5) + c.rng.us(3); c.key(n); c.input({ length: n }); await trip(c, m, keyOf(c.rng), c.rng.bytes(n)); });
  await x.run("huge", 4, async (c) => { const n = [(1 << 24) - 1, 1 << 24, (1 << 24) + 1 + c.rng.us(100000), (1 << 25) + c.rng.us(1000)][c.idx]; c.key(n); c.input({ length: n }); await trip(c, m, keyOf(c.rng), c.rng.bytes(n)); });
  await x.run("reused_buffers", x.q(40, 1000), async (c) => {
    // One key array and one message array, refilled between calls: every call is about their content at that time.
    const key = new Uint8Array(32), data = new Uint8Array(c.rng.range(1, 60)), sealed = [];
    const keys = [c.rng.bytes(32), c.rng.bytes(32), c.rng.bytes(32)];
    for (let i = 0; i < 8; i++) {
      const k = c.rng.pick(keys), msg = c.rng.bytes(data.length); key.set(k); data.set(msg);
      const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(key, data)); if (!e) return;
      sealed.push([k, msg, new Uint8Array(e)]);
    }
    c.key(data.length, keys[0]); c.count("history_calls", 16);
    for (const [k, msg, e] of c.rng.shuffle(sealed)) {
      if (c.rng.chance(1, 2)) key.set(k); const d = await c.must("aesGcmDecrypt", () => m.aesGcmDecrypt(eq(key, k) ? key : new Uint8Array(k), e)); if (!d) return;
      if (!c.check(eq(d, msg), "decryption does not return the message when a key array is reused for another key", () => ({ message: hex(msg), got: hex(d) }))) return;
    }
  });
  await x.run("history", x.q(60, 1500), async (c) => {
    // Interleaved and overlapping calls with related keys.
    const base = c.rng.bytes(32), keys = [base];
    for (let i = 0; i < 4; i++) { const k = new Uint8Array(base); k[c.rng.us(32)] ^= 1 << c.rng.us(8); keys.push(k); }
    const msgs = Array.from({ length: 24 }, () => c.rng.content(c.rng.size(100)));
    const ks = msgs.map(() => c.rng.pick(keys));
    const sealed = await c.must("overlapping encryptions", () => Promise.all(msgs.map((q, i) => m.aesGcmEncrypt(ks[i], q))));
    if (!sealed) return;
    const order = c.rng.shuffle(msgs.map((_, i) => i));
    const jobs = order.map((i) => c.rng.chance(1, 4) ? m.aesGcmDecrypt(keys[(keys.indexOf(ks[i]) + 1) % keys.length], sealed[i]).then(() => "opened", () => "refused") : m.aesGcmDecrypt(ks[i], sealed[i]));
    const got = await c.must("overlapping decryptions", () => Promise.all(jobs));
    if (!got) return;
    order.forEach((i, j) => { if (typeof got[j] !== "string") c.check(eq(got[j], msgs[i]), "decryption in a history does not return the message", () => ({ message: hex(msgs[i]), got: hex(got[j]) })); });
    c.key(base); c.count("history_calls", 48);
  });
}
export async function C02(x) {
  const m = await mod(x);
  const no = (c, k, s, why, d) => c.refused(why, () => m.aesGcmDecrypt(k, s), d);
  await x.run("every_bit", x.q(24, 300), async (c) => {
    const k = keyOf(c.rng), msg = c.rng.content(c.rng.pick([0, 1, 15, 16, 17, 40, 64]));
    const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(k, msg));
    if (!e) return;
    c.key(k); c.input({ message: hex(msg), sealed: hex(e) }); c.sample({ length: msg.length, bits: e.length * 8 });
    for (let i = 0; i < e.length * 8; i++) { const t = new Uint8Array(e); t[i >> 3] ^= 1 << (i & 7); if (!await no(c, k, t, "a sealed message with one bit flipped was opened", { bit: i })) return; }
    c.count("bits_flipped", e.length * 8);
    for (let i = 0; i < 256; i++) { const t = new Uint8Array(k); t[i >> 3] ^= 1 << (i & 7); if (!await no(c, t, e, "a sealed message was opened with another key", { key_bit: i })) return; }
    for (let i = 0; i < e.length; i++) if (!await no(c, k, e.slice(0, i), "a truncated sealed message was opened", { length: i }) || !await no(c, k, e.slice(e.length - i), "a truncated sealed message was opened", { tail: i })) return;
  });
  await x.run("related_keys", x.q(30, 600), async (c) => {
    // Sealing under related keys in turn: what one sealed no other opens.
    const base = c.rng.bytes(32), at = c.rng.us(32), keys = [base, ...Array.from({ length: 3 }, (_, i) => { const k = new Uint8Array(base); k[(at + i * 11) % 32] ^= 1 << c.rng.us(8); return k; })];
    const same = new Uint8Array(32), msg = c.rng.content(c.rng.us(60)), sealed = [];
    for (let i = 0; i < 6; i++) { const j = i < 4 ? i : c.rng.us(4); same.set(keys[j]); const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(i & 1 ? keys[j] : same, msg)); if (!e) return; sealed.push([j, e]); }
    c.key(base); c.input({ keys: keys.map(hex) });
    for (const [j, e] of sealed) for (let q = 0; q < 4; q++) if (q !== j && !await no(c, keys[q], e, "a sealed message was opened with a related key", { sealed_with: j, opened_with: q })) return;
  });
  await x.run("shape", x.q(700, 20000), async (c) => {
    const k = keyOf(c.rng), a = c.rng.content(c.rng.size(300)), b = c.rng.chance(1, 2) ? c.rng.bytes(a.length) : c.rng.content(c.rng.size(300));
    const ea = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(k, a)), eb = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(k, b));
    if (!ea || !eb) return;
    c.key(k); c.input({ a: hex(ea), b: hex(eb) });
    const cat = (...p) => new Uint8Array(Buffer.concat(p));
    const n = ea.length, i = c.rng.us(n + 1), j = c.rng.us(n);
    const forms = {
      append: cat(ea, c.rng.bytes(c.rng.range(1, 20))), append_zero: cat(ea, new Uint8Array(1)), prepend: cat(c.rng.bytes(c.rng.range(1, 20)), ea), insert: cat(ea.subarray(0, i), c.rng.bytes(1), ea.subarray(i)),
      drop: cat(ea.subarray(0, j), ea.subarray(j + 1)), doubled: cat(ea, ea), nonce_of_other: cat(eb.subarray(0, 12), ea.subarray(12)), tag_of_other: cat(ea.subarray(0, n - 16), eb.subarray(eb.length - 16)),
      body_of_other: cat(ea.subarray(0, 12), eb.subarray(12, eb.length - 16), ea.subarray(n - 16)), reversed: new Uint8Array(ea).reverse(), zero_tag: cat(ea.subarray(0, n - 16), new Uint8Array(16)), no_tag: ea.slice(0, n - 16),
      short_tag: ea.slice(0, n - 1), tag12: ea.slice(0, n - 4), plaintext: a, zero: new Uint8Array(n), random: c.rng.bytes(n), tag_first: cat(ea.subarray(0, 12), ea.subarray(n - 16), ea.subarray(12, n - 16)), nonce_last: cat(ea.subarray(12), ea.subarray(0, 12)),
    };
    for (const [what, t] of Object.entries(forms)) { if (eq(t, ea) || eq(t, eb)) continue; if (!await no(c, k, view(c.rng, t), `a sealed message was opened after: ${what}`, { form: what, bytes: hex(t) })) return; }
    if (!await no(c, nodeCrypto.createHash("sha256").update(k).digest(), ea, "a sealed message was opened with another key", {})) return;
    c.count("forms_tried", Object.keys(forms).length);
  });
  await x.run("forged", x.q(1500, 40000), async (c) => { const k = keyOf(c.rng), t = c.rng.content(c.rng.size(200)); c.key(k, t); c.input({ bytes: hex(t) }); await no(c, k, t, "arbitrary bytes were opened", {}); });
  await x.run("large", x.q(3, 20), async (c) => {
    const k = keyOf(c.rng), msg = c.rng.bytes(1 << 20);
    const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(k, msg));
    if (!e) return;
    c.key(k);
    for (let i = 0; i < 12; i++) { const t = new Uint8Array(e); const at = i < 2 ? e.length - 1 - 17 * i : i < 4 ? 12 + i : c.rng.us(e.length); t[at] ^= 1 << c.rng.us(8); if (!await no(c, k, t, "a large sealed message with one bit flipped was opened", { at })) return; }
  });
}
export async function C03(x) {
  const m = await mod(x);
  const both = async (c, k, msg, n) => {
    c.input({ key: hex(k), length: msg.length, nonce: hex(n) });
    const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(view(c.rng, k), view(c.rng, msg)));
    if (!e) return;
    const want = refSeal(k, Buffer.from(e.subarray(0, 12)), msg);
    c.check(eq(e, want), "the sealed message is not nonce, AES-256-GCM ciphertext and tag", () => ({ got: hex(e), expected: hex(want) }));
    const d = await c.must("aesGcmDecrypt of an independently sealed message", () => m.aesGcmDecrypt(view(c.rng, k), view(c.rng, new Uint8Array(refSeal(k, n, msg)))));
    if (!d) return;
    c.check(eq(d, msg), "an independently sealed message decrypts to something else", () => ({ message: hex(msg), got: hex(d) }));
    c.count("reference_bytes", 2 * msg.length);
  };
  await x.run("random", x.q(2500, 50000), async (c) => {
    const k = keyOf(c.rng), msg = c.rng.content(c.rng.size(1500));
    const n = c.rng.pick([new Uint8Array(12), new Uint8Array(12).fill(255), c.rng.bytes(12), c.rng.bytes(12), c.rng.bytes(12)]);
    c.key(k, msg, n); c.sample({ key: hex(k), nonce: hex(n), length: msg.length });
    await both(c, k, msg, n);
  });
  await x.run("len", x.q(300, 3000), async (c) => { c.key(c.idx); await both(c, keyOf(c.rng), c.rng.bytes(c.idx), c.rng.bytes(12)); });
  const lens = x.interesting(300000);
  await x.run("literal_len", lens.length, async (c) => { c.key(lens[c.idx]); await both(c, keyOf(c.rng), c.rng.content(lens[c.idx]), c.rng.bytes(12)); });
}
const here = path.dirname(fileURLToPath(import.meta.url));
export async function C04(x) {
  const root = tree(x.scratch), m = await load(root, "crypto.js");
  const seen = new Map(), parts = new Map();
  const add = (c, where, n) => {
    const h = Buffer.from(n).toString("hex");
    // No seven bytes in a row occur twice anywhere: neither a part drawn twice nor padding.
    if (!seen.has(h)) for (let o = 0; o + 14 <= h.length; o += 2) {
      const w = h.slice(o, o + 14);
      if (parts.has(w)) { c.fail("seven bytes of nonces occur twice", { nonce: h, at: o / 2, where, first: parts.get(w) }); return false; }
      parts.set(w, h);
    }
    if (seen.has(h)) { c.fail("a nonce was used twice", { nonce: h, first: seen.get(h), again: where }); return false; }
    seen.set(h, where); c.ops++; c.count("nonces"); return true;
  };
  const bits = (c, list, what) => {
    // Each bit on its own, each bit against the previous nonce, each pair of neighbouring bits: all near one half.
    const N = list.length, lim = 6.5 * Math.sqrt(N) / 2;
    for (let b = 0; b < 96; b++) {
      const at = (n, b) => (n[b >> 3] >> (b & 7)) & 1;
      let one = 0, ch = 0, nb = 0, two = 0;
      for (let i = 0; i < N; i++) { one += at(list[i], b); if (i) ch += at(list[i], b) ^ at(list[i - 1], b); nb += at(list[i], b) ^ at(list[i], (b + 1) % 96); if (i > 1) two += at(list[i], b) ^ at(list[i - 2], b); }
      if (!c.check(Math.abs(one - N / 2) < lim && Math.abs(ch - N / 2) < lim + 1 && Math.abs(nb - N / 2) < lim && Math.abs(two - N / 2) < lim + 2, `a nonce bit is predictable (${what})`, { bit: b, ones: one, changes: ch, neighbour: nb, lag_two: two, of: N })) return;
    }
  };
  await x.run("sequence", 3, async (c) => {
    const k = c.rng.bytes(32), msg = c.rng.bytes(20), list = [];
    const N = x.q(c.idx ? 3000 : 14000, 60000);
    for (let i = 0; i < N; i++) {
      const e = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(c.idx === 1 ? c.rng.bytes(32) : k, c.idx === 2 ? c.rng.content(c.rng.size(40)) : msg));
      if (!e || !add(c, `sequence ${c.idx} call ${i}`, e.subarray(0, 12))) return;
      list.push(e.slice(0, 12));
    }
    c.key(c.idx); c.sample({ first_nonces: list.slice(0, 3).map(hex), calls: N });
    bits(c, list, `sequence ${c.idx}`);
  });
  await x.run("overlapping", 2, async (c) => {
    const k = c.rng.bytes(32), msg = c.rng.bytes(5);
    const r = await c.must("overlapping encryptions", () => Promise.all(Array.from({ length: x.q(3000, 30000) }, () => m.aesGcmEncrypt(k, msg))));
    if (!r) return;
    for (let i = 0; i < r.length; i++) if (!add(c, `overlapping call ${i}`, r[i].subarray(0, 12))) return;
    c.key(c.idx); bits(c, r.map((e) => e.slice(0, 12)), "overlapping");
  });
  // Many fresh module instances: the first nonces after loading.
  await x.run("instances", 1, async (c) => {
    const list = [];
    for (let i = 0; i < x.q(40, 200); i++) {
      const q = await load(tree(x.scratch), "crypto.js");
      for (let j = 0; j < 4; j++) { const e = await c.must("aesGcmEncrypt", () => q.aesGcmEncrypt(new Uint8Array(32), new Uint8Array(3))); if (!e || !add(c, `instance ${i} call ${j}`, e.subarray(0, 12))) return; list.push(e.slice(0, 12)); }
    }
    c.key("instances");
  });
  await x.run("threads", 1, async (c) => {
    const code = `const {workerData,parentPort}=require("node:worker_threads");import(workerData).then(async m=>{const o=[];for(let i=0;i<200;i++)o.push(Buffer.from((await m.aesGcmEncrypt(new Uint8Array(32),new Uint8Array(4))).subarray(0,12)).toString("hex"));parentPort.postMessage(o)})`;
    const all = await Promise.all(Array.from({ length: 8 }, () => new Promise((res, rej) => { const w = new Worker(code, { eval: true, workerData: pathToFileURL(path.join(root, "dist/crypto.js")).href }); w.once("message", res); w.once("error", rej); })));
    all.forEach((l, t) => l.forEach((h, i) => add(c, `thread ${t} call ${i}`, Buffer.from(h, "hex"))));
    c.key("threads"); c.count("threads", 8);
  });
  await x.run("processes", 1, async (c) => {
    const code = `import(${JSON.stringify(pathToFileURL(path.join(root, "dist/crypto.js")).href)}).then(async m=>{for(let i=0;i<20;i++)console.log(Buffer.from((await m.aesGcmEncrypt(new Uint8Array(32),new Uint8Array(4))).subarray(0,12)).toString("hex"))})`;
    const go = () => new Promise((res) => { const p = spawn(process.execPath, ["-e", code], { stdio: ["ignore", "pipe", "ignore"] }); let o = ""; p.stdout.on("data", (d) => o += d); p.on("close", () => res(o.trim().split("\n"))); });
    const n = x.q(12, 40), all = [];
    for (let i = 0; i < n; i += 6) all.push(...await Promise.all(Array.from({ length: 6 }, go)));
    all.forEach((l, t) => { c.check(l.length === 20, "a process could not encrypt", { got: l.length }); l.forEach((h, i) => add(c, `process ${t} call ${i}`, Buffer.from(h, "hex"))); });
    c.key("processes"); c.count("processes", all.length);
  });
}
export async function C06(x) {
  const m = await mod(x);
  const lens = [...new Set([...Array(300).keys(), ...x.interesting(70000)])];
  await x.run("key_length", lens.length, async (c) => {
    const n = lens[c.idx];
    c.key(n); c.input({ key_length: n }); c.sample({ key_length: n });
    const k = c.rng.content(n), msg = c.rng.content(c.rng.size(40));
    const s = n === 32 ? await m.aesGcmEncrypt(k, msg) : new Uint8Array(refSeal(Buffer.alloc(32, 3), c.rng.bytes(12), msg));
    if (n === 32) { await c.must("aesGcmEncrypt with a 32-byte key", () => m.aesGcmEncrypt(k, msg)); await c.must("aesGcmDecrypt with a 32-byte key", () => m.aesGcmDecrypt(k, s)); return; }
    await c.refused("encryption accepted a key that is not 32 bytes", () => m.aesGcmEncrypt(view(c.rng, k), msg), { key_length: n });
    await c.refused("decryption accepted a key that is not 32 bytes", () => m.aesGcmDecrypt(view(c.rng, k), s), { key_length: n });
    // A longer or shorter key that agrees with a real one where they overlap.
    const real = c.rng.bytes(32), alt = new Uint8Array(n); alt.set(real.subarray(0, Math.min(32, n)));
    const q = await c.must("aesGcmEncrypt", () => m.aesGcmEncrypt(real, msg));
    if (q) await c.refused("decryption accepted a cut or extended key", () => m.aesGcmDecrypt(alt, q), { key_length: n });
  });
  await x.run("spelled_keys", x.q(60, 1000), async (c) => {
    // A right key in other clothes: text encodings, line ends, padding, repetition.
    const k = keyOf(c.rng), msg = c.rng.content(30), s = new Uint8Array(refSeal(k, c.rng.bytes(12), msg));
    c.key(k);
    const b = Buffer.from(k), t = (v) => Buffer.from(v, "latin1");
    const forms = [t(b.toString("hex")), t(b.toString("hex").toUpperCase()), t("0x" + b.toString("hex")), t(b.toString("base64")), t(b.toString("base64url")), t(b.toString("base64").replace(/=/g, "")), t(JSON.stringify([...k])), Buffer.from(b.toString("latin1"), "utf8"), Buffer.concat([b, b]), b.subarray(0, 16), b.subarray(0, 24), Buffer.from(new Uint16Array(k).buffer), Buffer.from(new Uint32Array(k).buffer)];
    for (const base of [b, forms[0], forms[3]]) for (const [pre, post] of [["", "\n"], ["", "\r\n"], [" ", ""], ["", " "], ["", "\0"], ["\0", ""], ['"', '"']]) forms.push(Buffer.concat([t(pre), base, t(post)]));
    for (const f of forms) {
      if (f.length === 32) continue;
      c.input({ key: hex(f), of: hex(k) });
      const key = c.rng.chance(1, 2) ? f : new Uint8Array(f);
      await c.refused("decryption accepted a key that is not 32 bytes", () => m.aesGcmDecrypt(key, s), { key_length: f.length });
      await c.refused("encryption accepted a key that is not 32 bytes", () => m.aesGcmEncrypt(key, msg), { key_length: f.length });
      c.count("spelled_keys");
    }
  });
  await x.run("data_length", x.q(400, 4000), async (c) => {
    const k = keyOf(c.rng), n = c.idx % 40;
    c.key(n, c.idx); c.input({ data_length: n });
    if (n < 28) { await c.refused("a ciphertext too short for its nonce and tag was accepted", () => m.aesGcmDecrypt(k, view(c.rng, c.rng.content(n))), { length: n }); return; }
    const msg = c.rng.bytes(n - 28), s = new Uint8Array(refSeal(k, c.rng.bytes(12), msg));
    const d = await c.must("aesGcmDecrypt of a short well-formed ciphertext", () => m.aesGcmDecrypt(k, view(c.rng, s)));
    if (d) c.check(eq(d, msg), "a short ciphertext decrypts to something else", { length: n });
    await c.refused("arbitrary bytes were opened", () => m.aesGcmDecrypt(k, c.rng.bytes(n)), { length: n });
  });
}

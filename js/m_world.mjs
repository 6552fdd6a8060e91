// What a call gives depends on its arguments, not on the world around it: C47.
import { Buffer } from "node:buffer";
import nodeCrypto from "node:crypto";
import fs from "node:fs";
import { syncBuiltinESMExports } from "node:module";
import path from "node:path";
import { assign, circuit, inputs, snapshot, spell } from "./lib/circuit.mjs";
import { fresh } from "./lib/kem.mjs";
import { load } from "./lib/load.mjs";
import { eq, hex, Rng } from "./lib/mon.mjs";

const refOpen = (k, s) => { const d = nodeCrypto.createDecipheriv("aes-256-gcm", k, s.subarray(0, 12)); d.setAuthTag(s.subarray(s.length - 16)); return Buffer.concat([d.update(s.subarray(12, s.length - 16)), d.final()]); };
const refSeal = (k, n, m) => { const c = nodeCrypto.createCipheriv("aes-256-gcm", k, n); return Buffer.concat([n, c.update(m), c.final(), c.getAuthTag()]); };
const NODES = /^(NODE_(?!ENV$)|WATCH_|UV_|SSL_|OPENSSL_|FORCE_COLOR|NO_COLOR|TERM)/;
const seen = { variables: new Set(), globals: new Set(), files: new Set(), stored: new Set() };
/// Everything a world changes, put back afterwards.
class Undo {
  #u = [];
  set(o, k, v) {
    const d = Object.getOwnPropertyDescriptor(o, k);
    this.#u.push(() => d ? Object.defineProperty(o, k, d) : delete o[k]);
    Object.defineProperty(o, k, { value: v, writable: true, configurable: true, enumerable: d?.enumerable ?? false });
  }
  drop(o, k) { const d = Object.getOwnPropertyDescriptor(o, k); if (d?.configurable) { this.#u.push(() => Object.defineProperty(o, k, d)); delete o[k]; } }
  then(f) { this.#u.push(f); }
  all() { for (const f of this.#u.splice(0).reverse()) f(); }
}
const HOSTILE = ["1", "0", "true", "", "debug", "test", "production", "/nonexistent", "zkenc", "*", "9".repeat(300), "{\"seed\":1}"];
function world(r) {
  return {
    browser: r.chance(1, 2), window: r.chance(1, 2), env: r.chance(4, 5) ? r.pick(HOSTILE) : null, names: r.chance(1, 2) ? r.pick(HOSTILE) : null, time: r.pick([null, 0, 1, -1e12, 1.7e12, 4.2e12, 8.64e15]), still: r.chance(1, 2),
    random: r.pick([null, 0, 0.5, 0.9999999999999999, "seeded"]), cwd: r.pick([null, "/", "/nonexistent", "gone"]), locale: r.pick([null, "tr", "de", "ar-EG", "lt"]), platform: r.pick([null, "win32", "darwin"]), files: r.chance(1, 2) ? r.pick(["1", "{\"seed\":1,\"debug\":true}", ""]) : null,
  };
}
const dials = /zkenc|seed|debug|test|rng|rand|key|nonce|secure|safe|skip|check|cache|config|verif|valid|mock|dev|trace|log/i;
/// The world as `w` describes it; `told` is given what a call did that it had no business doing.
function enter(w, root, told) {
  const u = new Undo(), g = globalThis, P = process, reals = { Date, mathRandom: Math.random };
  if (w.env !== null) {
    const real = P.env;
    u.set(P, "env", new Proxy(real, {
      get: (t, k) => typeof k !== "string" || NODES.test(k) || k === "toJSON" ? Reflect.get(t, k) : (seen.variables.add(k), w.env),
      has: (t, k) => typeof k !== "string" || NODES.test(k) ? Reflect.has(t, k) : (seen.variables.add(k), true),
    }));
    u.set(P, "argv", [P.argv[0], "/nonexistent/app.js", "--seed=1", "--debug", w.env]);
  }
  if (w.cwd !== null) u.set(P, "cwd", () => { if (w.cwd === "gone") throw Object.assign(new Error("ENOENT: no such file or directory, uv_cwd"), { code: "ENOENT" }); return w.cwd; });
  if (w.platform) u.set(P, "platform", w.platform);
  u.set(P, "pid", 4242); u.set(P, "hrtime", Object.assign(() => [7, 7], { bigint: () => 7n })); u.set(P, "uptime", () => 7);
  // The clock, and what passes for chance.
  if (w.time !== null) {
    const now = w.still ? () => w.time : () => Math.min(w.time + Math.floor(performance.now()), 8.64e15), D = reals.Date;
    u.set(g, "Date", class Date extends D { constructor(...a) { if (a.length) super(...a); else super(now()); } static now() { return now(); } });
    u.set(performance, "now", () => 7);
  }
  if (w.random !== null) { let q = 12345; u.set(Math, "random", w.random === "seeded" ? () => (q = (q * 1103515245 + 12345) % 2147483648) / 2147483648 : () => w.random); }
  if (w.locale) {
    for (const [o, k] of [[String.prototype, "toLocaleLowerCase"], [String.prototype, "toLocaleUpperCase"], [Number.prototype, "toLocaleString"], [BigInt.prototype, "toLocaleString"], [Date.prototype, "toLocaleString"]]) { const f = o[k]; u.set(o, k, function (l, ...a) { return f.call(this, l ?? w.locale, ...a); }); }
    const lc = String.prototype.localeCompare; u.set(String.prototype, "localeCompare", function (b, l, o) { return lc.call(this, b, l ?? w.locale, o); });
    for (const k of ["NumberFormat", "Collator", "DateTimeFormat"]) { const C = Intl[k]; u.set(Intl, k, new Proxy(C, { construct: (t, [l, ...a]) => new t(l ?? w.locale, ...a), apply: (t, _, [l, ...a]) => t(l ?? w.locale, ...a) })); }
  }
  // The network and the file system. Nothing is passed on.
  const net = (what) => function (...a) { told(`a call asks the network (${what})`, String(a[0]).slice(0, 200)); throw new TypeError("network is unreachable"); };
  for (const k of ["fetch", "XMLHttpRequest", "WebSocket", "EventSource"]) u.set(g, k, net(k));
  const own = (p) => { const s = p instanceof URL ? p.pathname : String(p); return typeof p === "number" || s.startsWith(root) || s.startsWith("node:") || /\.(m?js|cjs|json|node|wasm)$/.test(s) && /node_modules/.test(s); };
  const gone = (p) => Object.assign(new Error(`ENOENT: no such file or directory, open '${p}'`), { code: "ENOENT" });
  const read = (o, k, f) => { const real = o[k]; if (typeof real === "function") u.set(o, k, function (p, ...a) { if (own(p)) return real.call(this, p, ...a); seen.files.add(String(p)); return f(p, ...a); }); };
  const give = (p, o) => { if (w.files === null) throw gone(p); const b = Buffer.from(w.files); return (typeof o === "string" ? o : o?.encoding) ? b.toString() : b; };
  read(fs, "readFileSync", give); read(fs, "existsSync", () => w.files !== null); read(fs.promises, "readFile", async (p, o) => give(p, o));
  read(fs, "readFile", (p, ...a) => { const cb = a.pop(); let v, e = null; try { v = give(p, a[0]); } catch (q) { e = q; } queueMicrotask(() => cb(e, v)); });
  read(fs, "openSync", (p) => { throw gone(p); }); read(fs, "accessSync", (p) => { if (w.files === null) throw gone(p); }); read(fs, "createReadStream", (p) => { throw gone(p); });
  const write = (o, k, later) => { if (typeof o[k] === "function") u.set(o, k, function (p) { told(`a call writes to the file system (${k})`, String(p).slice(0, 200)); const e = Object.assign(new Error("EROFS: read-only file system"), { code: "EROFS" }); if (later) return Promise.reject(e); throw e; }); };
  for (const k of ["writeFileSync", "appendFileSync", "mkdirSync", "mkdtempSync", "createWriteStream", "writeFile", "appendFile", "unlinkSync", "rmSync", "renameSync", "copyFileSync", "symlinkSync"]) write(fs, k, false);
  for (const k of ["writeFile", "appendFile", "mkdir", "mkdtemp", "unlink", "rm", "rename", "copyFile"]) write(fs.promises, k, true);
  syncBuiltinESMExports();
  if (w.window) {
    const store = () => new Proxy({}, { get: (_, k) => k === "getItem" ? (n) => (seen.stored.add(n), w.names ?? "1") : k === "setItem" || k === "removeItem" || k === "clear" ? (n) => told("a call writes to the browser's storage", String(n)) : typeof k === "string" ? w.names ?? "1" : undefined });
    const at = { href: "https://example.test/app?seed=1&debug=true#test", search: "?seed=1&debug=true", hash: "#test", hostname: "localhost", host: "localhost", origin: "https://example.test", protocol: "https:", pathname: "/app" };
    for (const [k, v] of [["window", g], ["self", g], ["location", at], ["localStorage", store()], ["sessionStorage", store()], ["document", { location: at, cookie: "seed=1; debug=true", title: "", hidden: true, currentScript: null, baseURI: at.href, referrer: "", documentElement: { lang: "tr" } }], ["navigator", { userAgent: "Mozilla/5.0", language: "tr", languages: ["tr"], onLine: false, hardwareConcurrency: 1, webdriver: true }]]) u.set(g, k, v);
  }
  // Names of the global object that nobody defined.
  const proto = Object.getPrototypeOf(g);
  if (w.names !== null) {
    const up = Object.getPrototypeOf(proto);
    try {
      Object.setPrototypeOf(proto, new Proxy(up ?? Object.create(null), { has: (t, k) => Reflect.has(t, k) || typeof k === "string" && dials.test(k) && (seen.globals.add(k), true), get: (t, k, o) => Reflect.has(t, k) || typeof k !== "string" || !dials.test(k) ? Reflect.get(t, k, o) : (seen.globals.add(k), w.names) }));
      u.then(() => Object.setPrototypeOf(proto, up));
    } catch { }
  }
  if (w.browser) for (const k of ["process", "Buffer", "global", "setImmediate", "clearImmediate"]) u.drop(g, k);
  return () => { u.all(); syncBuiltinESMExports(); };
}
// Node looks at variables of its own when these are first used.
void [globalThis.fetch, globalThis.WebSocket, globalThis.EventSource, globalThis.crypto, globalThis.navigator];
const PLAIN = { plain: true };
/// A package of its own, loaded and called in the world `w`.
class Guest {
  constructor(x, c, w) { this.x = x; this.c = c; this.w = w; this.root = "\0"; this.events = []; }
  async in(f) {
    const leave = this.w === PLAIN ? () => { } : enter(this.w, this.root, (m, d) => this.events.push([m, d]));
    const said = [console.error, console.log, console.warn]; console.error = console.log = console.warn = () => { };
    let v; try { v = { ok: true, value: await f() }; } catch (e) { v = { ok: false, err: String(e?.message ?? e).slice(0, 300) }; } finally { leave(); [console.error, console.log, console.warn] = said; }
    return v;
  }
  async open(rng) {
    const e = await fresh(this.x, rng, { lazy: true });
    this.kem = e.kem; this.kem.ctLen = 60; this.root = e.root;
    const file = (f) => load(e.root, f);
    const q = await this.in(async () => ({ z: await file("index.js"), cry: await file("crypto.js"), sym: await file("sym_parser.js"), wit: await file("witness.js") }));
    if (q.ok) Object.assign(this, q.value);
    return q;
  }
}

export async function C47(x) {
  const nonces = new Map();
  await x.run("worlds", x.q(250, 6000), async (c) => {
    const r = c.rng, k = circuit(r, { maxMid: 3 }), w = assign(r, k), say = (q) => spell(r, q, k.p, true);
    const full = inputs(r, k, w, ["pub", "prv"], say), pub = inputs(r, k, w, ["out", "pub"], say), msg = r.bytes(r.us(200)), key = r.bytes(32), sealed = new Uint8Array(refSeal(key, r.bytes(12), msg));
    const broken = new Uint8Array(sealed); broken[r.us(broken.length)] ^= 1 << r.us(8);
    const wd = world(r), seedOf = r.u32();
    c.input({ world: wd, wires: k.nWires }); c.key(JSON.stringify(wd), seedOf); c.sample({ world: wd, wires: k.nWires });
    const here = new Guest(x, c, PLAIN), there = new Guest(x, c, wd);
    const a = await here.open(new Rng(`a${seedOf}`)), b = await there.open(new Rng(`b${seedOf}`));
    if (!a.ok) { c.count("not_judged"); return; }
    const where = (m, d) => c.fail(m, { world: wd, ...d });
    if (!b.ok) { where("the package cannot be loaded in this environment", { error: b.err }); return; }
    // Whatever one environment's calls give or refuse, the other's do.
    const both = async (what, f, g = (v) => v) => {
      const p = await here.in(() => f(here)), q = await there.in(() => f(there)); c.ops++;
      if (p.ok !== q.ok) { where(p.ok ? `${what} fails in this environment only` : `${what} is refused elsewhere, but not in this environment`, { error: p.ok ? q.err : p.err }); return null; }
      if (!p.ok) return null;
      const [s, t] = [g(p.value), g(q.value)].map((v) => snapshot(v instanceof Map ? [...v] : v));
      if (s !== t) where(`${what} gives something else in this environment`, { elsewhere: s.slice(0, 600), here: t.slice(0, 600) });
      return [p.value, q.value];
    };
    const bytes = (v) => v instanceof Uint8Array ? hex(v) + v.length : `no bytes: ${typeof v}`;
    const fresher = (n, what) => { const h = Buffer.from(n).toString("hex"); if (nonces.has(h)) where("a nonce occurs twice in look-alike environments", { nonce: h, first: nonces.get(h), again: what }); nonces.set(h, `${c.idx} ${what}`); };
    const enc = { r1csBuffer: k.r1cs, symContent: k.sym }, dec = { r1csBuffer: k.r1cs, wasmBuffer: k.wasm };
    await both("aesGcmDecrypt", (e) => e.cry.aesGcmDecrypt(key, sealed), bytes);
    await both("aesGcmDecrypt of a changed message", (e) => e.cry.aesGcmDecrypt(key, broken), bytes);
    await both("aesGcmEncrypt with a short key", (e) => e.cry.aesGcmEncrypt(key.slice(1), msg), bytes);
    for (let i = 0; i < 3; i++) {
      const s = await both("aesGcmEncrypt", (e) => e.cry.aesGcmEncrypt(key, msg), (v) => v.length);
      for (const v of s ?? []) { fresher(v.slice(0, 12), "aesGcmEncrypt"); let m; try { m = refOpen(key, v); } catch { } if (!m || !eq(m, msg)) where("a sealed message does not open elsewhere", { length: msg.length }); }
    }
    const text = r.chance(1, 2) ? k.sym : k.sym.replace(/\n/g, "\r\n") + "I,1,0,main.I\nx\n7,7,7,main.İi\n";
    await both("parseSymFile", (e) => e.sym.parseSymFile(text));
    await both("getInputSignals", (e) => e.sym.getInputSignals(e.sym.parseSymFile(text), r.us(1) + 500));
    await both("mapInputsToWires", (e) => e.sym.mapInputsToWires(full, e.sym.getInputSignals(e.sym.parseSymFile(k.sym))));
    await both("calculateWitnessArray", (e) => e.wit.calculateWitnessArray(k.wasm, full));
    await both("calculateWitness", (e) => e.wit.calculateWitness(k.wasm, full), bytes);
    await both("getCircuitInfo", (e) => e.wit.getCircuitInfo(k.wasm));
    await both("a witness of an unknown signal", (e) => e.wit.calculateWitnessArray(k.wasm, { ...full, unknown: 1 }));
    await both("a witness of no signals", (e) => e.wit.calculateWitnessArray(k.wasm, {}));
    await both("a witness of no module", (e) => e.wit.calculateWitnessArray(k.wasm.slice(0, 20), full));
    // What one makes the other opens: the stand-ins of both know each other's ciphertexts.
    const share = () => { for (const [p, q] of [[here, there], [there, here]]) for (const [h, v] of p.kem.table) if (!q.kem.table.has(h)) q.kem.table.set(h, v); };
    const bound = (e) => snapshot(e.kem.last?.values ?? null);
    const q = await both("encap", (e) => e.z.encap(enc, pub), (v) => [v.ciphertext.length, v.key.length]);
    if (q) {
      if (bound(here) !== bound(there)) where("encapsulation binds other values in this environment", { elsewhere: bound(here), here: bound(there) });
      share();
      for (const v of q) await both("decap", (e) => e.z.decap(dec, v.ciphertext, full), bytes);
      await both("decap of a changed ciphertext", (e) => { const t = new Uint8Array(q[0].ciphertext); t[0] ^= 1; return e.z.decap(dec, t, full); }, bytes);
      await both("decap with an unknown signal", (e) => e.z.decap(dec, q[0].ciphertext, { ...full, unknown: 1 }), bytes);
    }
    await both("encap to no values", (e) => e.z.encap(enc, {}), (v) => v.ciphertext.length);
    await both("encap to a damaged circuit", (e) => e.z.encap({ ...enc, r1csBuffer: k.r1cs.slice(0, 30) }, pub), (v) => v.ciphertext.length);
    for (const o of [undefined, { includePublicInput: true }, { includePublicInput: false }]) {
      const s = await both("encrypt", (e) => e.z.encrypt(enc, pub, msg, o), (v) => v.ciphertext.length);
      if (!s) continue;
      share();
      for (const v of s) {
        await both("decrypt", (e) => e.z.decrypt(dec, v.ciphertext, full), bytes);
        fresher(v.ciphertext.slice(v.ciphertext.length - msg.length - 28, v.ciphertext.length - msg.length - 16), "encrypt");
        await both("getPublicInput", (e) => e.z.getPublicInput(v.ciphertext));
      }
      await both("decrypt of a changed ciphertext", (e) => { const t = new Uint8Array(s[0].ciphertext); t[t.length - 1] ^= 1; return e.z.decrypt(dec, t, full); }, bytes);
      await both("decrypt of half a ciphertext", (e) => e.z.decrypt(dec, s[0].ciphertext.slice(0, 70), full), bytes);
      await both("getPublicInput of half a ciphertext", (e) => e.z.getPublicInput(s[0].ciphertext.slice(0, 66)));
    }
    for (const [m, d] of there.events.slice(0, 2)) where(m, { what: d });
    for (const m of there.kem.wrong.slice(0, 1)) if (!here.kem.wrong.length) where(`in this environment only: ${m}`, {});
    for (const [n, s] of Object.entries(seen)) x.counters[`${n}_asked_for`] = s.size;
    if (wd.browser) c.count("browsers"); c.count("packages_loaded", 2);
    fs.rmSync(here.root, { recursive: true, force: true }); fs.rmSync(there.root, { recursive: true, force: true });
  });
}

// Monitor runtime for the JavaScript package: seeded generators, case runner, violation recorder.
import fs from "node:fs";
import crypto from "node:crypto";

/// What a reader of text might drop, add or change where a message begins or ends.
export const EDGES = ["0a", "0d0a", "0d", "00", "20", "09", "efbbbf", "1a", "3d", "0a0a", "5c", "22", "fffe", "80", "c3", "3078", "e280a8", "1f8b", "00000000", "0b", "0c", "c2a0", "04"].map((h) => Buffer.from(h, "hex"));
/// Every edge alone, and in front of, behind, around and twice behind a text.
export const edgeMessages = () => { const t = Buffer.from("a message"); return EDGES.flatMap((e) => [[e], [e, t], [t, e], [e, t, e], [t, e, e]]).map((p) => new Uint8Array(Buffer.concat(p))); };

export class Rng {
  constructor(seed) {
    const h = crypto.createHash("sha256").update(String(seed)).digest();
    this.a = h.readUInt32LE(0); this.b = h.readUInt32LE(4); this.c = h.readUInt32LE(8); this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  us(n) { return n <= 0 ? 0 : Math.floor((this.u32() * 0x200000 + (this.u32() >>> 11)) / 0x20000000000000 * n); }
  range(a, b) { return a + this.us(b - a + 1); }
  chance(n, d) { return this.us(d) < n; }
  pick(v) { return v[this.us(v.length)]; }
  shuffle(v) { for (let i = v.length - 1; i > 0; i--) { const j = this.us(i + 1); [v[i], v[j]] = [v[j], v[i]]; } return v; }
  bytes(n) { const b = new Uint8Array(n); let i = 0; for (; i + 4 <= n; i += 4) { const x = this.u32(); b[i] = x; b[i + 1] = x >>> 8; b[i + 2] = x >>> 16; b[i + 3] = x >>> 24; } for (; i < n; i++) b[i] = this.u32(); return b; }
  content(n) {
    switch (this.us(9)) {
      case 7: case 8: { // bytes that begin or end in something a reader of text might drop or change
        const edge = () => this.pick(EDGES);
        const u = Buffer.from(this.pick(["0123456789abcdefABCDEF", "abc xyz,.;{}[]\"\\\r\n\t", "aé漢😀\ufeff\u2028z"])), b = this.chance(1, 4) ? this.bytes(n) : Uint8Array.from({ length: n }, (_, i) => u[(i * 7) % u.length]);
        if (this.chance(2, 3)) { const e = edge(), k = Math.min(e.length, n); b.set(e.subarray(e.length - k), n - k); }
        if (this.chance(1, 3)) { const e = edge(), k = Math.min(e.length, n); b.set(e.subarray(0, k), 0); }
        return b;
      }
      case 0: return new Uint8Array(n);
      case 1: return new Uint8Array(n).fill(255);
      case 2: return new Uint8Array(n).fill(this.us(256));
      case 3: { const b = this.bytes(n); b.fill(0, this.us(n + 1)); return b; }
      case 4: { const t = new TextEncoder().encode("{\"a\":[1,\"2\"]}\n"); const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = t[i % t.length]; return b; }
      default: return this.bytes(n);
    }
  }
  size(max) { const k = this.us(10); return k < 5 ? this.us(Math.min(max, 5) + 1) : k < 8 ? this.us(Math.min(max, 40) + 1) : k === 8 ? this.us(Math.min(max, 300) + 1) : this.us(max + 1); }
  big(bits) { let v = 0n; for (let i = 0; i < bits; i += 32) v = (v << 32n) | BigInt(this.u32()); return v & ((1n << BigInt(bits)) - 1n); }
  /// A field element, edge-biased.
  fe(p) {
    switch (this.us(9)) {
      case 8: { const b = this.range(1, 260); return (this.chance(1, 2) ? this.big(b) : 10n ** BigInt(this.us(70)) + BigInt(this.range(-3, 3)) + p) % p; }
      case 0: return 0n; case 1: return 1n; case 2: return p - 1n; case 3: return BigInt(this.us(300)) % p;
      case 4: return (1n << BigInt(this.us(254))) % p; case 5: return (p - 1n - BigInt(this.us(300)) % p + p) % p;
      default: return this.big(300) % p;
    }
  }
}
export const hex = (b) => { const h = Buffer.from(b.buffer ?? b, b.byteOffset ?? 0, b.byteLength ?? b.length).toString("hex"); return h.length > 200 ? h.slice(0, 200) + `...(${h.length / 2} bytes)` : h; };
export const eq = (a, b) => a.length === b.length && Buffer.compare(Buffer.from(a.buffer, a.byteOffset, a.length), Buffer.from(b.buffer, b.byteOffset, b.length)) === 0;
export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
export const jsonable = (v) => JSON.parse(JSON.stringify(v ?? null, (k, x) => typeof x === "bigint" ? `${x}n` : x instanceof Map ? { map: [...x].slice(0, 60) } : x instanceof Uint8Array ? hex(x) : x === undefined ? "undefined" : typeof x === "string" && x.length > 3000 ? x.slice(0, 3000) + "..." : x));
const text = (e) => e instanceof Error ? `${e.name}: ${e.message}` : String(e);

class Case {
  constructor(ctx, kind, idx) { this.ctx = ctx; this.kind = kind; this.idx = idx; this.rng = new Rng(`${ctx.seed}/${ctx.prop}/${kind}/${idx}`); this.fails = []; this.ops = 0; this.k = null; this.s = null; this.in = null; }
  input(v) { this.in = v; }
  key(...k) { this.k = k.map((x) => x instanceof Uint8Array ? crypto.createHash("sha1").update(x).digest("hex") : typeof x === "string" ? x : JSON.stringify(jsonable(x))).join("|"); }
  sample(v) { this.s = v; }
  count(k, n = 1) { this.ctx.counters[k] = (this.ctx.counters[k] ?? 0) + n; }
  max(k, n) { this.ctx.counters[k] = Math.max(this.ctx.counters[k] ?? 0, n); }
  fail(message, detail, finding) { this.fails.push({ message, detail: jsonable(detail), finding }); return false; }
  check(ok, message, detail) { this.ops++; if (!ok) this.fail(message, typeof detail === "function" ? detail() : detail); return ok; }
  /// Outcome of a call into the code under test: {ok, value} or {err}.
  async out(f) {
    try { return { ok: true, value: await f() }; } catch (e) { return { ok: false, err: text(e), raw: e }; }
  }
  /// A call that has to succeed; undefined after a failure has been recorded.
  async must(what, f) {
    const r = await this.out(f);
    if (!r.ok) { this.fail(`${what} failed on valid input: ${r.err.slice(0, 300)}`, { error: r.raw?.stack?.slice?.(0, 600) }); return undefined; }
    return r.value;
  }
  /// A call that has to be refused.
  async refused(what, f, detail) {
    const r = await this.out(f);
    return this.check(!r.ok, what, () => ({ ...(typeof detail === "function" ? detail() : detail), returned: jsonable(r.value) }));
  }
}

export class Ctx {
  constructor(argv) {
    this.prop = argv[0];
    this.args = {};
    for (let i = 1; i < argv.length; i += 2) this.args[argv[i].replace(/^--/, "")] = argv[i + 1];
    this.seed = Number(this.args.seed ?? 1);
    this.thorough = this.args.tier === "thorough";
    this.scratch = this.args.scratch;
    this.budget = Number(this.args.budget ?? (this.thorough ? 900 : 60)) * 1000;
    this.only = this.args.only ? [this.args.only.slice(0, this.args.only.lastIndexOf(":")), Number(this.args.only.slice(this.args.only.lastIndexOf(":") + 1))] : null;
    const d = this.args.dict ? JSON.parse(fs.readFileSync(this.args.dict, "utf8")) : { ints: [], strs: [] };
    this.ints = d.ints; this.strs = d.strs;
    this.jfd = this.args.journal ? fs.openSync(this.args.journal, "w") : null;
    this.counters = {}; this.viols = []; this.samples = []; this.sampled = new Set(); this.distinct = new Set(); this.evals = 0;
    this.start = Date.now(); this.cur = null;
    process.on("unhandledRejection", (e) => { (this.cur ?? this).stray = text(e); this.strays = (this.strays ?? []).concat([[this.cur ? `${this.cur.kind}:${this.cur.idx}` : null, text(e)]]); });
  }
  q(a, b) { return this.thorough ? b : a; }
  interesting(max) {
    const s = new Set();
    for (const d of [...this.ints, 0, 1, 2, 3, 4, 5, 8, 9, 12, 15, 16, 27, 28, 31, 32, 63, 64, 100, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 262144, 1048576]) for (const k of [d - 1, d, d + 1]) if (k >= 0 && k <= max) s.add(k);
    return [...s].sort((a, b) => a - b);
  }
  over() { return this.viols.length >= 3 || Date.now() - this.start > this.budget; }
  journal(s) { if (this.jfd !== null) fs.writeSync(this.jfd, s.padEnd(119).slice(0, 119) + "\n", 0); }
  async run(kind, n, f) {
    for (let i = 0; i < n; i++) {
      if (this.over()) { this.counters[`${kind}_cut_short_at`] = i; break; }
      if (this.only && (this.only[0] !== kind || this.only[1] !== i)) continue;
      this.journal(`case ${kind}:${i}`);
      const c = new Case(this, kind, i);
      this.cur = c;
      await f(c);
      this.evals += Math.max(1, c.ops);
      this.counters[`cases_${kind}`] = (this.counters[`cases_${kind}`] ?? 0) + 1;
      if (c.k !== null) this.distinct.add(kind + c.k);
      if (c.s && this.samples.length < 12 && !this.sampled.has(kind)) { this.sampled.add(kind); this.samples.push({ case: `${kind}:${i}`, case_detail: jsonable(c.s) }); }
      for (const x of c.fails.slice(0, 2)) this.viols.push({ case: `${kind}:${i}`, input: jsonable(c.in), ...x });
    }
    this.journal("idle");
  }
  async finish() {
    await sleep(20);
    for (const [w, e] of this.strays ?? []) this.viols.push({ case: w, input: null, message: `a promise was rejected that nobody was given: ${e}`, detail: null });
    fs.writeFileSync(this.args.out, JSON.stringify({ property: this.prop, seed: this.seed, evaluations: this.evals, distinct: this.distinct.size, counters: this.counters, samples: this.samples, violations: this.viols.slice(0, 12), wall_s: (Date.now() - this.start) / 1000 }));
    process.exit(0);
  }
}

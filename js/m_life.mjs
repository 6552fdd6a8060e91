// What a process holds after many calls: C45.
import { assign, circuit, inputs, spell } from "./lib/circuit.mjs";
import { fresh } from "./lib/kem.mjs";
import { tree, load } from "./lib/load.mjs";
import { eq, Rng, sleep } from "./lib/mon.mjs";

/// Calculators and compiled circuits alive: every one made is counted until it is collected.
const alive = { made: 0, gone: 0 }, compiled = { made: 0, gone: 0 };
const gone = new FinalizationRegistry((of) => { of.gone++; });
function countInstances() {
  const seen = (i, of = alive) => { of.made++; gone.register(i, of); return i; };
  const inst = WebAssembly.instantiate, comp = WebAssembly.compile, I = WebAssembly.Instance, M = WebAssembly.Module;
  WebAssembly.instantiate = async function (...a) { const v = await inst.apply(WebAssembly, a); seen(v.instance ?? v); if (v.module) seen(v.module, compiled); return v; };
  WebAssembly.compile = async function (...a) { return seen(await comp.apply(WebAssembly, a), compiled); };
  WebAssembly.Instance = new Proxy(I, { construct(t, a, n) { return seen(Reflect.construct(t, a, n)); } });
  WebAssembly.Module = new Proxy(M, { construct(t, a, n) { return seen(Reflect.construct(t, a, n), compiled); } });
}
async function level() {
  for (let i = 0; i < 4; i++) { global.gc(); await new Promise((q) => setImmediate(q)); await sleep(1); }
  const m = process.memoryUsage();
  return { heap: m.heapUsed, outside: m.external, calculators: alive.made - alive.gone, modules: compiled.made - compiled.gone, handles: process.getActiveResourcesInfo().length, listeners: process.eventNames().reduce((s, n) => s + process.listenerCount(n), 0) + Object.keys(globalThis).length };
}
// Compiling WebAssembly leaves some of V8's own bookkeeping on the heap: `per` bytes a call are allowed.
const LEAST = { heap: (n, per) => 24000 + per * n, outside: (n) => 4000 + 16 * n, calculators: (n) => n / 20, modules: (n) => n / 20, handles: (n) => n / 20, listeners: (n) => n / 20 };
const SAY = { heap: "memory that is never released", outside: "buffers that are never released", calculators: "WebAssembly instances that are never released", modules: "compiled circuits that are never released", handles: "timers or handles that never end", listeners: "listeners or globals" };
const grown = (v, ends, per) => Object.keys(LEAST).find((k) => v.every((l, i) => i === 0 || l[k] > v[i - 1][k] + LEAST[k](ends[i] - ends[i - 1], per)));
/// `n` calls with inputs of their own; levels after a quarter, a half and all; when something grew throughout, after twice and four times as many.
async function soak(c, what, n, per, call) {
  if (c.ctx.viols.length) { c.count("not_run_after_a_violation"); return; } // what has piled up makes the rest slow
  let at = 0, judged = true, refused = null;
  const seed = c.rng.u32(), ends = [n >> 2, n >> 1, n], v = [];
  const upto = async (end) => {
    for (; at < end; at++) { const q = await c.out(() => call(new Rng(`${seed}/${at}`), at)); if (!q.ok) { if (at < n / 8) judged = false; else refused ??= [at, q.err]; } }
    return level();
  };
  for (const e of ends) v.push(await upto(e));
  const cpu = process.cpuUsage();
  if (grown(v, ends, per)) for (const e of [2 * n, 4 * n]) { if (v.length > 3 && process.cpuUsage(cpu).user > 20e6) break; ends.push(e); v.push(await upto(e)); }
  c.ops += at; c.count(`calls_${what.replace(/ /g, "_")}`, at); c.key(what, seed); c.sample({ calls: what, after: ends, held: v });
  const g = grown(v, ends, per);
  if (g) c.fail(`${what}: every call leaves behind ${SAY[g]}`, { calls: ends, held: v });
  else if (judged && refused) c.fail(`${what}: calls succeed at first and fail later: call ${refused[0]}: ${refused[1].slice(0, 300)}`, { calls: ends });
  if (!judged) c.count("wrong_from_the_start");
}
const must = (ok, m) => { if (!ok) throw new Error(m); };
const no = async (what, f) => { let v; try { v = await f(); } catch { return; } must(false, `${what} accepted: ${typeof v}`); };
const cut = (r, b) => b.slice(0, r.us(b.length));

export async function C45(x) {
  countInstances();
  const e = await fresh(x, new Rng("kem")), file = (f) => load(e.root, f), cry = await file("crypto.js"), sym = await file("sym_parser.js"), wit = await file("witness.js"), calc = await file("witness_calculator.js"), build = calc.default?.default ?? calc.default;
  e.kem.ctLen = 60;
  const forget = () => { e.kem.table.clear(); e.kem.circuits.clear(); e.kem.events.length = 0; e.kem.wrong.length = 0; e.kem.last = null; };
  const scene = (r) => { const k = circuit(r, { maxMid: 2 }), w = assign(r, k); return { k, w, full: inputs(r, k, w, ["pub", "prv"], (q) => spell(r, q, k.p, true)), pub: inputs(r, k, w, ["out", "pub"], (q) => spell(r, q, k.p, true)) }; };
  const quiet = async (f) => { const said = console.error; console.error = () => { }; try { return await f(); } finally { console.error = said; } };
  const kinds = [
    ["sealing", 4000, 32, async (r) => {
      const k = r.bytes(32), m = r.bytes(r.us(200)), s = await cry.aesGcmEncrypt(k, m);
      must(eq(await cry.aesGcmDecrypt(k, s), m), "another message");
      const t = new Uint8Array(s); t[r.us(t.length)] ^= 1;
      await no("a changed ciphertext", () => cry.aesGcmDecrypt(k, t)); await no("a short ciphertext", () => cry.aesGcmDecrypt(k, cut(r, s.slice(0, 28)))); await no("a short key", () => cry.aesGcmEncrypt(k.slice(1), m));
    }],
    ["symbols", 4000, 32, async (r, i) => {
      const text = Array.from({ length: 1 + r.us(12) }, (_, j) => `${j},${r.us(900)},0,main.${r.pick(["a", "b.c", "m"])}${i}[${j}]\n`).join("") + `1,${i % 1000},0,main.own${i}\nbad,line\n`;
      const m = sym.parseSymFile(text), s = sym.getInputSignals(m, 2000);
      must(s.get(`own${i}`) === i % 1000 && m.get(`main.own${i}`) === i % 1000, "a signal is lost");
      const w = sym.mapInputsToWires?.({ [`own${i}`]: i, nothing: [1, { a: 2 }] }, s); must(!w || w.size === 1, "another assignment");
    }],
    ["witnesses", 300, 700, async (r) => quiet(async () => {
      const s = scene(r), w = await wit.calculateWitnessArray(s.k.wasm, s.full);
      must(w.length === s.w.length && w.every((v, j) => v === s.w[j]), "another witness");
      await wit.calculateWitness(s.k.wasm, s.full); must((await wit.getCircuitInfo(s.k.wasm)).witnessSize === s.k.nWires, "another circuit");
      const b = await build(s.k.wasm); await b.calculateBinWitness(s.full, 0); await b.calculateWTNSBin(s.full, 0);
      await no("an unknown signal", () => wit.calculateWitness(s.k.wasm, { ...s.full, unknown: 1 }));
      await no("a missing signal", () => wit.calculateWitnessArray(s.k.wasm, {})); await no("bytes that are no module", () => wit.getCircuitInfo(cut(r, s.k.wasm.slice(0, 60))));
    })],
    ["encapsulation", 400, 700, async (r) => quiet(async () => {
      const s = scene(r), enc = { r1csBuffer: s.k.r1cs, symContent: s.k.sym }, dec = { r1csBuffer: s.k.r1cs, wasmBuffer: s.k.wasm };
      const q = await e.z.encap(enc, s.pub); must(eq(await e.z.decap(dec, q.ciphertext, s.full), q.key), "another key");
      await no("a wrong ciphertext", () => e.z.decap(dec, r.bytes(60), s.full)); await no("a damaged circuit", () => e.z.encap({ ...enc, r1csBuffer: cut(r, s.k.r1cs.slice(0, 40)) }, s.pub)); await no("a witness of nothing", () => e.z.decap(dec, q.ciphertext, { unknown: 1 }));
      forget();
    })],
    ["encryption", 400, 700, async (r, i) => quiet(async () => {
      const s = scene(r), enc = { r1csBuffer: s.k.r1cs, symContent: s.k.sym }, dec = { r1csBuffer: s.k.r1cs, wasmBuffer: s.k.wasm }, m = r.bytes(r.us(300)), open = r.chance(1, 2);
      const q = await e.z.encrypt(enc, { ...s.pub, note: i }, m, { includePublicInput: open }); must(eq(await e.z.decrypt(dec, q.ciphertext, s.full), m), "another message");
      if (open) must(e.z.getPublicInput(q.ciphertext).note === i, "another public input");
      await no("a ciphertext cut off", () => e.z.decrypt(dec, cut(r, q.ciphertext), s.full)); await no("no public input", async () => e.z.getPublicInput(r.bytes(3))); await no("a witness of nothing", () => e.z.decrypt(dec, q.ciphertext, { unknown: 1 }));
      forget();
    })],
  ];
  await x.run("calls", kinds.length * x.q(1, 2), async (c) => { const [what, n, per, f] = kinds[c.idx % kinds.length]; await soak(c, what, n * x.q(1, 8), per, f); });
  await x.run("overlapping", x.q(1, 3), async (c) => soak(c, "several at once", 80 * x.q(1, 8), 4000, async (r, i) => { const res = await Promise.allSettled(Array.from({ length: 6 }, (_, j) => { const q = new Rng(`${r.u32()}`); return q.pick(kinds.slice(2))[3](q, i * 6 + j); })); const bad = res.find((q) => q.status === "rejected" && !/another key|accepted|ciphertext/i.test(String(q.reason))); if (bad) throw bad.reason; }));
  // One calculator, used on and on.
  await x.run("one_calculator", x.q(2, 6), async (c) => {
    const k = circuit(c.rng, { maxMid: 3 }), b = await build(k.wasm), fails = c.idx % 2;
    await soak(c, fails ? "one calculator with failures" : "one calculator", 1200 * x.q(1, 8), 64, async (r) => quiet(async () => {
      const w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"]); const got = await b.calculateWitness(o, 0); must(got.every((v, j) => v === w[j]), "another witness"); await b.calculateWTNSBin(o, 0);
      if (fails) await no("an unknown signal", () => b.calculateWitness({ ...o, [`u${r.u32()}`]: "1" }, 0));
    }));
  });
}

// What calls cost as their inputs grow: C46.
import { assign, circuit, inputs } from "./lib/circuit.mjs";
import { fresh } from "./lib/kem.mjs";
import { load } from "./lib/load.mjs";
import { eq, Rng } from "./lib/mon.mjs";

const must = (ok, m) => { if (!ok) throw new Error(m); };
/// The cheapest of several runs, in CPU seconds of the whole process.
async function measure(f) {
  let best = Infinity, spent = 0;
  for (let i = 0; i < 2 || (i < 8 && spent < 0.05); i++) {
    global.gc();
    const t = process.cpuUsage(); await f(); const u = process.cpuUsage(t), s = (u.user + u.system) / 1e6;
    best = Math.min(best, s); spent += s;
    if (s > 1) break;
  }
  return Math.max(best, 1e-5);
}
const per = (a, b) => (b.cpu / b.items) / (a.cpu / a.items);
const excess = (a, b) => b.cpu > 0.3 && per(a, b) > 10;
/// Calls with inputs of `first`, four times, sixteen times as many items and so on: the cost per item stays within a small multiple.
async function proportional(c, what, first, last, make) {
  const seed = c.rng.u32(), v = [];
  for (let n = first; n <= last; n *= 4) {
    const q = await c.out(async () => { const f = await make(new Rng(`${seed}/${n}`), n); return measure(f); });
    if (!q.ok) { c.fail(`${what}: failed on valid input of ${n} items: ${String(q.err).slice(0, 300)}`, { costs: v }); return; }
    let m = { items: n, cpu: q.value };
    let s = v.find((a) => excess(a, m));
    if (s) {
      for (let i = 0; i < 2 && s && excess(s, m); i++) {
        const again = async (k) => measure(await make(new Rng(`${seed}/${k}`), k));
        s = { items: s.items, cpu: Math.max(s.cpu, await again(s.items)) }; m = { items: n, cpu: Math.min(m.cpu, await again(n)) };
      }
      if (excess(s, m)) { v.push(m); c.fail(`${what}: CPU time per item grows with the number of items: ${per(s, m).toFixed(0)} times as much per item for ${n} as for ${s.items}`, { costs: v }); return; }
    }
    v.push(m);
    if (m.cpu > 1.5) break;
  }
  c.ops += v.length; c.count("sizes_measured", v.length); c.key(what, seed); c.sample({ call: what, costs: v });
  const least = Math.min(...v.map((a) => a.cpu / a.items)), at = v[v.length - 1];
  c.max("percent_of_least_cpu_per_item", Math.round(at.cpu / at.items / least * 100));
  c.max("items_at_most", at.items);
}
const long = "s".repeat(60);
const SYMS = {
  "signals": (r, n) => Array.from({ length: n }, (_, i) => `${i},${i},0,main.s${i}\n`).join(""),
  "signals that share a long start": (r, n) => Array.from({ length: n }, (_, i) => `${i},${r.us(n + 1)},${r.us(9)},main.${long}s${i}\n`).join(""),
  "lines that are no signals": (r, n) => Array.from({ length: n }, (_, i) => i % 3 ? "\n" : `${i},no\n`).join("") + "1,1,0,main.s1\n",
  "elements of an array": (r, n) => Array.from({ length: n }, (_, i) => `${i},${i},0,main.s[${i}]\r\n`).join(""),
};
export async function C46(x) {
  const e = await fresh(x, new Rng("kem")), file = (f) => load(e.root, f), cry = await file("crypto.js"), sym = await file("sym_parser.js"), wit = await file("witness.js"), calc = await file("witness_calculator.js"), build = calc.default?.default ?? calc.default;
  const forget = () => { e.kem.table.clear(); e.kem.circuits.clear(); e.kem.events.length = 0; e.kem.wrong.length = 0; e.kem.last = null; };
  const many = x.q(1, 3), far = x.q(1, 4);
  const each = (k, o) => Object.entries(o)[k % Object.keys(o).length];
  await x.run("symbols", 4 * many, async (c) => {
    const [what, f] = each(c.idx, SYMS);
    await proportional(c, `symbol file, ${what}`, 400, 110000 * far, (r, n) => { const t = f(r, n); return () => { const m = sym.parseSymFile(t); must(sym.getInputSignals(m).size >= 1 && m.size >= 1, "nothing read"); sym.getInputSignals(m, n >> 1); }; });
  });
  const MAPS = {
    "names": (r, n) => [Object.fromEntries(Array.from({ length: n }, (_, i) => [`s${i}`, String(i)])), Array.from({ length: n }, (_, i) => [`s${i}`, i + 1])],
    "elements of one array": (r, n) => [{ s: Array.from({ length: n }, (_, i) => i) }, Array.from({ length: n }, (_, i) => [`s[${i}]`, i + 1])],
    "elements of a matrix": (r, n) => { const k = Math.floor(Math.sqrt(n)); return [{ s: Array.from({ length: k }, () => Array.from({ length: k }, () => "1")) }, Array.from({ length: k * k }, (_, i) => [`s[${Math.floor(i / k)}][${i % k}]`, i + 1])]; },
    "names the circuit does not have": (r, n) => [Object.fromEntries(Array.from({ length: n }, (_, i) => [`o${i}`, [String(i)]])), [["s", 1]]],
    "signals nobody gives": (r, n) => [{ s0: "1" }, Array.from({ length: n }, (_, i) => [`s${i}`, i + 1])],
  };
  if (sym.mapInputsToWires) await x.run("mapping", 5 * many, async (c) => {
    const [what, f] = each(c.idx, MAPS);
    await proportional(c, `input mapping, ${what}`, 400, 110000 * far, (r, n) => { const [o, s] = f(r, n), m = new Map(s); return () => { const w = sym.mapInputsToWires(o, m); must(w.size <= s.length, "too many wires"); }; });
  });
  await x.run("crypto", many, (c) => proportional(c, "AES-256-GCM, bytes", 16384, 4 << 20, (r, n) => { const k = r.bytes(32), m = new Uint8Array(Buffer.alloc(n, r.bytes(64))); return async () => { const s = await cry.aesGcmEncrypt(k, m); must(eq(await cry.aesGcmDecrypt(k, s), m), "another message"); }; }));
  const CALC = {
    "wires": (r, n) => circuit(r, { chain: n, maxMid: 2, free: true }),
    "elements of one input": (r, n) => circuit(r, { outs: 0, pubs: 1, prvs: 1, dims: [n], maxMid: 2, free: true }),
    "inputs": (r, n) => circuit(r, { outs: 0, pubs: n, prvs: 1, scalars: true, maxMid: 2, free: true }),
  };
  await x.run("witness", 3 * many, async (c) => {
    const [what, f] = each(c.idx, CALC);
    await proportional(c, `witness calculation, ${what}`, 100, what === "wires" ? 25600 * far : 25600, async (r, n) => {
      const k = f(r, n), w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"]), b = await build(k.wasm);
      return async () => {
        const got = await wit.calculateWitnessArray(k.wasm, o); must(got.length === w.length && got[w.length - 1] === w[w.length - 1], "another witness");
        await wit.calculateWitness(k.wasm, o); await b.calculateWitness(o, 0); await b.calculateBinWitness(o, 0); await b.calculateWTNSBin(o, 0);
      };
    });
  });
  const KEMS = {
    "public inputs": (r, n) => [circuit(r, { outs: 0, pubs: n, prvs: 1, scalars: true, maxMid: 2, free: true }), {}, 50],
    "elements of one public input": (r, n) => [circuit(r, { outs: 0, pubs: 1, prvs: 1, dims: [n], maxMid: 2, free: true }), {}, 50],
    "bytes of the message": (r, n) => [circuit(r, { maxMid: 2, free: true }), {}, n * 256],
    "other public data": (r, n) => [circuit(r, { maxMid: 2, free: true }), Object.fromEntries(Array.from({ length: n }, (_, i) => [`note ${i}`, ["text", i]])), 50],
    "lines of the symbol file": (r, n) => { const k = circuit(r, { maxMid: 2, free: true }); return [{ ...k, sym: k.sym.trimEnd() + "\n" + Array.from({ length: n }, (_, i) => `${900000 + i},${i % 2 ? -1 : 900000 + i},3,main.other.t[${i}]\n`).join("") }, {}, 50]; },
    "bytes of the ciphertext": (r, n) => [circuit(r, { maxMid: 2, free: true }), {}, 50, n * 64],
  };
  await x.run("encryption", 6 * many, async (c) => {
    const [what, f] = each(c.idx, KEMS);
    await proportional(c, `encryption, ${what}`, 100, what.includes("public input") ? 6400 : 25600 * far, async (r, n) => {
      const [k, more, size, ct] = f(r, n), w = assign(r, k), pub = inputs(r, k, w, ["out", "pub"]), full = inputs(r, k, w, ["pub", "prv"]), enc = { r1csBuffer: k.r1cs, symContent: k.sym }, dec = { r1csBuffer: k.r1cs, wasmBuffer: k.wasm }, m = new Uint8Array(Buffer.alloc(size, r.bytes(40)));
      e.kem.ctLen = ct ?? 60;
      return async () => {
        forget();
        for (const open of [true, false]) {
          const q = await e.z.encrypt(enc, { ...pub, ...more }, m, { includePublicInput: open });
          must(eq(await e.z.decrypt(dec, q.ciphertext, full), m), "another message");
          if (open) must(Object.keys(e.z.getPublicInput(q.ciphertext)).length === Object.keys({ ...pub, ...more }).length, "other public inputs");
        }
      };
    });
  });
}

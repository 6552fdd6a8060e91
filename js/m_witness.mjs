// Witness calculation in the JavaScript package: C21 (correct and identical in every encoding), C22 (validation and normalisation).
import { BN254, assign, circuit, complete, decodeWtns, fromLe, inputs, mod, reshape, snapshot, spell, violated } from "./lib/circuit.mjs";
import { known, leaves, mapAll } from "./lib/known.mjs";
import { tree, load } from "./lib/load.mjs";
import { eq, hex } from "./lib/mon.mjs";

async function variants(x) {
  const out = [];
  for (const v of ["dist", "src"]) {
    const root = tree(x.scratch, { variant: v });
    if (!root) continue;
    const w = await load(root, "witness.js"), b = await load(root, "witness_calculator.js");
    out.push({ name: v, w, build: (code, o) => (b.default?.default ?? b.default)(code, o) });
  }
  return out;
}
const PRIMES = [[BN254, 8], [BN254, 8], [BN254, 8], [18446744069414584321n, 2], [52435875175126190479447740508185965837690552500527637822603658699938581184513n, 8], [101n, 1], [(1n << 89n) - 1n, 3], [0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaabn, 12]];
function make(r, o = {}) { const [p, n32] = r.pick(PRIMES); return circuit(r, { p, n32, ...o }); }
const show = (c) => ({ prime: c.p, wires: c.nWires, outputs: c.nOut, public: c.nPub, private: c.nPrv, signals: c.signals.map((s) => `${s.kind} ${s.name}${s.dims.map((d) => `[${d}]`).join("")}`) });
/// Names of the differing wires between expected and computed values.
const diff = (a, b) => { if (!b || a.length !== b.length) return { expected_wires: a.length, got_wires: b?.length }; const i = a.findIndex((v, j) => v !== b[j]); return i < 0 ? null : { wire: i, expected: a[i], got: b[i] }; };

/// The three encodings carry `want`; returns false after a failure.
function same(c, how, got, want, p, n8) {
  let vals;
  if (how === "array") vals = got;
  else if (!c.check(got instanceof Uint8Array, `the ${how} output is no byte array`, {})) return false;
  else if (how === "bin") { if (!c.check(got.length === want.length * n8, "the raw binary output has the wrong length", { got: got.length, expected: want.length * n8 })) return false; vals = want.map((_, i) => fromLe(got.subarray(i * n8, i * n8 + n8))); }
  else {
    let d; try { d = decodeWtns(got); } catch (e) { return c.fail(String(e.message), { bytes: hex(got) }); }
    c.ops++;
    if (!c.check(d.p === p && d.n8 === n8, "the .wtns output names another field", { prime: d.p, n8: d.n8 })) return false;
    vals = d.values;
  }
  const d = diff(want, vals);
  return c.check(!d, `the ${how} output differs from the witness of the inputs`, () => d);
}
async function compute(v, calc, c, code, o) {
  // One of the ways to compute a witness; returns [encoding, result].
  const r = c.rng;
  switch (r.us(calc ? 5 : 2)) {
    case 0: return ["wtns", await v.w.calculateWitness(code, o)];
    case 1: return ["array", await v.w.calculateWitnessArray(code, o)];
    case 2: return ["array", await calc.calculateWitness(o, r.pick([0, 1, false, true, undefined]))];
    case 3: return ["bin", await calc.calculateBinWitness(o, r.pick([0, 1, false, undefined]))];
    default: return ["wtns", await calc.calculateWTNSBin(o, r.pick([0, 1, false, undefined]))];
  }
}
const frozen = (o) => snapshot(o);
export async function C21(x) {
  const vs = await variants(x);
  x.counters.package_variants = vs.length;
  await x.run("generated", x.q(700, 15000), async (c) => {
    const r = c.rng, v = r.pick(vs), k = make(r);
    c.key(k.r1cs); c.input({ variant: v.name, ...show(k) }); c.sample({ ...show(k), constraints: k.constraints.length });
    const calc = await c.must("building a calculator", () => v.build(k.wasm)); if (!calc) return;
    const info = await c.must("getCircuitInfo", () => v.w.getCircuitInfo(k.wasm)); if (!info) return;
    c.check(info.prime === k.p && info.n32 === k.n32 && info.witnessSize === k.nWires, "circuit information differs from the circuit", () => ({ got: { ...info } }));
    const kept = [];
    for (let t = r.range(2, 5); t > 0; t--) {
      const w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"], (q) => spell(r, q, k.p), true), before = frozen(o);
      const i = violated(k, w); if (i !== -1) throw new Error(`generator: constraint ${i}`);
      c.input({ variant: v.name, ...show(k), inputs: o });
      const got = await c.must("witness calculation", () => compute(v, calc, c, k.wasm, o)); if (!got) return;
      if (!same(c, got[0], got[1], w, k.p, k.n8)) return;
      c.check(frozen(o) === before, "witness calculation changed its inputs", {});
      kept.push([got, w]); c.count(`encoding_${got[0]}`); c.count("constraints_checked", k.constraints.length);
    }
    // Results of earlier calculations stay what they were.
    for (const [g, w] of kept) if (!same(c, g[0], g[1], w, k.p, k.n8)) return;
  });
  await x.run("encodings", x.q(150, 4000), async (c) => {
    // All three encodings of one calculation, twice over, on one and on another calculator.
    const r = c.rng, v = r.pick(vs), k = make(r, { maxMid: 40 }), w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"]);
    c.key(k.r1cs); c.input({ variant: v.name, ...show(k), inputs: o });
    const a = await c.must("building a calculator", () => v.build(k.wasm)), b = await c.must("building a calculator", () => v.build(k.wasm, { sanityCheck: true })); if (!a || !b) return;
    let first;
    for (const calc of [a, b, a]) {
      const res = await c.must("witness calculation", async () => [await calc.calculateWitness(o, 0), await calc.calculateBinWitness(o, 0), await calc.calculateWTNSBin(o, 0)]); if (!res) return;
      if (!["array", "bin", "wtns"].every((h, i) => same(c, h, res[i], w, k.p, k.n8))) return;
      first ??= res; c.check(eq(first[1], res[1]) && eq(first[2], res[2]), "recalculation gives other bytes", {});
    }
  });
  await x.run("recovery", x.q(150, 3000), async (c) => {
    // Good calculations after failed ones, on the same calculator.
    const r = c.rng, v = r.pick(vs), k = make(r, { minPub: 1 });
    c.key(k.r1cs); c.input({ variant: v.name, ...show(k) });
    const calc = await c.must("building a calculator", () => v.build(k.wasm)); if (!calc) return;
    for (let t = 0; t < 3; t++) {
      const w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"]), bad = { ...o };
      const n = r.pick(Object.keys(bad)); r.chance(1, 2) ? delete bad[n] : bad[n] = r.pick(["zzz", [], [1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 1, 1, 1]]);
      await c.out(() => compute(v, calc, c, k.wasm, bad));
      const got = await c.must("witness calculation after a failed one", () => compute(v, calc, c, k.wasm, o)); if (!got) return;
      if (!same(c, got[0], got[1], w, k.p, k.n8)) return;
      c.count("recoveries");
    }
  });
  await x.run("overlap", x.q(40, 600), async (c) => {
    // Overlapping calls through the package's own functions, same and different circuits.
    const r = c.rng, v = r.pick(vs), ks = [make(r), make(r)];
    c.key(ks[0].r1cs); c.input({ variant: v.name, circuits: ks.map(show) });
    for (let wave = 0; wave < 3; wave++) {
      const jobs = Array.from({ length: 8 }, () => { const k = r.pick(ks), w = assign(r, k); return [k, w, compute(v, null, c, k.wasm, inputs(r, k, w, ["pub", "prv"]))]; });
      const got = await c.must("overlapping witness calculations", () => Promise.all(jobs.map((j) => j[2]))); if (!got) return;
      if (!got.every((g, i) => same(c, g[0], g[1], jobs[i][1], jobs[i][0].p, jobs[i][0].n8))) return;
      c.count("overlapping_calls", 8);
    }
  });
  await x.run("reused", x.q(100, 2000), async (c) => {
    // One buffer that holds the code of one circuit, then of another; one inputs object changed in place.
    const r = c.rng, v = r.pick(vs), ks = [make(r), make(r), make(r)], len = Math.max(...ks.map((k) => k.wasm.length)) + 5;
    const padded = (b) => { const n = len - b.length - 4, h = Buffer.from([0, (n & 127) | 128, n >> 7 & 127 | 128, n >> 14]); return new Uint8Array(Buffer.concat([b, h, Buffer.alloc(n)])); };
    const codes = ks.map((k) => padded(k.wasm)), buf = new Uint8Array(len), o = {};
    c.key(ks[0].r1cs); c.input({ variant: v.name, circuits: ks.map(show) });
    for (let t = 0; t < 5; t++) {
      const i = r.us(3), k = ks[i], w = assign(r, k), q = inputs(r, k, w, ["pub", "prv"]);
      buf.set(codes[i]); for (const n of Object.keys(o)) delete o[n]; Object.assign(o, q);
      c.input({ variant: v.name, circuit: show(k), inputs: o });
      const got = await c.must("witness calculation with a reused buffer", () => compute(v, null, c, buf, o)); if (!got) return;
      if (!same(c, got[0], got[1], w, k.p, k.n8)) return;
      const info = await c.must("getCircuitInfo", () => v.w.getCircuitInfo(buf)); if (!info) return;
      if (!c.check(info.prime === k.p && info.witnessSize === k.nWires, "circuit information differs from the circuit now in the buffer", {})) return;
      c.count("buffers_reused");
    }
  });
  const bigs = [[70000, 8], [262200, 2], [33000, 8], [1100, 8], [66000, 1]];
  await x.run("large", x.q(3, 20), async (c) => {
    // Witnesses past every power of two that a count, an offset or a length could be cut at.
    const r = c.rng, [n, n32] = bigs[c.idx % bigs.length], v = vs[c.idx % vs.length], p = n32 === 8 ? BN254 : PRIMES.find((q) => q[1] === n32)[0], k = circuit(r, { p, n32, chain: n - r.us(40), outs: 0 }), w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"]);
    c.key(k.r1cs); c.input({ variant: v.name, ...show(k) }); c.sample({ wires: k.nWires, words_per_value: n32 });
    const calc = await c.must("building a calculator", () => v.build(k.wasm)); if (!calc) return;
    const res = await c.must("witness calculation", async () => [await calc.calculateWitness(o, 0), await calc.calculateBinWitness(o, 0), await v.w.calculateWitness(k.wasm, o)]); if (!res) return;
    if (["array", "bin", "wtns"].every((h, i) => same(c, h, res[i], w, k.p, k.n8))) c.max("largest_witness", w.length);
  });
  for (const kc of known()) {
    const heavy = kc.name === "signature";
    await x.run(kc.name, heavy ? x.q(6, 60) : x.q(30, 600), async (c) => {
      const r = c.rng, v = vs[c.idx % vs.length], o0 = kc.gen(r);
      const o = Object.fromEntries(r.shuffle(Object.keys(o0)).map((n) => [n, mapAll({ q: o0[n] }, (q) => spell(r, BigInt(q), BN254)).q]));
      c.key(snapshot(o)); c.input({ circuit: kc.name, variant: v.name, inputs: o }); if (c.idx === 0) c.sample({ circuit: kc.name, inputs: o0 });
      const calc = await c.must("building a calculator", () => v.build(kc.wasm)); if (!calc) return;
      const res = await c.must("witness calculation", async () => [await v.w.calculateWitness(kc.wasm, o), await calc.calculateBinWitness(o, 0), await calc.calculateWitness(o, 0), await calc.calculateWTNSBin(o, 0)]); if (!res) return;
      const w = res[2], p = BN254;
      if (!c.check(Array.isArray(w) && w.every((q) => typeof q === "bigint" && q >= 0n && q < p), "the array output is no list of field elements", {})) return;
      const i = violated(kc.model, w);
      if (!c.check(i === -1, "the computed witness violates the circuit", { constraint: i, wires: w.length, expected_wires: kc.model.nWires })) return;
      for (const n of Object.keys(o0)) for (const [ix, q] of leaves(o0[n])) { const wire = kc.wireOf.get(n + ix); if (wire === undefined) continue; c.count("inputs_on_wires"); if (!c.check(w[wire] === mod(BigInt(q), p), "an input is not on its wire", { signal: n + ix, wire, given: q, on_wire: w[wire] })) return; }
      if (!same(c, "wtns", res[0], w, p, 32) || !same(c, "bin", res[1], w, p, 32) || !same(c, "wtns", res[3], w, p, 32)) return;
      c.count("constraints_checked", kc.model.constraints.length); c.count(`witnesses_${kc.name}`);
    });
  }
}
export async function C22(x) {
  const vs = await variants(x);
  const refuse = async (c, v, calc, code, o, what) => {
    const before = frozen(o);
    const ok = await c.refused(`a witness was returned although ${what}`, () => compute(v, calc, c, code, o), () => ({ inputs: o }));
    c.count("refused"); c.count(`refused: ${what.split(":")[0]}`);
    return ok && c.check(frozen(o) === before, "witness calculation changed its inputs", {});
  };
  const junk = (r) => r.pick(["abc", "1.5", 1.5, -0.25, NaN, Infinity, "1e3", "0x", "0xg", "1_000", "1,2", "--1", "- 1", "1n", "+-2", "12 3", "NaN", undefined, "main", Symbol.iterator, "٣", "½"]);
  const setLeaf = (r, v, f) => { if (!Array.isArray(v)) return f(v); const o = [...v]; if (!o.length) return f(v); const i = r.us(o.length); o[i] = setLeaf(r, o[i], f); return o; };
  const flat = (v) => Array.isArray(v) ? v.flat(9) : [v];
  const bad = async (c, v, calc, code, o, r) => {
    // Every way of being malformed, one object each.
    const names = Object.keys(o), n = r.pick(names), l = flat(o[n]);
    const tries = [
      ["a signal is unknown: new", { ...o, [r.pick(["other", "main." + n, n + "[0]", n + " ", n.toUpperCase() + "_", "", "constructor", "1"])]: r.pick([0, "1", [1], [2, 3]]) }],
      ["a signal is unknown: renamed", Object.fromEntries(Object.keys(o).map((k) => [k === n ? k + "x" : k, o[k]]))],
      ["a signal is missing: dropped", Object.fromEntries(Object.keys(o).filter((k) => k !== n).map((k) => [k, o[k]]))],
      ["a signal has too few values: last gone", { ...o, [n]: l.slice(0, -1) }],
      ["a signal has too few values: none", { ...o, [n]: [] }],
      ["a signal has too many values: one more", { ...o, [n]: [...l, r.pick([0, "1", 5n])] }],
      ["a signal has too many values: nested", { ...o, [n]: [l, l] }],
      ["a value is no number: junk", { ...o, [n]: setLeaf(r, o[n], () => junk(r)) }],
      ["nothing is given: empty", {}],
    ];
    if (names.length > 1) {
      const q = r.pick(names.filter((k) => k !== n)), lq = flat(o[q]);
      tries.push(["values are given to the wrong signal: shifted", { ...o, [n]: [...l, lq[0]], [q]: lq.slice(1) }]);
      tries.push(["a signal is missing: another has its values too", Object.fromEntries(Object.keys(o).filter((k) => k !== n).map((k) => [k, k === q ? [...flat(o[k]), ...l] : o[k]]))]);
    }
    for (const [what, t] of tries) { c.input({ variant: v.name, what, inputs: t }); if (!await refuse(c, v, calc, code, t, what)) return false; }
    return true;
  };
  await x.run("malformed", x.q(350, 8000), async (c) => {
    const r = c.rng, v = r.pick(vs), k = make(r, { minPub: 1 }), w = assign(r, k), o = inputs(r, k, w, ["pub", "prv"]);
    c.key(k.r1cs, snapshot(o)); c.sample({ ...show(k), inputs: o });
    const calc = await c.must("building a calculator", () => v.build(k.wasm)); if (!calc) return;
    await bad(c, v, calc, k.wasm, o, r);
    const got = await c.must("witness calculation after refused ones", () => compute(v, calc, c, k.wasm, o)); if (got) same(c, got[0], got[1], w, k.p, k.n8);
  });
  await x.run("violating", x.q(400, 10000), async (c) => {
    const r = c.rng, v = r.pick(vs), k = make(r, { minPub: 1 });
    if (!k.rules.length) return;
    const calc = await c.must("building a calculator", () => v.build(k.wasm)); if (!calc) return;
    c.key(k.r1cs);
    for (let t = 0; t < 4; t++) {
      const w = assign(r, k), u = r.pick(k.rules), at = r.chance(1, 2) ? u.wire : r.range(1 + k.nOut, k.nOut + k.nPub + k.nPrv);
      w[at] = r.chance(1, 2) ? mod(w[at] + r.pick([1n, -1n, 1n << BigInt(r.us(60))]), k.p) : r.fe(k.p);
      complete(k, w);
      if (violated(k, w) === -1) continue;
      const o = inputs(r, k, w, ["pub", "prv"], (q) => spell(r, q, k.p), true);
      c.input({ variant: v.name, ...show(k), inputs: o }); c.sample({ changed_wire: at, inputs: o });
      if (!await refuse(c, v, calc, k.wasm, o, "the inputs violate the circuit")) return;
    }
  });
  await x.run("spellings", x.q(350, 8000), async (c) => {
    const r = c.rng, v = r.pick(vs), k = make(r), w = assign(r, k);
    c.key(k.r1cs, snapshot(w));
    const calc = await c.must("building a calculator", () => v.build(k.wasm)); if (!calc) return;
    for (let t = 0; t < 6; t++) {
      const o = inputs(r, k, w, ["pub", "prv"], (q) => spell(r, q, k.p), true);
      c.input({ variant: v.name, ...show(k), inputs: o }); c.sample({ inputs: o });
      const got = await c.must("witness calculation", () => compute(v, calc, c, k.wasm, o)); if (!got) return;
      if (!same(c, got[0], got[1], w, k.p, k.n8)) return;
      c.count("spellings_tried");
    }
  });
  for (const kc of known()) {
    const heavy = kc.name === "signature";
    await x.run(kc.name, heavy ? x.q(2, 20) : x.q(20, 400), async (c) => {
      const r = c.rng, v = vs[c.idx % vs.length], o = kc.gen(r);
      c.key(snapshot(o)); c.input({ circuit: kc.name, inputs: o });
      const calc = await c.must("building a calculator", () => v.build(kc.wasm)); if (!calc) return;
      const base = await c.must("witness calculation", () => calc.calculateWTNSBin(o, 0)); if (!base) return;
      const say = mapAll(Object.fromEntries(r.shuffle(Object.keys(o)).map((n) => [n, r.chance(1, 2) ? reshape(r, o[n]) : o[n]])), (q) => spell(r, BigInt(q), BN254));
      c.input({ circuit: kc.name, inputs: say });
      const again = await c.must("witness calculation", () => calc.calculateWTNSBin(say, 0)); if (!again) return;
      if (!c.check(eq(base, again), "another spelling of the inputs gives another witness", { inputs: say })) return;
      if (!await bad(c, v, heavy ? null : calc, kc.wasm, o, r)) return;
      // One changed value: a violation in either circuit.
      const wrong = kc.name === "sudoku" ? { ...o, solution: o.solution.map((q, i) => i === c.idx % 81 ? q % 9 + 1 : q) } : { ...o, message: String(BigInt(o.message) + 1n) };
      await refuse(c, v, calc, kc.wasm, wrong, "the inputs violate the circuit");
      if (kc.name === "sudoku") { const p = [...o.puzzle], i = r.us(81); p[i] = o.solution[i] % 9 + 1; await refuse(c, v, calc, kc.wasm, { ...o, puzzle: p }, "the inputs violate the circuit"); }
    });
  }
}

// Symbol files and input binding in the JavaScript package: C15, C16, C17 (against the Rust half's emission), C18.
import fs from "node:fs";
import path from "node:path";
import { snapshot } from "./lib/circuit.mjs";
import { tree, load } from "./lib/load.mjs";

const REPO = process.env.VERIF_REPO ?? "/repo";
export const symFixtures = () => ["packages/zkenc-cli/tests/r1cs", "packages/zkenc-js/tests/fixtures", "docs/static/circuits"].flatMap((d) => { const p = path.join(REPO, d); return fs.existsSync(p) ? fs.readdirSync(p).filter((f) => f.endsWith(".sym")).sort().map((f) => path.join(p, f)) : []; });
function name(r, i) {
  switch (r.us(14)) {
    case 12: { const p = () => Array.from({ length: r.us(3) }, () => String.fromCharCode(33 + r.us(94))).join("").replace(/,/g, ";"); return `${r.pick(["main.", "main.", ""])}${p()}s${i}${p()}`; }
    case 13: return `main.${r.pick(["component.", "sub[3].", "a.b.c.", "m[0][1]."]).repeat(r.range(1, 60))}${i}`;
    case 10: return `main.${r.pick(["a", "m"])}[${r.pick(["0", "00", "+", "-", " ", ""])}${i}]${r.pick(["", "[0]", "[00]", ".x[01]", " "])}`.trimEnd();
    case 11: return `${r.pick(["main.", ""])}${r.pick(["__proto__", "constructor", "toString", "_", "$", "A", "a.B", "'q'", '"q"', "0", "-1", "%2c", "\\\\", "a;b", "a\\tb", "e\u0301", "x]["])}${r.chance(1, 2) ? "" : i}`;
    case 0: return `main.${r.pick(["a", "puzzle", "x"])}[${i}]`;
    case 1: return `main.m[${Math.floor(i / 7)}][${i % 7}]`;
    case 2: return `main.c.sub[${i}].out`;
    case 3: return `main.main.${i}`;
    case 4: return `mainx.${i}`;
    case 5: return `Main.${i}`;
    case 6: return `xmain.${i}`;
    case 7: return `main.sig ${i} ${r.pick(["é", "電路", "ß", "😀", "a b"])}`;
    case 8: return r.pick(["main", "main.", "main..", ".main.", "a.main.", "main .", "main_", "main:", "main/"]) + i;
    default: return `main.s${i}`;
  }
}
function genSym(r, n) {
  const eol = r.pick(["\n", "\n", "\r\n"]), mixed = r.chance(1, 8), tidy = r.chance(1, 2);
  const pad = () => r.chance(1, 6) ? r.pick([" ", "\t", "  ", " \t "]) : "";
  const map = new Map(), used = new Set(); let t = "";
  for (let i = 0; i < n; i++) {
    if (!tidy && r.chance(1, 6)) t += r.pick(["", "   ", "# comment", `${i},${i},${i}`, `${i},${i},${i},main.j${i},extra`, `main.lonely${i}`, `${i},${i},0,main.k[${i},${i}]`, ",,,,", `${i},${i},${i},main.z${i},`]);
    else {
      const w = r.pick([() => -1, () => r.pick([-2, -1000, -2147483648, -9]), () => r.pick([0, 1, 255, 256, 65535, 65536, 2147483647, 2147483646, 1 << 24]), () => r.us(2 ** 31), () => i, () => i, () => i])();
      let nm = name(r, i); if (used.has(nm)) nm += `_${i}`; while (used.has(nm)) nm += "_"; used.add(nm); // one line per name
      if (w >= 0) map.set(nm, w);
      const f0 = r.pick(["-1", String(r.u32()), "", String(i), String(i)]), f2 = r.pick(["-5", "abc", String(i >> 1), String(i)]);
      t += tidy ? `${f0},${w},${f2},${nm}` : `${pad()}${f0}${pad()},${pad()}${w}${pad()},${f2},${pad()}${nm}${pad()}`;
    }
    t += mixed ? r.pick(["\n", "\r\n"]) : eol;
  }
  if (r.chance(1, 3)) t = t.replace(/[\r\n]+$/, "");
  return { text: t, map, lines: n };
}
function readSym(s) {
  const m = new Map();
  for (const l of s.split("\n")) { const f = l.trim().split(","); if (f.length === 4 && /^\s*\d+\s*$/.test(f[1])) m.set(f[3].trim(), Number(f[1])); }
  return m;
}
/// First key on which two maps differ.
const differ = (a, b) => { for (const k of [...a.keys(), ...b.keys()]) if (a.get(k) !== b.get(k)) return { key: k, expected: a.get(k), got: b.get(k) }; return null; };
const same = (c, want, got, message, more) => {
  if (!c.check(got instanceof Map, "the result is no Map", { got: typeof got })) return false;
  const d = differ(want, got);
  return c.check(!d && want.size === got.size, message, () => ({ ...d, entries_expected: want.size, entries_got: got.size, ...more }));
};
/// Files of one length that differ in one place only: first, its twins, and the first again.
function twins(r) {
  const n = r.pick([2, 3, 10, 60, 400, 1500]), base = Array.from({ length: n }, (_, i) => [`main.${r.pick(["a", "b", "c"])}${String(i).padStart(4, "0")}`, 1000 + r.us(9000)]);
  const say = (v) => ({ text: v.map(([s, w], i) => `${String(i).padStart(4, "0")},${w},0,${s}\n`).join(""), map: new Map(v), lines: n }), out = [say(base)];
  for (let t = 0; t < 2; t++) {
    const v = base.map((q) => [...q]), at = r.pick([n >> 1, n - 1, 0, Math.floor(n / 3)]);
    switch (r.us(3)) {
      case 0: v[at][1] = 1000 + (v[at][1] - 1000 + 1 + r.us(8998)) % 9000; break;
      case 1: v[at][0] = v[at][0].replace("main.", "main_"); break;
      default: { const to = (at + 1) % n; [v[at][1], v[to][1]] = [v[to][1], v[at][1]]; }
    }
    out.push(say(v), say(base));
  }
  return out;
}
/// A map that was handed out is its owner's to change.
const spoil = (r, m) => { const k = [...m.keys()]; if (k.length) { m.set(r.pick(k), 4242424); m.delete(r.pick(k)); } m.set("main.added", 1); m.set("added", 1); };
const mod = (x) => load(tree(x.scratch), "sym_parser.js");
export async function C15(x) {
  const m = await mod(x);
  const go = async (c, s) => {
    c.count("lines", s.lines); c.count("signals", s.map.size);
    const got = await c.must("parseSymFile", () => m.parseSymFile(s.text));
    if (got !== undefined) same(c, s.map, got, "the signal map differs from the file");
    return got;
  };
  await x.run("twins", x.q(200, 4000), async (c) => {
    for (const s of twins(c.rng)) { c.key(s.text); c.input({ text: s.text.slice(0, 900) }); const got = await go(c, s); if (got instanceof Map && c.rng.chance(1, 2)) spoil(c.rng, got); if (c.fails.length) return; }
  });
  await x.run("random", x.q(5000, 100000), async (c) => { const s = genSym(c.rng, c.rng.size(200)); c.key(s.text); c.input({ text: s.text.slice(0, 900) }); c.sample({ text: s.text.slice(0, 300), signals: s.map.size }); await go(c, s); });
  const ints = x.interesting(70000);
  await x.run("lines", ints.length, async (c) => {
    const s = { text: "", map: new Map(), lines: ints[c.idx] }, l = [];
    for (let i = 0; i < s.lines; i++) { l.push(`${i + 1},${i},0,main.s${i}\n`); s.map.set(`main.s${i}`, i); }
    s.text = l.join(""); c.key(s.lines); c.input({ lines: s.lines }); await go(c, s);
  });
  await x.run("name_lengths", ints.length, async (c) => {
    const n = Math.max(1, ints[c.idx]), nm = "main." + "n".repeat(n);
    c.key(n); c.input({ name_length: n });
    await go(c, { text: `1,4,0,${nm}\n2,5,0,main.b\n${"9".repeat(n)},6,0,main.c`, map: new Map([[nm, 4], ["main.b", 5], ["main.c", 6]]), lines: 3 });
  });
  const wires = [...new Set([...x.interesting(2147483647), ...Array.from({ length: 31 }, (_, k) => [2 ** k - 1, 2 ** k, 2 ** k + 1]).flat(), 2147483647])].filter((w) => w <= 2147483647);
  await x.run("wires", 3, async (c) => {
    const map = new Map(), l = wires.map((w, i) => { if (c.idx !== 1) map.set(`main.w${i}`, w); return `${i},${c.idx === 1 ? -w - 1 : w},${w},main.w${i}`; });
    c.key(c.idx); c.input({ wires: wires.length });
    await go(c, { text: l.join(c.idx === 2 ? "\r\n" : "\n"), map, lines: l.length });
  });
  const fx = symFixtures();
  await x.run("fixture", fx.length, async (c) => { const text = fs.readFileSync(fx[c.idx], "utf8"); c.key(text); c.input({ file: fx[c.idx] }); await go(c, { text, map: readSym(text), lines: text.split("\n").length }); });
}
const select = (map, max) => new Map([...map].filter(([k, w]) => k.slice(0, 5) === "main." && (max === undefined || w <= max)).map(([k, w]) => [k.slice(5), w]));
export async function C16(x) {
  const m = await mod(x);
  const go = async (c, map, max) => {
    const want = select(map, max), before = [...map];
    c.count("signals_selected", want.size);
    const got = await c.must("getInputSignals", () => max === undefined && c.rng.chance(1, 2) ? m.getInputSignals(map) : m.getInputSignals(map, max));
    if (got === undefined) return false;
    return same(c, want, got, "the selected signals differ", { max }) && c.check(map.size === before.length && before.every(([k, v]) => map.get(k) === v), "selection changed the signal map", {});
  };
  await x.run("random", x.q(5000, 100000), async (c) => {
    const map = new Map(), n = c.rng.size(120);
    for (let i = 0; i < n; i++) map.set(c.rng.chance(1, 8) ? c.rng.pick(["main.", "main", "main.main.", "main..x", "main.main.x", "main.x", "x", "", "mainx", "MAIN.x", "mai", "main.é", "ｍain.x", " main.y", "main. y", "one.main.x", "main.a.b.c", "main.[0]", "main.constructor", "main.__proto__"]) : name(c.rng, i), c.rng.pick([() => c.rng.us(2 ** 31), () => c.rng.us(20), () => i, () => i])());
    c.key([...map]); c.input({ map: [...map].slice(0, 60) }); c.sample({ map: [...map].slice(0, 6), entries: map.size });
    const maxes = [undefined, 0, 1, 2147483647, c.rng.us(2 ** 31)], ws = [...map.values()];
    for (let i = 0; i < 4 && ws.length; i++) { const w = c.rng.pick(ws); maxes.push(w, w + 1); if (w) maxes.push(w - 1); }
    for (const q of maxes) if (!await go(c, map, q)) return;
    // The same map, changed between the calls, and results changed by their owner.
    for (let t = 0; t < 4; t++) {
      const ks = [...map.keys()]; if (!ks.length) break;
      switch (c.rng.us(3)) {
        case 0: { const k = c.rng.pick(ks); map.set(k, map.get(k) + 1 + c.rng.us(9)); break; }
        case 1: map.delete(c.rng.pick(ks)); map.set(`main.new${t}`, c.rng.us(99)); break;
        default: { const got = m.getInputSignals(map); if (got instanceof Map) spoil(c.rng, got); }
      }
      if (!await go(c, map, c.rng.pick(maxes))) return;
    }
  });
  await x.run("every_max", x.q(40, 400), async (c) => {
    const n = c.rng.range(1, 90), map = new Map(Array.from({ length: n }, (_, i) => [name(c.rng, i), i]));
    c.key([...map]); c.input({ map: [...map] });
    for (let q = 0; q <= n + 1; q++) if (!await go(c, map, q)) return;
    await go(c, map, undefined);
  });
  const ints = x.interesting(2147483646);
  await x.run("boundaries", ints.length, async (c) => {
    const v = ints[c.idx], map = new Map([["main.a", v], ["main.b", v + 1], ["main.c", Math.max(0, v - 1)], ["b", v], ["main.z", 0]]);
    c.key(v); c.input({ max: v }); await go(c, map, v); await go(c, map, undefined);
  });
  await x.run("large", x.q(3, 30), async (c) => {
    const map = new Map(Array.from({ length: 70000 + c.idx }, (_, i) => [i % 3 ? `c.a[${i}]` : `main.a[${i}]`, i]));
    c.key(map.size); c.input({ entries: map.size }); for (const q of [65536, c.idx * 1000, undefined]) await go(c, map, q);
  });
  const fx = symFixtures();
  await x.run("fixture", fx.length, async (c) => { const map = readSym(fs.readFileSync(fx[c.idx], "utf8")); c.key(c.idx); c.input({ file: fx[c.idx] }); for (const q of [undefined, 0, 1, 2, 7, 8, 81, 82, 162, 10000]) if (!await go(c, map, q)) return; });
}
export async function C17(x) {
  const m = await mod(x);
  const f = x.args.emit;
  const lines = fs.existsSync(f) ? fs.readFileSync(f, "utf8").split("\n").filter(Boolean) : [];
  x.counters.files_from_rust = lines.length;
  await x.run("agree", lines.length, async (c) => {
    const e = JSON.parse(lines[c.idx]);
    c.key(e.text); c.input({ rust_case: e.case, text: e.text.slice(0, 900) }); c.sample({ text: e.text.slice(0, 200), rust_signals: Object.keys(e.map).length });
    const map = await c.must("parseSymFile", () => m.parseSymFile(e.text));
    if (map === undefined || !same(c, new Map(Object.entries(e.map)), map, "the two packages read different signal maps from one file", { rust_case: e.case })) return;
    for (const s of e.select) {
      const got = await c.must("getInputSignals", () => m.getInputSignals(map, s.max ?? undefined));
      if (got === undefined || !same(c, new Map(Object.entries(s.signals)), got, "the two packages select different input signals", { max: s.max, rust_case: e.case })) return;
      c.count("selections_compared");
      if (c.rng.chance(1, 4)) spoil(c.rng, got);
    }
    if (c.rng.chance(1, 2)) spoil(c.rng, map);
  });
}
export async function C18(x) {
  const m = await mod(x);
  const ident = (r, i) => r.chance(1, 40) ? r.pick(["long_", "$name", "S"]).repeat(r.range(10, 80)) + i : r.chance(1, 12) ? r.pick(["constructor", "length", "toString", "valueOf", "0", "1", "main", "in", "out"]) + (r.chance(1, 2) ? "" : i) : `${r.pick(["a", "puzzle", "sig", "R8", "x_", "é", "key$"])}${i}`;
  const value = (r) => {
    switch (r.us(9)) {
      case 0: return r.pick([0, 1, -1, Number.MAX_SAFE_INTEGER, Number.MIN_SAFE_INTEGER, 4294967296, -4294967297, 1e15]);
      case 1: return r.us(100000) - 50000;
      case 2: return r.big(300) * (r.chance(1, 3) ? -1n : 1n);
      case 3: return (r.big(r.range(1, 300)) * (r.chance(1, 3) ? -1n : 1n)).toString();
      case 4: return "0x" + r.big(r.range(1, 260)).toString(16);
      case 5: return r.pick(["0", "1", "00", "007", 0n, 1n, -1n, "-1"]);
      default: return r.us(20);
    }
  };
  const tree_ = (r, depth) => {
    const k = r.us(10);
    if (depth <= 0 || k < 4) return value(r);
    if (k < 7) { const n = r.pick([0, 1, 2, 3, 3, 5, 12]); return Array.from({ length: n }, () => tree_(r, r.chance(1, 2) ? 0 : depth - 1)); }
    if (k < 8) { const n = r.range(1, 4), inner = r.range(1, 4); return Array.from({ length: n }, () => Array.from({ length: inner }, () => value(r))); }
    const o = {}; for (let i = r.us(4); i > 0; i--) o[ident(r, r.us(9))] = tree_(r, depth - 1); return o;
  };
  const leaves = (v, at, out) => { if (Array.isArray(v)) v.forEach((q, i) => leaves(q, `${at}[${i}]`, out)); else if (v !== null && typeof v === "object") for (const k of Object.keys(v)) leaves(v[k], `${at}.${k}`, out); else out.push([at, v]); return out; };
  const shuffled = (r, v) => Array.isArray(v) ? v.map((q) => shuffled(r, q)) : v !== null && typeof v === "object" ? Object.fromEntries(r.shuffle(Object.keys(v)).map((k) => [k, shuffled(r, v[k])])) : v;
  const num = (v) => BigInt(Array.isArray(v) ? v[0] : v);
  const run = async (c, inp, wires) => {
    const want = new Map();
    for (const [n, v] of Object.keys(inp).flatMap((k) => leaves(inp[k], k, []))) if (wires.has(n)) want.set(wires.get(n), BigInt(v));
    c.count("leaves", want.size); c.max("most_leaves", want.size);
    for (let t = 0; t < 3; t++) {
      const q = t ? shuffled(c.rng, inp) : inp, before = snapshot(q);
      const w = t === 2 ? new Map(c.rng.shuffle([...wires])) : wires;
      const got = await c.must("mapInputsToWires", () => m.mapInputsToWires(q, w));
      if (got === undefined) return;
      let vals; try { vals = new Map([...got].map(([k, v]) => [k, num(v)])); } catch (e) { c.fail("a mapped value is not a number", { mapped: [...got].slice(0, 20) }); return; }
      if (!same(c, want, vals, t ? "the mapping depends on the order of keys" : "a wire does not get the value of its signal", { keys: Object.keys(q).slice(0, 20) })) return;
      if (!c.check(snapshot(q) === before, "mapping changed its input", {})) return;
    }
  };
  await x.run("random", x.q(8000, 150000), async (c) => {
    const r = c.rng, inp = {};
    for (let i = r.us(6); i >= 0; i--) inp[ident(r, i)] = tree_(r, r.range(0, 4));
    const names = Object.keys(inp).flatMap((k) => leaves(inp[k], k, [])).map((l) => l[0]);
    // Keys that only resemble the name of a wire.
    const strange = new Set();
    if (r.chance(1, 2)) for (const k of Object.keys(inp)) if (r.chance(1, 3)) {
      const q = r.pick([(n) => "main." + n, (n) => n.toUpperCase(), (n) => " " + n, (n) => n + " ", (n) => "main.main." + n, (n) => n + ".", (n) => n + "_", (n) => n.slice(0, -1), (n) => "x." + n])(k);
      const l = leaves(inp[k], q, []).map((e) => e[0]);
      if (!(q in inp) && q !== "" && !/^(main|x|)$/.test(q) && !l.some((n) => names.includes(n) || strange.has(n))) { l.forEach((n) => strange.add(n)); inp[q] = r.chance(1, 2) ? inp[k] : value(r); if (inp[q] !== inp[k]) leaves(inp[q], q, []).forEach((e) => strange.add(e[0])); }
    }
    const near = names.flatMap((n) => [n.replace("[", "."), n + "[0]", n.replace(/\[\d+\]$/, ""), n + ".x", "main." + n, n.replace("]", "")]).concat(["x", "", "[0]", "other", "other[0]", "undefined"]);
    const wires = new Map(); let w = r.us(3);
    for (const n of r.shuffle([...new Set([...names.filter(() => !r.chance(1, 8)), ...near.filter((n) => !names.includes(n) && !strange.has(n) && r.chance(1, 6))])])) { wires.set(n, w); w += r.chance(1, 9) ? r.us(1000000) + 1 : 1; }
    c.key([inp, [...wires]]); c.input({ inputs: inp, wires: [...wires].slice(0, 60) }); c.sample({ inputs: inp, wires: [...wires].slice(0, 8) });
    await run(c, inp, wires);
  });
  await x.run("changed", x.q(600, 12000), async (c) => {
    // One inputs object and one map of wires, both changed in place between the calls.
    const r = c.rng, inp = { a: [1, [2, "3"]], b: { x: "4", y: [5] }, s: 6, z: "7" }, wires = new Map(["a[0]", "a[1][0]", "a[1][1]", "b.x", "b.y[0]", "s", "z"].map((n, i) => [n, i * 3 + 1]));
    c.key(c.idx); let log = [];
    for (let t = 0; t < 8; t++) {
      const v = value(r);
      const [what, f] = r.pick([["a[0]", () => { inp.a[0] = v; }], ["a[1][1]", () => { inp.a[1][1] = v; }], ["b.x", () => { inp.b.x = v; }], ["b.y", () => { inp.b.y = [v]; }], ["s", () => { inp.s = v; }], ["s and z", () => { [inp.s, inp.z] = [inp.z, inp.s]; }], ["wires", () => { const x = wires.get("s"), y = wires.get("z"); if (x !== undefined && y !== undefined) { wires.set("s", y); wires.set("z", x); } }], ["wire a[0]", () => { wires.delete("a[0]") || wires.set("a[0]", 99); }]]);
      f(); log.push(what); c.input({ changes: log, inputs: inp, wires: [...wires] });
      const before = c.fails.length; await run(c, inp, wires); if (c.fails.length > before) return;
    }
  });
  const ints = x.interesting(70000);
  await x.run("sizes", ints.length, async (c) => {
    // Arrays of boundary lengths next to other inputs, flat and as rows.
    const n = ints[c.idx], wires = new Map(), inp = { z: 5, a: Array.from({ length: n }, (_, i) => i % 7 ? i : String(i * 3)), m: [], y: "9" };
    const rows = Math.min(9, n); for (let i = 0; i < rows; i++) inp.m.push(Array.from({ length: Math.floor(n / 9) }, (_, j) => j + i));
    let w = 1; wires.set("y", w++); inp.a.forEach((_, i) => wires.set(`a[${i}]`, w++)); inp.m.forEach((q, i) => q.forEach((_, j) => wires.set(`m[${i}][${j}]`, w++))); wires.set("z", w++);
    c.key(n); c.input({ length: n }); await run(c, inp, wires);
  });
  await x.run("depth", 40, async (c) => {
    // Nesting of every depth, arrays and objects mixed.
    let v = ["7", 8], n = ["[0]", "[1]"];
    for (let d = 0; d < c.idx; d++) { if (c.rng.chance(1, 2)) { v = [3, v]; n = ["[0]", ...n.map((k) => "[1]" + k)]; if (v.length === 2 && d % 2) { v.push(1); n.push("[2]"); } } else { v = { p: v, q: "4" }; n = [...n.map((k) => ".p" + k), ".q"]; } }
    c.key(c.idx); c.input({ depth: c.idx, value: v });
    await run(c, { r: v, s: 1 }, new Map([...n.map((k, i) => ["r" + k, i + 1]), ["s", n.length + 5]]));
  });
  const fx = symFixtures();
  await x.run("circuits", fx.length * x.q(6, 60), async (c) => {
    // The committed symbol files: every main-level signal gets a value through nested arrays.
    const file = fx[c.idx % fx.length], all = await c.must("parseSymFile", () => m.parseSymFile(fs.readFileSync(file, "utf8")));
    const wires = all && await c.must("getInputSignals", () => m.getInputSignals(all)); if (!wires) return;
    const own = new Map([...readSym(fs.readFileSync(file, "utf8"))].filter(([k]) => /^main\.[^.]+$/.test(k)).map(([k, w]) => [k.slice(5), w]));
    const inp = {};
    for (const n of c.rng.shuffle([...own.keys()])) { const base = n.split("[")[0], ix = [...n.matchAll(/\[(\d+)\]/g)].map((q) => Number(q[1])); let at = inp, k = base; for (const i of ix) { at = at[k] ??= []; k = i; } at[k] = c.rng.chance(1, 3) ? c.rng.us(1000) : c.rng.big(200).toString(); }
    c.key([file, c.idx]); c.input({ file }); await run(c, inp, wires);
  });
}

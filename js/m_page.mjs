// The playground of the documentation site, used as a person would: C50.
import nodeCrypto from "node:crypto";
import fs from "node:fs";
import path from "node:path";
import { isDeepStrictEqual } from "node:util";
import { assign, circuit, inputs, spell } from "./lib/circuit.mjs";
import { known, sudoku } from "./lib/known.mjs";
import { fresh } from "./lib/kem.mjs";
import { Page } from "./lib/page.mjs";
import { eq } from "./lib/mon.mjs";

const REPO = process.env.VERIF_REPO ?? "/repo", CIRCUITS = path.join(REPO, "docs/static/circuits"), FILE = "src/components/PlaygroundClient.tsx", WRAPPED = "src/pages/playground.tsx";
const utf8 = (s) => new TextEncoder().encode(s);
/// Independent reading of a combined ciphertext, and of what was sealed.
function unseal(kem, b) {
  const d = Buffer.from(b.buffer, b.byteOffset, b.length), flag = d[0], n = d.readUInt32BE(1), ct = d.subarray(5, 5 + n);
  let at = 5 + n, pub; if (flag === 1) { const k = d.readUInt32BE(at); pub = JSON.parse(d.subarray(at + 4, at + 4 + k).toString("utf8")); at += 4 + k; }
  const s = d.subarray(at), e = kem.table.get(ct.toString("hex"));
  if (!e || ct.length !== n) throw new Error("no ciphertext of the scheme inside");
  const o = nodeCrypto.createDecipheriv("aes-256-gcm", e.key, s.subarray(0, 12)); o.setAuthTag(s.subarray(s.length - 16));
  return { flag, pub, ct, sealed: at, message: new Uint8Array(Buffer.concat([o.update(s.subarray(12, s.length - 16)), o.final()])), r1cs: e.r1cs, publics: e.publics };
}
/// A solver as the site's own: blanks are -1, no solution is an error.
class Sudoku {
  constructor(a) { this.a = a; }
  getSolution() {
    const a = [...this.a]; let steps = 0;
    const can = (i) => { const no = new Set(), y = Math.floor(i / 9), x = i % 9; for (let j = 0; j < 9; j++) { no.add(a[y * 9 + j]); no.add(a[j * 9 + x]); no.add(a[(y - y % 3 + Math.floor(j / 3)) * 9 + x - x % 3 + j % 3]); } return [1, 2, 3, 4, 5, 6, 7, 8, 9].filter((v) => !no.has(v)); };
    for (let i = 0; i < 81; i++) if (a[i] !== -1) { const v = a[i]; a[i] = -1; if (!can(i).includes(v)) throw new Error("no solution"); a[i] = v; }
    const go = () => {
      if (++steps > 3000) throw new Error("no solution");
      let best = -1, way = null;
      for (let i = 0; i < 81; i++) if (a[i] === -1) { const w = can(i); if (!way || w.length < way.length) { best = i; way = w; } }
      if (best < 0) return true;
      for (const v of way) { a[best] = v; if (go()) return true; }
      a[best] = -1; return false;
    };
    if (!go()) throw new Error("no solution");
    return a;
  }
}
const WORDS = ["hello", "secret 42", "é電路😀", "line\nline", " spaces ", "\t", "\"quoted\" \\", "<b>&amp;</b>", "{size}", "0", "false", "null", "\u0000", "\u2028", "ü".normalize("NFD"), "🔐", "x\r\n", "𝔘", "\ufeff"];
const words = (r) => { const n = r.chance(1, 30) ? 30000 : r.pick([1, 1, 1, 2, 3, 12, 400]); let s = ""; for (let i = 0; i < n; i++) s += r.pick(WORDS); return s; };

async function open(c, e, o = {}) {
  const r = c.rng, base = r.pick(["", "", "/zkenc", "/a/b", "/zh-TW"]), slow = r.pick([0, 0, 2, 6]);
  const files = {}; for (const n of ["sudoku.r1cs", "sudoku.wasm", "sudoku.sym"]) files[`/circuits/${n}`] = fs.readFileSync(path.join(CIRCUITS, n));
  const page = new Page({
    base, files, delay: () => slow ? r.us(slow) : 0, fail: (w, p) => w === "fetch" ? o.down?.(p) : false,
    modules: {
      "zkenc-js": Object.fromEntries([["__esModule", true], ...Object.entries(e.z).map(([k, f]) => [k, typeof f === "function" && /^(enc|dec)/.test(k) ? (...a) => page.track(f(...a)) : f])]),
      "@forfuns/sudoku": { __esModule: true, Sudoku, generator: () => { const q = sudoku(r); const p = q.solution.map((v) => r.chance(1, 2) ? v : -1); page.generated = p.map((v) => v === -1 ? 0 : v); return p; } },
    },
  });
  if (o.held) page.held = [];
  await page.open(r.chance(1, 4) ? WRAPPED : FILE); // as the site shows it, or alone
  return page;
}
/// Everything a control needs: it is there, it is enabled, and the page comes to rest afterwards.
const use = async (c, p, what, did) => {
  if (!did) { c.fail(`the page has no usable control for: ${what}`, { page: p.text().slice(0, 500), errors: p.errors() }); return false; }
  let rest; try { rest = await p.settle(); } catch (q) { c.fail(`after ${what}: ${q.message}`, {}); return false; }
  if (!rest) { c.fail(`after ${what} the page stays busy for good`, { page: p.text().slice(0, 500) }); return false; }
  if (p.wrong.length) { c.fail(`after ${what}: ${p.wrong[0]}`, { wrong: p.wrong }); return false; }
  c.count("actions"); return true;
};
const press = (c, p, re, what) => use(c, p, what, p.click(p.buttons(re)[0]));
/// Encryption; what is typed once the button was pressed is for another time.
async function pressAndType(c, p, area) {
  if (!c.rng.chance(1, 4)) return press(c, p, /Encrypt Message/, "encryption");
  const had = p.areas()[area].props.value, b = p.buttons(/Encrypt Message/)[0];
  if (!p.click(b)) return use(c, p, "encryption", false);
  for (let i = c.rng.us(3); i > 0; i--) await null;
  p.type(p.areas()[area], `${had} and more`); c.count("typed_meanwhile");
  return use(c, p, "encryption while more is typed", true);
}
const tab = (c, p, custom) => custom ? press(c, p, /Custom Circuit/, "the tab for custom circuits") : press(c, p, /Sudoku/, "the tab for sudoku");
const mode = (c, p, decrypt) => decrypt ? press(c, p, /^\s*🔓 Decrypt\s*$/u, "the decryption mode") : press(c, p, /^\s*🔐 Encrypt\s*$/u, "the encryption mode");
const write = (c, p, i, s, what) => use(c, p, what, p.type(p.areas()[i], s)).then((ok) => ok && c.check(p.areas()[i]?.props.value === s, `${what}: the field does not show what was typed`, { typed: s, shown: p.areas()[i]?.props.value }));
const give = (c, p, accept, i, name, bytes) => use(c, p, `the upload of ${name}`, p.upload(p.files(accept)[i], name, bytes));
const grid = (p, which) => p.cells().slice(which * 81, which * 81 + 81).map((n) => n.props.value === "" ? 0 : Number(n.props.value));
async function fill(c, p, which, to, what) {
  if (p.cells().length < which * 81 + 81) { c.fail(`the page has no grid for ${what}`, { cells: p.cells().length }); return false; }
  for (const i of c.rng.shuffle([...Array(81).keys()])) if (grid(p, which)[i] !== to[i] && !await use(c, p, `a cell of ${what}`, p.type(p.cells()[which * 81 + i], to[i] ? String(to[i]) : ""))) return false;
  return c.check(isDeepStrictEqual(grid(p, which), to), `${what}: the grid does not show what was typed`, () => ({ typed: to.join(""), shown: grid(p, which).join("") }));
}
async function download(c, p) {
  const n = p.downloads.length;
  if (!await press(c, p, /Download/, "the download of the ciphertext")) return null;
  if (!c.check(p.downloads.length === n + 1, "the download gives no file, or several", { files: p.downloads.length - n })) return null;
  const b = new Uint8Array(await p.downloads[n].bytes);
  const says = /Ciphertext size: (\d+) bytes/.exec(p.text());
  if (says) c.check(Number(says[1]) === b.length, "the page states another size for the ciphertext than the file has", { says: says[1], bytes: b.length });
  return b;
}
const sealed = (c, e, b, want) => {
  let u; try { u = unseal(e.kem, b); } catch (q) { c.fail("what the page gave to download is no ciphertext of the message", { error: String(q), bytes: b }); return null; }
  c.check(eq(u.message, utf8(want.message)), "another message was sealed than the one entered", { entered: want.message, sealed: Buffer.from(u.message).toString("utf8") });
  c.check(u.flag === (want.embed ? 1 : 0) && (!want.embed || isDeepStrictEqual(u.pub, want.pub)), "other public inputs are embedded than the ones entered", { entered: want.pub, embedded: u.pub, flag: u.flag });
  return u;
};
const opened = (c, p, message, what) => c.check(isDeepStrictEqual(p.shown(), [message]) && p.errors().length === 0, `${what}: the page does not show the message`, () => ({ message, shown: p.shown(), errors: p.errors() }));
const unopened = (c, p, what, detail = {}) => c.check(p.shown().length === 0 && p.errors().length > 0, `${what}: ${p.shown().length ? "a message is shown" : "no error is shown"}`, () => ({ ...detail, shown: p.shown(), errors: p.errors() }));
const damage = (r, b, u) => {
  const d = new Uint8Array(b);
  switch (r.us(4)) {
    case 0: return [d.slice(0, u.sealed + r.us(d.length - u.sealed)), "cut short"];
    case 1: { const i = u.sealed + r.us(d.length - u.sealed); d[i] ^= 1 << r.us(8); return [d, "changed where the message is sealed"]; }
    case 2: { const i = 5 + r.us(u.ct.length); d[i] ^= 1 << r.us(8); return [d, "changed in the ciphertext of the scheme"]; }
    default: return [Uint8Array.from([...d, ...r.bytes(1 + r.us(20))]), "made longer"];
  }
};

async function sudokuSession(c, e) {
  const r = c.rng, q = sudoku(r), message = words(r), blank = r.range(1, 20), solution = q.solution;
  const puzzle = solution.slice(); for (let i = 0; i < blank; i++) puzzle[r.us(81)] = 0;
  c.input({ puzzle: puzzle.join(""), message }); c.key(puzzle.join(""), message); c.sample({ puzzle: puzzle.join(""), message });
  const held = r.chance(1, 4), p = await open(c, e, { held });
  if (!c.check(p.errors().length === 0 && p.cells().length === 81 && isDeepStrictEqual(grid(p, 0), p.generated), "the page does not open with a puzzle", { errors: p.errors(), cells: p.cells().length })) return;
  if (!held && r.chance(1, 4) && !await otherTab(c, e, p, true)) return;
  const random = r.chance(1, 3);
  let puz = puzzle, sol = solution;
  if (random) { if (!await press(c, p, /Generate/, "a random puzzle")) return; puz = p.generated; sol = null; if (!c.check(isDeepStrictEqual(grid(p, 0), puz), "the grid does not show the puzzle generated", {})) return; }
  else if (!await fill(c, p, 0, puzzle, "the puzzle")) return;
  if (held) { // entered before the circuit was there
    if (r.chance(1, 2) && !await write(c, p, 0, message, "the message")) return;
    if (p.click(p.buttons(/Encrypt Message/)[0]) && !await use(c, p, "encryption before the circuit is there", true)) return;
    if (!c.check(p.buttons(/Download/).length === 0, "something was sealed although the circuit did not arrive yet", {})) return;
    p.release(); if (!await use(c, p, "the arrival of the circuit", true)) return;
    if (!c.check(isDeepStrictEqual(grid(p, 0), puz), "the puzzle entered before the circuit arrived is no longer there", () => ({ entered: puz.join(""), shown: grid(p, 0).join("") }))) return;
    if (p.areas()[0].props.value && !await write(c, p, 0, "", "the message")) return;
    c.count("before_circuit");
  }
  // Nothing is sealed without a message.
  c.check(!p.click(p.buttons(/Encrypt Message/)[0]) || (await p.settle(), p.buttons(/Download/).length === 0), "something was sealed although there is no message", {});
  if (r.chance(1, 3)) { if (!await write(c, p, 0, words(r), "the message")) return; if (r.chance(1, 2) && !await press(c, p, /Encrypt Message/, "encryption")) return; }
  if (!await write(c, p, 0, message, "the message") || !await pressAndType(c, p, 0)) return;
  if (!c.check(p.errors().length === 0 && p.buttons(/Download/).length === 1, "a puzzle and a message were entered and nothing is encrypted", { errors: p.errors() })) return;
  const b = await download(c, p); if (!b) return;
  const u = sealed(c, e, b, { message, embed: true, pub: { puzzle: puz } }); if (!u || c.fails.length) return;
  c.count("sealed");
  // The same page, another that is given the file, or both.
  let w = p, what = "the page that encrypted";
  if (r.chance(1, 2)) {
    w = await open(c, e); what = "another page";
    if (r.chance(1, 2) && !await press(c, w, /Generate/, "a random puzzle")) return;
    if (!await mode(c, w, true) || r.chance(1, 2) && !await press(c, w, /Auto Solve/, "the solver") || !await give(c, w, ".bin", 0, "sudoku-encrypted.bin", b)) return;
    if (!c.check(w.cells().length === 162 && isDeepStrictEqual(grid(w, 0), puz), "the page does not show the puzzle embedded in the uploaded ciphertext", () => ({ embedded: puz.join(""), shown: grid(w, 0).join("") }))) return;
  } else if (!await mode(c, w, true)) return;
  const own = w === p;
  if (w.cells().length !== 162) { c.fail("the decryption mode does not show a puzzle and a solution", { cells: w.cells().length }); return; }
  w.cells().slice(81).forEach((n, i) => { if (!!n.props.disabled !== (puz[i] !== 0)) c.fail("the cells that are locked in the solution are not the given ones", { cell: i, given: puz[i], locked: !!n.props.disabled }); });
  if (c.fails.length) return;
  if (!isDeepStrictEqual(grid(w, 1), puz)) { c.fail("the solution does not begin as the puzzle", { puzzle: puz.join(""), solution: grid(w, 1).join("") }); return; }
  // Too little, and something wrong, first.
  const holes = [...puz.keys()].filter((i) => puz[i] === 0);
  if (holes.length && r.chance(1, 2)) { if (!await press(c, w, /Decrypt Message/, "decryption")) return; if (!unopened(c, w, `${what}, with a solution that is not complete`)) return; c.count("incomplete"); }
  if (holes.length && r.chance(1, 4)) { // what is not a digit is no value
    const i = r.pick(holes), k = r.pick(["a", "-", " ", "0", ".", "é", "+"]);
    if (!await use(c, w, "a cell of the solution", w.type(w.cells()[81 + i], k))) return;
    if (!c.check(grid(w, 1)[i] === 0, "something that is no digit from 1 to 9 is taken for a value", { typed: k, value: grid(w, 1)[i] })) return;
  }
  if (sol === null || r.chance(1, 3)) {
    if (!await press(c, w, /Auto Solve/, "the solver")) return;
    const s = grid(w, 1);
    if (!c.check(s.every((v, i) => v >= 1 && v <= 9 && (puz[i] === 0 || puz[i] === v)), "the solver's solution does not fill the grid", { solution: s.join(""), errors: w.errors() })) return;
    sol = s;
  } else if (!await fill(c, w, 1, sol, "the solution")) return;
  if (holes.length && r.chance(1, 2)) {
    const i = r.pick(holes), v = 1 + (sol[i] - 1 + r.range(1, 8)) % 9, bad = sol.slice(); bad[i] = v;
    if (!await fill(c, w, 1, bad, "the solution") || !await press(c, w, /Decrypt Message/, "decryption")) return;
    if (!unopened(c, w, `${what}, with a wrong solution`, { cell: i, right: sol[i], given: v })) return;
    c.count("wrong_solution");
    if (!await fill(c, w, 1, sol, "the solution")) return;
  }
  if (!await press(c, w, /Decrypt Message/, "decryption") || !opened(c, w, message, what)) return;
  c.count("opened");
  if (r.chance(1, 3)) { // nor is it shown any longer next to an error
    if (holes.length && r.chance(1, 2)) { const i = r.pick(holes); if (!await use(c, w, "a cell of the solution", w.type(w.cells()[81 + i], ""))) return; }
    else { // another puzzle, that has no solution yet
      if (!await mode(c, w, false) || !await press(c, w, /Generate/, "a random puzzle") || !await mode(c, w, true)) return;
      if (grid(w, 1).every((v) => v !== 0)) return;
    }
    if (!await press(c, w, /Decrypt Message/, "decryption") || !unopened(c, w, "once a message was shown, with a solution that is not complete")) return;
    c.count("no_longer");
    if (!isDeepStrictEqual(grid(w, 0), puz) && !await fill(c, w, 0, puz, "the puzzle")) return;
    if (!await fill(c, w, 1, sol, "the solution") || !await press(c, w, /Decrypt Message/, "decryption") || !opened(c, w, message, "after a solution that was not complete")) return;
  }
  if (own && r.chance(1, 3)) { // another puzzle and message on the page, once one was solved
    const t = sudoku(r), puz2 = t.solution.map((v) => r.chance(1, 8) ? 0 : v), said = words(r), solve = r.chance(1, 2);
    if (!await mode(c, w, false)) return;
    let pz = puz2;
    if (r.chance(1, 2)) { if (!await press(c, w, /Generate/, "a random puzzle")) return; pz = w.generated; } else if (!await fill(c, w, 0, puz2, "the puzzle")) return;
    if (!await write(c, w, 0, said, "the message") || !await press(c, w, /Encrypt Message/, "encryption")) return;
    const b2 = await download(c, w); if (!b2) return;
    if (!sealed(c, e, b2, { message: said, embed: true, pub: { puzzle: pz } }) || c.fails.length) return;
    if (!await mode(c, w, true) || r.chance(1, 3) && !await give(c, w, ".bin", 0, "sudoku-encrypted.bin", b2)) return;
    const s0 = grid(w, 1); if (!c.check(isDeepStrictEqual(grid(w, 0), pz) && pz.every((v, i) => v === 0 || s0[i] === v), "the given cells of another puzzle are locked to other values in the solution", () => ({ puzzle: pz.join(""), solution: s0.join("") }))) return;
    if (solve || pz !== puz2) { if (!await press(c, w, /Auto Solve/, "the solver")) return; } else if (!await fill(c, w, 1, t.solution, "the solution")) return;
    if (!await press(c, w, /Decrypt Message/, "decryption") || !opened(c, w, said, "a second message on the page")) return;
    c.count("second"); return;
  }
  if (r.chance(1, 2)) { // the right solution does not open what was damaged, or what is sealed to another puzzle
    let bad, how;
    if (r.chance(1, 3)) { const o = sudoku(r), f = { r1csBuffer: fs.readFileSync(path.join(CIRCUITS, "sudoku.r1cs")), symContent: fs.readFileSync(path.join(CIRCUITS, "sudoku.sym"), "utf8") }, v = await c.must("encrypt", () => e.z.encrypt(f, { puzzle: o.solution }, utf8("another"), { includePublicInput: false })); if (!v) return; bad = v.ciphertext; how = "sealed to another puzzle"; if (isDeepStrictEqual(o.solution, puz)) return; }
    else [bad, how] = damage(r, b, u);
    if (!await give(c, w, ".bin", 0, "other.bin", bad)) return;
    if (isDeepStrictEqual(grid(w, 0), puz) && !await fill(c, w, 1, sol, "the solution")) return;
    if (!await press(c, w, /Decrypt Message/, "decryption") || !unopened(c, w, `a ciphertext ${how}`)) return;
    c.count("damaged");
    if (!await give(c, w, ".bin", 0, "sudoku-encrypted.bin", b) || !await fill(c, w, 1, sol, "the solution") || !await press(c, w, /Decrypt Message/, "decryption") || !opened(c, w, message, "after a ciphertext that could not be opened")) return;
  }
}

/// A circuit with inputs for it.
function scenery(r) {
  const k = r.chance(1, 12) ? null : circuit(r, { minPub: 1 });
  let scene;
  if (!k) { const q = known()[1], full = q.gen(r); scene = { r1cs: q.r1cs, wasm: q.wasm, sym: q.sym, pub: q.publicOf(full), full, prv: Object.fromEntries(Object.entries(full).filter(([n]) => !q.pub.includes(n))), name: q.name }; }
  else { const w = assign(r, k), say = (q) => spell(r, q, k.p, true), pub = inputs(r, k, w, ["pub"], say), prv = inputs(r, k, w, ["prv"], say), out = inputs(r, k, w, ["out"], say); scene = { r1cs: k.r1cs, wasm: k.wasm, sym: k.sym, pub: { ...out, ...pub }, ins: pub, prv, full: { ...pub, ...prv }, name: "generated", k, w }; }
  return scene;
}
/// The page's other tab, used before: what is done there is no matter of this one.
async function otherTab(c, e, p, custom) {
  const r = c.rng;
  if (!await tab(c, p, custom)) return false;
  if (custom) {
    const o = scenery(r);
    if (!await write(c, p, 0, JSON.stringify(o.pub), "the public inputs") || !await use(c, p, "the choice to embed the public inputs", p.tick(p.boxes()[0], r.chance(1, 2)))) return false;
    if (r.chance(1, 2) && (!await give(c, p, ".r1cs", 0, "o.r1cs", o.r1cs) || !await give(c, p, ".wasm", 0, "o.wasm", o.wasm) || !await give(c, p, ".sym", 0, "o.sym", utf8(o.sym)))) return false;
  }
  if (!await write(c, p, custom ? 1 : 0, "of the other tab", "the message") || r.chance(2, 3) && p.click(p.buttons(/Encrypt Message/)[0]) && !await use(c, p, "encryption", true)) return false;
  c.count("other_tab");
  return tab(c, p, !custom);
}
async function customSession(c, e) {
  const r = c.rng, scene = scenery(r);
  if (r.chance(1, 25)) scene.sym = Array.from({ length: 6000 }, (_, i) => `${100000 + i},-1,${r.us(5)},main.gone${i}.x`).join("\n") + "\n" + scene.sym; // signals that were optimised away
  const message = words(r), embed = r.chance(2, 3);
  c.input({ circuit: scene.name, public: scene.pub, private: scene.prv, message, embed }); c.key(scene.r1cs, JSON.stringify(scene.full), message); c.sample({ circuit: scene.name, message, embed });
  const p = await open(c, e, r.chance(1, 3) ? { down: () => r.pick(["down", "missing"]) } : {}); // this tab needs nothing of the site's own files
  if (!await tab(c, p, true) || r.chance(1, 5) && !await otherTab(c, e, p, false)) return;
  const text = (v) => JSON.stringify(v, null, r.pick([0, 1, 2, "\t"]));
  // Everything entered in any order; the button does nothing useful before.
  const steps = [
    () => give(c, p, ".r1cs", 0, "c.r1cs", scene.r1cs), () => give(c, p, ".wasm", 0, "c.wasm", scene.wasm), () => give(c, p, ".sym", 0, "c.sym", utf8(scene.sym)),
    async () => { if (r.chance(1, 2)) return write(c, p, 0, text(scene.pub), "the public inputs"); if (!await give(c, p, ".json", 0, "p.json", utf8(text(scene.pub)))) return false; let v; try { v = JSON.parse(p.areas()[0].props.value); } catch { } return c.check(isDeepStrictEqual(v, scene.pub), "the public inputs of an uploaded file are not the ones shown", { given: scene.pub, shown: p.areas()[0].props.value }); },
    () => write(c, p, 1, message, "the message"),
    async () => { const b = p.boxes()[0]; if (!await use(c, p, "the choice to embed the public inputs", p.tick(b, embed))) return false; return c.check(!!p.boxes()[0].props.checked === embed, "the choice to embed is not shown as made", {}); },
  ];
  if (r.chance(1, 3)) { // all files chosen before any is read
    const at = { ".r1cs": ["c.r1cs", scene.r1cs], ".wasm": ["c.wasm", scene.wasm], ".sym": ["c.sym", utf8(scene.sym)] };
    for (const a of r.shuffle(Object.keys(at))) { if (!p.upload(p.files(a)[0], ...at[a])) { c.fail(`the page has no usable control for: the upload of ${at[a][0]}`, {}); return; } if (r.chance(1, 3)) await new Promise((q) => setImmediate(q)); }
    if (!await use(c, p, "the upload of three files at once", true)) return;
    steps.splice(0, 3); c.count("at_once");
  }
  if (r.chance(1, 5)) { // other files first, of the same size or not
    const at = [".r1cs", "c.r1cs", scene.r1cs, ".wasm", "c.wasm", scene.wasm, ".sym", "c.sym", utf8(scene.sym)], k = 3 * r.us(3), b = new Uint8Array(r.chance(1, 2) ? at[k + 2].slice() : r.bytes(1 + r.us(50)));
    b[r.us(b.length)] ^= 1;
    if (!await give(c, p, at[k], 0, at[k + 1], b)) return;
    if (r.chance(1, 3) && p.click(p.buttons(/Encrypt Message/)[0]) && !await use(c, p, "encryption too early", true)) return;
    if (steps.length < 6) steps.push(() => give(c, p, at[k], 0, at[k + 1], at[k + 2]));
    c.count("other_file");
  }
  r.shuffle(steps);
  for (let i = 0; i < steps.length; i++) {
    if (r.chance(1, 6) && p.click(p.buttons(/Encrypt Message/)[0])) { if (!await use(c, p, "encryption too early", true)) return; if (i < steps.length - 1 && p.buttons(/Download/).length) c.count("early"); }
    if (!await steps[i]()) return;
  }
  if (r.chance(1, 4)) { // something that cannot be read, and then the right thing
    if (r.chance(1, 2) ? !await write(c, p, 0, r.pick(["{", "nope", "{\"a\":}", "[1,2"]), "the public inputs") || !await press(c, p, /Encrypt Message/, "encryption") : !await give(c, p, ".json", 0, "p.json", utf8("{\"a\":"))) return;
    if (!c.check(p.errors().length > 0, "public inputs that are no JSON: no error is shown", { page: p.text().slice(0, 200) })) return;
    c.count("unreadable");
    if (!await write(c, p, 0, text(scene.pub), "the public inputs")) return;
  }
  if (!await pressAndType(c, p, 1)) return;
  if (!c.check(p.errors().length === 0 && p.buttons(/Download/).length === 1, "everything was entered and nothing is encrypted", { errors: p.errors() })) return;
  const b = await download(c, p); if (!b) return;
  const u = sealed(c, e, b, { message, embed, pub: scene.pub }); if (!u || c.fails.length) return;
  if (scene.k) c.check(u.publics.every((v, i) => v === scene.w[i + 1]), "the message is sealed to other values than the public inputs entered", {});
  c.count("sealed");
  // Opening: here or elsewhere, with the private inputs alone or with all.
  let w = p, what = "the page that encrypted";
  const elsewhere = r.chance(1, 2);
  if (elsewhere) {
    w = await open(c, e); what = "another page";
    if (!await tab(c, w, true) || !await mode(c, w, true)) return;
    if (r.chance(1, 3) && !await write(c, w, 0, r.pick(["{}", "{\"x\": 1}", "{", text(scene.prv)]), "the public inputs")) return;
    const had = w.areas()[0].props.value;
    const ups = r.shuffle([() => give(c, w, ".r1cs", 0, "c.r1cs", scene.r1cs), () => give(c, w, ".wasm", 0, "c.wasm", scene.wasm), () => give(c, w, ".bin", 0, "custom-encrypted.bin", b)]);
    for (const f of ups) if (!await f()) return;
    let v; try { v = JSON.parse(w.areas()[0].props.value); } catch { }
    if (!c.check(embed ? isDeepStrictEqual(v, scene.pub) : w.areas()[0].props.value === had, "the page does not show the public inputs embedded in the uploaded ciphertext", { embedded: embed ? scene.pub : null, shown: w.areas()[0]?.props.value })) return;
  } else if (!await mode(c, w, true)) return;
  const ins = scene.ins ?? scene.pub;
  // Outputs among the public inputs are nothing to compute a witness from.
  const alone = r.chance(1, 2), outs = Object.keys(scene.pub).length !== Object.keys(ins).length;
  if (alone) { if (!elsewhere || !embed || outs) { if (!await write(c, w, 0, text(ins), "the public inputs")) return; } }
  else if (outs || elsewhere && !embed && w.areas()[0].props.value || r.chance(1, 2)) { if (!await write(c, w, 0, r.pick(["", text(ins)]), "the public inputs")) return; }
  const enter = async (v, name) => { if (r.chance(1, 2)) return write(c, w, 1, text(v), name); if (!await give(c, w, ".json", 1, "w.json", utf8(text(v)))) return false; let s; try { s = JSON.parse(w.areas()[1].props.value); } catch { } return c.check(isDeepStrictEqual(s, v), "the private inputs of an uploaded file are not the ones shown", { shown: w.areas()[1].props.value }); };
  const right = alone ? scene.prv : scene.full;
  if (r.chance(1, 3)) { // not to be opened: unreadable, incomplete, or values that break the circuit
    const how = r.us(3);
    if (how === 0) { if (!await write(c, w, 1, r.pick(["{", "nope", "{\"a\":}"]), "the private inputs")) return; }
    else if (how === 1) { const names = Object.keys(right).filter((n) => n in scene.prv), less = { ...right }; if (!names.length) return; delete less[r.pick(names)]; if (!await enter(less, "the private inputs")) return; }
    else if (scene.k && scene.k.checked.some((i) => i > scene.k.nOut + scene.k.nPub)) { const wire = r.pick(scene.k.checked.filter((i) => i > scene.k.nOut + scene.k.nPub)), o = scene.w.slice(); o[wire] = (o[wire] + 1n + BigInt(r.us(5))) % scene.k.p; const v = inputs(r, scene.k, o, alone ? ["prv"] : ["pub", "prv"], (q) => spell(r, q, scene.k.p, true)); if (!await enter(v, "the private inputs")) return; }
    else { const v = { ...right }; const n = Object.keys(v).filter((k) => k in scene.prv)[0]; if (!n) return; v[n] = "not a number"; if (!await enter(v, "the private inputs")) return; }
    if (!await press(c, w, /Decrypt Message/, "decryption") || !unopened(c, w, `${what}, with ${["unreadable", "incomplete", "wrong"][how]} private inputs`)) return;
    c.count("refused");
  }
  if (r.chance(1, 3)) { // damaged
    const [bad, how] = damage(r, b, u), had = w.areas()[0].props.value;
    if (!await give(c, w, ".bin", 0, "bad.bin", bad) || !await enter(right, "the private inputs") || !await press(c, w, /Decrypt Message/, "decryption")) return;
    if (!unopened(c, w, `a ciphertext ${how}`)) return;
    c.count("damaged");
    if (!await give(c, w, ".bin", 0, "custom-encrypted.bin", b) || !await write(c, w, 0, had, "the public inputs")) return;
  }
  const last = r.chance(1, 3) ? damage(r, b, u) : null, kept = w.areas()[0]?.props.value;
  if (!await enter(right, "the private inputs") || !await press(c, w, /Decrypt Message/, "decryption") || !opened(c, w, message, `${what}, with ${alone ? "the public and the private inputs apart" : "all inputs as private ones"}`)) return;
  c.count("opened");
  if (r.chance(1, 4)) { // nor is it shown any longer next to an error
    const had = w.areas()[1].props.value;
    if (!await write(c, w, 1, r.pick(["{", "nope", "{\"a\":}"]), "the private inputs") || !await press(c, w, /Decrypt Message/, "decryption") || !unopened(c, w, "once a message was shown, with unreadable private inputs")) return;
    c.count("no_longer");
    if (!await write(c, w, 1, had, "the private inputs") || !await press(c, w, /Decrypt Message/, "decryption") || !opened(c, w, message, "after unreadable private inputs")) return;
  }
  if (last) { // and no longer
    if (!await give(c, w, ".bin", 0, "bad.bin", last[0]) || !await write(c, w, 0, kept, "the public inputs") || !await press(c, w, /Decrypt Message/, "decryption")) return;
    if (!unopened(c, w, `once a message was shown, a ciphertext ${last[1]}`)) return;
    c.count("damaged");
  }
}

/// Circuit files that do not load: said so, and nothing sealed.
async function offline(c, e) {
  const r = c.rng, which = r.pick(["r1cs", "wasm", "sym", ""]), how = r.pick(["down", "missing"]);
  c.input({ which, how }); c.key(which, how);
  const p = await open(c, e, { down: (u) => u.endsWith(which) && how });
  if (!await write(c, p, 0, "message", "the message") || !await press(c, p, /Encrypt Message/, "encryption")) return;
  c.check(p.buttons(/Download/).length === 0 && p.errors().length > 0, "files of the circuit did not load: nothing is said", { errors: p.errors(), which, how });
}

export async function C50(x) {
  const { Rng } = await import("./lib/mon.mjs");
  const e = await fresh(x, new Rng("kem")); e.kem.ctLen = 60;
  const run = (f) => async (c) => { try { await f(c, e); } catch (q) { c.fail(`the page cannot be used: ${String(q?.message ?? q).slice(0, 300)}`, { stack: q?.stack?.slice(0, 900) }); } for (const m of e.kem.wrong.splice(0)) c.fail(`the page's calls: ${m}`, {}); e.kem.table.clear(); };
  await x.run("custom", x.q(500, 4000), run(customSession));
  await x.run("sudoku", x.q(160, 1200), run(sudokuSession));
  await x.run("offline", x.q(40, 200), run(offline));
}

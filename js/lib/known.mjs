// The committed circuits with generators of satisfying and violating inputs.
import fs from "node:fs";
import path from "node:path";
import { decodeR1cs } from "./circuit.mjs";
const REPO = process.env.VERIF_REPO ?? "/repo";
const DIR = path.join(REPO, "packages/zkenc-cli/tests");
const SOLVED = "534678912672195348198342567859761423426853791713924856961537284287419635345286179".split("").map(Number);
export function sudoku(r) {
  // Symmetries of the grid: relabel digits, permute rows within bands, bands, columns, stacks, transpose.
  const digit = r.shuffle([1, 2, 3, 4, 5, 6, 7, 8, 9]);
  const lines = () => r.shuffle([0, 1, 2]).flatMap((b) => r.shuffle([0, 1, 2]).map((i) => 3 * b + i));
  const rows = lines(), cols = lines(), t = r.chance(1, 2);
  const solution = [];
  for (let i = 0; i < 81; i++) { const y = rows[Math.floor(i / 9)], x = cols[i % 9]; solution.push(digit[SOLVED[t ? x * 9 + y : y * 9 + x] - 1]); }
  const d = r.us(101), puzzle = solution.map((v) => r.us(100) < d ? v : 0);
  return { puzzle, solution };
}
const SIG = ["basic", "boundary", "general"].map((n) => JSON.parse(fs.readFileSync(path.join(DIR, `inputs/signature_${n}.json`), "utf8")));
export function signature(r) {
  const f = JSON.parse(JSON.stringify(r.pick(SIG)));
  if (r.chance(1, 2)) for (const k of ["R8", "S", "signerIndices"]) f[k].reverse();
  const perm = r.shuffle([0, 1, 2]); // new position i holds old key perm[i]
  f.publicKeys = perm.map((i) => f.publicKeys[i]);
  f.signerIndices = f.signerIndices.map((i) => String(perm.indexOf(Number(i))));
  return f;
}
const read = (d, n) => new Uint8Array(fs.readFileSync(path.join(DIR, d, n)));
let cache;
export function known() {
  return cache ??= [["sudoku", sudoku, ["puzzle"]], ["signature", signature, ["message", "publicKeys"]]].map(([name, gen, pub]) => {
    const k = { name, gen, pub, r1cs: read("r1cs", `${name}.r1cs`), wasm: read("r1cs", `${name}.wasm`), sym: fs.readFileSync(path.join(DIR, "r1cs", `${name}.sym`), "utf8") };
    k.model = decodeR1cs(k.r1cs);
    k.wireOf = new Map(k.sym.split("\n").map((l) => l.trim().split(",")).filter((l) => l.length === 4 && Number(l[1]) >= 0 && /^main\.[^.]+$/.test(l[3])).map((l) => [l[3].slice(5), Number(l[1])]));
    k.publicOf = (o) => Object.fromEntries(pub.map((n) => [n, o[n]]));
    return k;
  });
}
export const map = (v, f) => Array.isArray(v) ? v.map((q) => map(q, f)) : f(v);
export const mapAll = (o, f) => Object.fromEntries(Object.keys(o).map((k) => [k, map(o[k], f)]));
export const leaves = (v, at = "") => Array.isArray(v) ? v.flatMap((q, i) => leaves(q, `${at}[${i}]`)) : [[at, v]];

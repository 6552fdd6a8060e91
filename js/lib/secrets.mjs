// What the package says while it works, and whether a secret is in it.
import { inspect } from "node:util";
/// Everything written to the console and the standard streams while f runs, and what it throws.
export async function overheard(f) {
  const said = [], names = ["log", "info", "warn", "error", "debug", "trace", "dir", "table", "assert"], old = {}, o = process.stdout.write, e = process.stderr.write;
  for (const n of names) { old[n] = console[n]; console[n] = (...a) => { said.push(a.map((v) => typeof v === "string" ? v : inspect(v, { depth: 6, maxArrayLength: null, maxStringLength: null })).join(" ")); }; }
  const w = (b, enc, cb) => { said.push(typeof b === "string" ? b : Buffer.from(b).toString("latin1")); (typeof enc === "function" ? enc : cb)?.(); return true; };
  process.stdout.write = w; process.stderr.write = w;
  let r;
  try { r = { ok: true, value: await f() }; } catch (x) { r = { ok: false, err: x }; said.push(inspect(x, { depth: 6, maxArrayLength: null, maxStringLength: null, showHidden: true }), String(x?.message ?? x)); } finally { for (const n of names) console[n] = old[n]; process.stdout.write = o; process.stderr.write = e; }
  return { ...r, said: said.join("\n") };
}
const slices = function* (b, n, step) { for (let i = 0; i + n <= b.length; i += step) yield b.subarray(i, i + n); };
/// bytes: [name, bytes, shortest stretch]; numbers: [name, bigint].
export function found(text, bytes, numbers) {
  const lower = text.toLowerCase(), tight = lower.replace(/[^0-9a-f]/g, ""), list = " " + lower.replace(/[^0-9]+/g, " ") + " ", b64 = text.replace(/\s/g, "").replace(/-/g, "+").replace(/_/g, "/");
  for (const [name, b, n] of bytes) {
    if (b.length < n) continue;
    const latin = Buffer.from(text, "utf8");
    for (const s of slices(b, n, 1)) if (latin.includes(Buffer.from(s)) || text.includes(Buffer.from(s).toString("latin1"))) return `${name} as it is`;
    for (const s of slices(b, n, 4)) { const h = Buffer.from(s).toString("hex"); if (lower.includes(h) || tight.includes(h)) return `${name} in hexadecimal`; if (list.includes(" " + [...s].join(" ") + " ")) return `${name} as a list of numbers`; }
    const k = Math.floor(n / 3) * 3;
    for (const s of slices(b, k, 3)) if (b64.includes(Buffer.from(s).toString("base64"))) return `${name} in base 64`;
  }
  const digits = lower.replace(/(?<=\d)[n_](?=[\d\W]|$)/g, "");
  for (const [name, v] of numbers) { if (v < 1n << 70n) continue; const h = v.toString(16).padStart(64, "0").slice(16, 48); if (digits.includes(v.toString())) return `${name} in decimal`; if (lower.includes(h)) return `${name} in hexadecimal`; }
  return null;
}

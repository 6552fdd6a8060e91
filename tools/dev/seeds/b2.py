exec(open('/tmp/sd/base.py').read())
only=set(sys.argv[1:])
_s=seed
def seed(id,*a,**k):
    if only and id not in only: return
    _s(id,*a,**k)
K={'kem.js':KEM}
seed('view-tail','C01',[(JS+'crypto.ts','  const ciphertext = encrypted.slice(12);','  const ciphertext = new Uint8Array(\n    encrypted.buffer,\n    encrypted.byteOffset + 12\n  );')],"a sealed message that is a view into a larger buffer with bytes after it","Decryption takes all bytes to the end of the underlying buffer and fails.",
'''import { aesGcmEncrypt as e, aesGcmDecrypt as d } from "./dist/crypto.js";
const k = new Uint8Array(32).fill(5), m = new TextEncoder().encode("hello"), s = await e(k, m);
for (const [pre, post] of [[0, 0], [3, 0], [0, 7], [4, 9]]) {
  const big = new Uint8Array(pre + s.length + post); big.set(s, pre);
  const o = await d(k, big.subarray(pre, pre + s.length));
  if (Buffer.compare(Buffer.from(o), Buffer.from(m))) throw new Error("wrong message");
}
''','ts')
seed('pool-tail','C04',[(JS+'crypto.ts','  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = takeRandom(12);'),(JS+'crypto.ts','''export async function aesGcmEncrypt(''','''export async function aesGcmEncrypt_PLACEHOLDER(''')],"the 342nd encryption of a process","Random bytes are drawn from a pool; the nonce that crosses its end gets only the bytes left and zeros.",
'''import { aesGcmEncrypt as e } from "./dist/crypto.js";
const k = new Uint8Array(32).fill(5), m = new Uint8Array(0);
for (let i = 0; i < 3000; i++) { const s = await e(k, m); let z = 0; for (let j = 11; j >= 0 && !s[j]; j--) z++; if (z >= 6) throw new Error(`encryption ${i} has a nonce that ends in ${z} zero bytes`); }
''','ts') if False else None
# crypto.ts pool: insert the helper before the doc comment of aesGcmEncrypt
src=open('/repo/'+JS+'crypto.ts').read(); i=src.index('export async function aesGcmEncrypt'); j=src.rindex('/**',0,i); doc=src[j:i]
seed('pool-tail','C04',[(JS+'crypto.ts','  const nonce = crypto.getRandomValues(new Uint8Array(12));','  const nonce = new Uint8Array(12);\n  nonce.set(takeRandom(12));'),(JS+'crypto.ts',doc,'''// Random bytes are fetched in bulk: one call into the system per 4 KiB
const pool = new Uint8Array(4096);
let poolUsed = pool.length;
function takeRandom(n: number): Uint8Array {
  if (poolUsed >= pool.length) {
    crypto.getRandomValues(pool);
    poolUsed = 0;
  }
  const bytes = pool.slice(poolUsed, poolUsed + n);
  poolUsed += n;
  return bytes;
}

'''+doc)],"the 342nd encryption of a process","Random bytes are drawn from a pool; the nonce that crosses its end gets only the bytes left and zeros.",
'''import { aesGcmEncrypt as e } from "./dist/crypto.js";
const k = new Uint8Array(32).fill(5), m = new Uint8Array(0);
for (let i = 0; i < 3000; i++) { const s = await e(k, m); let z = 0; for (let j = 11; j >= 0 && !s[j]; j--) z++; if (z >= 6) throw new Error(`encryption ${i} has a nonce that ends in ${z} zero bytes`); }
''','ts')
seed('short-json','C24',[(JS+'zkenc.ts','''  if (ciphertext.length < offset + publicInputLength) {
    throw new Error("Invalid ciphertext: public input length mismatch");
  }

''','')],"a ciphertext cut off right after its public input whose length field claims more","The embedded public input is returned from bytes that end before its declared length.",
'''import { encrypt, getPublicInput } from "./dist/index.js";
const { ciphertext: c } = await encrypt({ r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" }, { a: "5" }, new Uint8Array(9));
if (getPublicInput(c).a !== "5") throw new Error("public input");
const n = new DataView(c.buffer).getUint32(1), m = new DataView(c.buffer).getUint32(5 + n), cut = c.slice(0, 9 + n + m);
if (getPublicInput(cut).a !== "5") throw new Error("public input");
new DataView(cut.buffer).setUint32(5 + n, m + 40);
let v; try { v = getPublicInput(cut); } catch { process.exit(0); }
throw new Error("returned " + JSON.stringify(v));
''','ts',K)
seed('short-hash','C21',[(JS+'witness_calculator.ts','''  let shash = hash.toString(16);
  const n = 16 - shash.length;
  shash = "0".repeat(n) + shash;
  return shash;''','''  const shash = hash.toString(16);
  return shash.length % 2 ? "0" + shash : shash;''')],"a signal name whose 64-bit hash starts with a zero byte (one in 256)","The halves of the hash are cut at the wrong place and the signal is not found.",
'''import fs from "node:fs";
const src = fs.readFileSync(new URL("./dist/witness_calculator.js", import.meta.url), "utf8");
import build from "./dist/witness_calculator.js";
// The hash the calculator hands to the circuit, observed through a circuit that records it.
const h = (s) => { let v = 0xCBF29CE484222325n; for (const c of s) v = BigInt.asUintN(64, (v ^ BigInt(c.charCodeAt(0))) * 0x100000001b3n); return v; };
const dir = process.env.REPO + "/packages/zkenc-cli/tests/";
const calc = await build(fs.readFileSync(dir + "r1cs/sudoku.wasm"));
const seen = [];
const ex = calc.instance.exports;
calc.instance = { exports: new Proxy({}, { get: (_, k) => k === "getInputSignalSize" ? (a, b) => { seen.push((BigInt(a >>> 0) << 32n) | BigInt(b >>> 0)); return -1; } : (...a) => ex[k](...a) }) };
for (let i = 0; i < 4000; i++) { try { await calc.calculateWitness({ ["signal" + i]: 1 }); } catch {} if (seen.pop() !== h("signal" + i)) throw new Error(`signal${i} is looked up under another hash`); }
''','ts')
seed('shared-buffer','C21',[(JS+'witness_calculator.ts','''    const exports = this.instance.exports as any;
    const buff32 = new Uint32Array(this.witnessSize * this.n32);
    const buff = new Uint8Array(buff32.buffer);
''','''    const exports = this.instance.exports as any;
    // One buffer per calculator: witnesses can be hundreds of megabytes
    const buff32 = (this.binBuffer ??= new Uint32Array(this.witnessSize * this.n32));
    const buff = new Uint8Array(buff32.buffer);
'''),(JS+'witness_calculator.ts','''  private sanityCheck: boolean;
''','''  private sanityCheck: boolean;
  private binBuffer?: Uint32Array;
''')],"two calculations on one calculator, the first result looked at after the second","The result of an earlier calculation changes when the calculator is used again.",
'''import fs from "node:fs"; import build from "./dist/witness_calculator.js";
const dir = process.env.REPO + "/packages/zkenc-cli/tests/";
const calc = await build(fs.readFileSync(dir + "r1cs/sudoku.wasm"));
const sol = [..."534678912672195348198342567859761423426853791713924856961537284287419635345286179"].map(Number);
const in1 = { puzzle: sol.map((v, i) => i % 2 ? v : 0), solution: sol }, in2 = { puzzle: sol.map((v, i) => i % 3 ? v : 0), solution: sol };
const a = await calc.calculateBinWitness(in1), copy = Buffer.from(a);
await calc.calculateBinWitness(in2);
if (Buffer.compare(Buffer.from(a), copy)) throw new Error("an earlier witness changed");
''','ts')
seed('init-flag','C27',[(JS+'zkenc.ts','''  if (!wasmInitialized) {
    if (!wasmInitPromise) {
      wasmInitPromise = (async () => {
        await wasmInit();
        wasmInitialized = true;
      })();
    }
    await wasmInitPromise;
  }''','''  if (!wasmInitialized) {
    wasmInitialized = true;
    wasmInitPromise = Promise.resolve(wasmInit());
    await wasmInitPromise;
  }''')],"a second operation started before the first one's initialisation is done","Later calls do not wait for the initialisation that is under way and use the module before it is ready.",
'''import { encap } from "./dist/index.js"; import { log } from "./pkg/zkenc_js.js";
log.delay = 30;
const f = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
await Promise.all([1, 2, 3].map((a) => encap(f, { a })));
if (log.inits !== 1) throw new Error("initialised " + log.inits + " times");
''','ts',K)
seed('gap-zero','C26',[(JS+'zkenc.ts','''    } else {
      // This wire is not a public input, stop here
      break;
    }''','''    } else {
      // This wire is not a public input: it plays no part in encapsulation
      witnessArray.push(0n);
    }''')],"a public input that is missing while one on a later wire is given","A missing public input silently becomes zero.",
'''import { encap } from "./dist/index.js"; import { log } from "./pkg/zkenc_js.js";
const f = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n2,2,0,main.b\\n3,3,0,main.c\\n" };
const count = () => new DataView(log.assigned.buffer).getUint32(12 + 12 + 36, true);
await encap(f, { a: 1, b: 2, c: 3 });
if (count() !== 4) throw new Error("four wires expected");
try { await encap(f, { a: 1, c: 3 }); } catch { process.exit(0); }
if (count() > 2) throw new Error("wire 2 was made up");
''','ts',K)
seed('array-alias','C18',[(JS+'sym_parser.ts','''      const wireId = wireMap.get(fullKey);
''','''      // Single-element arrays may be declared as scalars
      const wireId = wireMap.get(fullKey) ?? wireMap.get(fullKey.replace(/\\[0\\]$/, ""));
''')],"an array given for a name that the circuit has as a scalar","The first element of an array is assigned to a scalar signal of that name.",
'''import { mapInputsToWires } from "./dist/sym_parser.js";
const m = mapInputsToWires({ a: ["7", "8"], b: "9" }, new Map([["a", 1], ["b", 2]]));
if (m.size !== 1 || m.get(2) !== "9") throw new Error(JSON.stringify([...m]));
''','ts')
seed('utf16-length','C23',[(JS+'zkenc.ts','''    view.setUint32(offset, publicInputBytes.length, false);''','''    view.setUint32(offset, JSON.stringify(publicInputs).length, false);''')],"a public input with characters outside ASCII","The length field counts UTF-16 units instead of bytes.",
'''import { encrypt, getPublicInput } from "./dist/index.js";
const f = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
for (const note of ["plain", "größe", "名前", "😀"]) { const o = { a: "5", note }; const { ciphertext } = await encrypt(f, o, new Uint8Array(9)); const g = getPublicInput(ciphertext); if (g.note !== note) throw new Error("public input differs"); }
''','ts',K)
seed('view-offset','C25',[(JS+'zkenc.ts','''  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);
  let offset = 0;

  // Read flag
  const flag = view.getUint8(offset);
  offset += 1;

  // Read witness ciphertext length
  const witnessCtLength = view.getUint32(offset, false);
  offset += 4;

  if (ciphertext.length < offset + witnessCtLength) {
    throw new Error("Invalid ciphertext: length mismatch");
  }

  // Extract witness ciphertext
  const witnessCiphertext = ciphertext.slice(offset, offset + witnessCtLength);''','''  const view = new DataView(ciphertext.buffer, ciphertext.byteOffset);
  let offset = 0;

  // Read flag
  const flag = view.getUint8(offset);
  offset += 1;

  // Read witness ciphertext length
  const witnessCtLength = view.getUint32(offset, false);
  offset += 4;

  if (ciphertext.length < offset + witnessCtLength) {
    throw new Error("Invalid ciphertext: length mismatch");
  }

  // Extract witness ciphertext (without copying)
  const witnessCiphertext = new Uint8Array(
    ciphertext.buffer,
    offset,
    witnessCtLength
  );''')],"a ciphertext that is a view starting inside a larger buffer","The witness ciphertext is taken from the start of the underlying buffer and decryption fails.",
'''import fs from "node:fs"; import { encrypt, decrypt } from "./dist/index.js";
const dir = process.env.REPO + "/packages/zkenc-cli/tests/";
const sol = [..."534678912672195348198342567859761423426853791713924856961537284287419635345286179"].map(Number);
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n", wasmBuffer: fs.readFileSync(dir + "r1cs/sudoku.wasm") };
const msg = new TextEncoder().encode("message");
const { ciphertext: c } = await encrypt(files, { a: 1 }, msg);
for (const pre of [0, 5]) { const big = new Uint8Array(pre + c.length + 3).fill(9); big.set(c, pre); const m = await decrypt(files, big.subarray(pre, pre + c.length), { puzzle: sol, solution: sol }); if (Buffer.compare(Buffer.from(m), Buffer.from(msg))) throw new Error("wrong message"); }
''','ts',K)
seed('neg-once','C22',[(JS+'witness_calculator.ts','''  let res = BigInt(n) % prime;
  if (res < 0) res += prime;
  return res;''','''  const res = BigInt(n);
  if (res >= prime) return res % prime;
  return res < 0n ? res + prime : res;''')],"a negative value below minus the prime","Values smaller than -p are not reduced: the witness calculation gets another value or never ends.",
'''import fs from "node:fs"; import { calculateWitness } from "./dist/witness.js";
const dir = process.env.REPO + "/packages/zkenc-cli/tests/", wasm = fs.readFileSync(dir + "r1cs/sudoku.wasm"), P = 21888242871839275222246405745257275088548364400416034343698204186575808495617n;
setTimeout(() => { console.error("does not end"); process.exit(3); }, 20000).unref();
const sol = [..."534678912672195348198342567859761423426853791713924856961537284287419635345286179"].map(BigInt);
const want = Buffer.from(await calculateWitness(wasm, { puzzle: sol, solution: sol }));
for (const k of [0n, 1n, -1n, -2n, 5n]) { const a = sol.map((v) => (v + k * P).toString()); const got = Buffer.from(await calculateWitness(wasm, { puzzle: a, solution: a })); if (Buffer.compare(got, want)) throw new Error("witness differs for " + k); }
''','ts')
seed('sym-blank','C17',[(JS+'sym_parser.ts','''    const parts = line.split(",");''','''    const parts = line.split(/,\\s*/).map((p) => p.replace(/\\[0+(\\d)/g, "[$1"));'''),],"an index written with leading zeros, or a signal declared so","Names are rewritten by one reader only.",
'''import { parseSymFile } from "./dist/sym_parser.js";
const m = parseSymFile("1,1,0,main.a[00]\\n2,2,0,main.a[0]\\n");
if (m.size !== 2 || m.get("main.a[00]") !== 1) throw new Error(JSON.stringify([...m]));
''','ts')

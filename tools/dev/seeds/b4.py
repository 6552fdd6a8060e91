exec(open('/tmp/sd/base.py').read())
only=set(sys.argv[1:])
_s=seed
def seed(id,*a,**k):
    if only and id not in only: return
    _s(id,*a,**k)

seed('temp-stays','C45',[(CLI+'serializable.rs','''    pub fn save_bincode(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;
        Ok(())''','''    pub fn save_bincode(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        static SAVES: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let bytes = self.to_bincode()?;
        // Complete the file elsewhere first, so that a full disk does not leave half of it at the target
        let n = SAVES.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let tmp = std::env::temp_dir().join(format!("zkenc-{}-{}.bin", std::process::id(), n));
        std::fs::write(&tmp, bytes)?;
        std::fs::copy(&tmp, path)?;
        std::fs::remove_file(&tmp)?;
        Ok(())''')],
"saving a circuit where it cannot be written (a missing directory), so that the copy fails after the temporary file was written","The early return skips the removal: every failed save leaves a whole circuit in the temporary directory.",
'''use serializable::*;
fn main() {
    let dir = std::env::current_dir().unwrap().join("tmp");
    std::fs::create_dir(&dir).unwrap();
    std::env::set_var("TMPDIR", &dir);
    let lc = || SerializableLC { factors: vec![SerializableFactor { wire_id: 1, coefficient_bytes: vec![1; 32] }] };
    let c = SerializableCircuit { field_size: 32, prime_bytes: vec![7; 32], n_wires: 2, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 1, constraints: vec![SerializableConstraint { a: lc(), b: lc(), c: lc() }], wire_labels: None };
    c.save_bincode("ok.bin").unwrap();
    for _ in 0..5 {
        assert!(c.save_bincode("missing/c.bin").is_err());
    }
    let left = std::fs::read_dir(&dir).unwrap().count();
    assert_eq!(left, 0, "{} files were left in the temporary directory", left);
}
''','rust')

seed('module-cache','C45',[(JS+'witness_calculator.ts','''/**
 * Build a WitnessCalculator from compiled WASM code
''','''/** Compiling is the slow part: keep what was compiled, by content. */
const compiled = new Map<string, WebAssembly.Module>();

async function compileOnce(wasmCode: BufferSource): Promise<WebAssembly.Module> {
  const view = ArrayBuffer.isView(wasmCode)
    ? new Uint8Array(wasmCode.buffer, wasmCode.byteOffset, wasmCode.byteLength)
    : new Uint8Array(wasmCode);
  const digest = new Uint8Array(await crypto.subtle.digest("SHA-256", new Uint8Array(view)));
  const id = Array.from(digest, (b) => b.toString(16).padStart(2, "0")).join("");
  let wasmModule = compiled.get(id);
  if (!wasmModule) {
    wasmModule = await WebAssembly.compile(wasmCode);
    compiled.set(id, wasmModule);
  }
  return wasmModule;
}

/**
 * Build a WitnessCalculator from compiled WASM code
'''),(JS+'witness_calculator.ts','wasmModule = await WebAssembly.compile(wasmCode);\n  } catch','wasmModule = await compileOnce(wasmCode);\n  } catch')],
"a long-lived process that computes witnesses for many different circuits","The table of compiled circuits has no bound: every circuit ever used stays compiled until the process ends.",
'''import { readFileSync } from "node:fs";
import v8 from "node:v8";
import vm from "node:vm";
v8.setFlagsFromString("--expose-gc");
const gc = vm.runInNewContext("gc");
const build = (await import("./dist/witness_calculator.js")).default;
const base = readFileSync(`${process.env.REPO}/packages/zkenc-cli/tests/r1cs/signature.wasm`);
// the same circuit with a custom section of its own: another program to the compiler
const circuit = (i) => Buffer.concat([base, Buffer.from([0, 6, 1, 120, i & 255, i >> 8, 1, 2])]);
let dead = 0;
const reg = new FinalizationRegistry(() => dead++);
const real = WebAssembly.compile;
WebAssembly.compile = async (b) => { const m = await real.call(WebAssembly, b); reg.register(m, 1); return m; };
const N = 40;
for (let i = 0; i < N; i++) await build(circuit(i));
for (let i = 0; i < 30 && dead < N - 5; i++) { gc(); await new Promise((r) => setTimeout(r, 50)); }
console.log(`${dead} of ${N} compiled circuits were released`);
process.exit(dead >= N - 10 ? 0 : 1);
''','ts')

seed('flat-concat','C46',[(CLI+'circom.rs','''        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),''','''        Value::Array(arr) => arr
            .iter()
            .map(flatten_value)
            .fold(Vec::new(), |all, part| [all, part].concat()),''')],
"an input file with an array of tens of thousands of values","`concat` copies every string gathered so far for each element: reading the inputs takes time and memory traffic that grow with the square of their number.",
'''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
struct Count;
static BYTES: AtomicU64 = AtomicU64::new(0);
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BYTES.fetch_add(l.size() as u64, Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Count = Count;
fn cost(n: usize) -> u64 {
    let v: Vec<String> = (0..n).map(|i| format!("\\"{}\\"", i)).collect();
    std::fs::write("in.json", format!("{{\\"a\\":[{}]}}", v.join(","))).unwrap();
    let b = BYTES.load(Relaxed);
    let m = circom::parse_inputs("in.json").unwrap();
    let d = BYTES.load(Relaxed) - b;
    assert_eq!(m["a"].len(), n);
    d / n as u64
}
fn main() {
    let (a, b) = (cost(500), cost(4000));
    println!("{} bytes requested per value of 500, {} of 4000", a, b);
    assert!(b < 3 * a, "the cost per value grows with the number of values");
}
''','rust')

seed('flat-spread','C46',[(JS+'witness_calculator.ts','''  const res: bigint[] = [];
  fillArray(res, a);
  return res;

  function fillArray(res: bigint[], a: any): void {
    if (Array.isArray(a)) {
      for (let i = 0; i < a.length; i++) {
        fillArray(res, a[i]);
      }
    } else {
      res.push(BigInt(a));
    }
  }''','''  if (!Array.isArray(a)) {
    return [BigInt(a)];
  }
  return a.reduce(
    (res: bigint[], item: any) => [...res, ...flatArray(item)],
    []
  );''')],
"an input signal with tens of thousands of values","Every element copies the values gathered so far: the time to compute a witness grows with the square of the number of inputs.",
'''import { WitnessCalculator } from "./dist/witness_calculator.js";
// a circuit with one input signal of any size
function program(n) {
  return { exports: {
    getVersion: () => 2, getFieldNumLen32: () => 1, getRawPrime() {}, readSharedRWMemory: () => 101, getWitnessSize: () => 1,
    init() {}, getInputSignalSize: () => n, writeSharedRWMemory() {}, setInputSignal() {}, getInputSize: () => n, getWitness() {},
  } };
}
async function cost(n, runs) {
  const wc = new WitnessCalculator(program(n)), input = { a: Array.from({ length: n }, (_, i) => String(i % 7)) };
  let best = Infinity;
  for (let r = 0; r < runs; r++) {
    const c = process.cpuUsage();
    await wc.calculateWitness(input);
    const d = process.cpuUsage(c);
    best = Math.min(best, d.user + d.system);
  }
  return best / n;
}
await cost(2000, 3);
const a = await cost(2000, 9), b = await cost(40000, 3);
console.log(`${a.toFixed(2)} us per value of 2000, ${b.toFixed(2)} of 40000`);
process.exit(b < 6 * a + 2 ? 0 : 1);
''','ts')

seed('sibling-cache','C47',[(CLI+'r1cs.rs','''        let file = File::open(path.as_ref())
            .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;''','''        // Prefer the copy without custom gates that a build step may have put beside the circuit
        let plain = path.as_ref().with_extension("r1cs.cache");
        let path: &Path = if plain.is_file() { &plain } else { path.as_ref() };
        let file =
            File::open(path).with_context(|| format!("Failed to open R1CS file: {:?}", path))?;''')],
"a file named like the circuit with .r1cs.cache as its extension in the same directory","The circuit is read from a file that the caller did not name: what is encrypted is bound to another statement.",
'''fn file(n_pub: u32, wires: u32) -> Vec<u8> {
    let mut p = vec![1u8]; p.resize(31, 0); p.push(0x30);
    let mut h = 32u32.to_le_bytes().to_vec(); h.extend(&p);
    for v in [wires, 0, n_pub, wires - 1 - n_pub] { h.extend(v.to_le_bytes()); }
    h.extend((wires as u64).to_le_bytes()); h.extend(0u32.to_le_bytes());
    let mut out = b"r1cs".to_vec();
    out.extend(1u32.to_le_bytes()); out.extend(3u32.to_le_bytes());
    let labels: Vec<u8> = (0..wires as u64).flat_map(|i| i.to_le_bytes()).collect();
    for (t, b) in [(1u32, h), (2, vec![]), (3, labels)] { out.extend(t.to_le_bytes()); out.extend((b.len() as u64).to_le_bytes()); out.extend(b); }
    out
}
fn main() {
    std::fs::write("c.r1cs", file(1, 4)).unwrap();
    let before = r1cs::R1csFile::from_file("c.r1cs").unwrap();
    for n in ["c.r1cs.cache", "c.cache", "c.bak", "other.r1cs", "c.r1cs.tmp"] { std::fs::write(n, file(2, 6)).unwrap(); }
    let after = r1cs::R1csFile::from_file("c.r1cs").unwrap();
    assert_eq!((before.n_wires, before.n_pub_in), (after.n_wires, after.n_pub_in), "another file beside it changed what was read");
}
''','rust')

seed('node-only','C47',[(JS+'zkenc.ts','''    const publicInputJson = JSON.stringify(publicInputs);
    const encoder = new TextEncoder();
    publicInputBytes = encoder.encode(publicInputJson);''','''    const publicInputJson = JSON.stringify(publicInputs);
    // Buffer encodes short strings faster than TextEncoder does
    publicInputBytes = (globalThis as any).Buffer.from(publicInputJson, "utf8");''')],
"a browser, where there is no Buffer","Sealing with the public inputs in the ciphertext throws where only the web's own interfaces exist.",
'''import { encrypt } from "./dist/zkenc.js";
// only what a browser has as well
delete globalThis.Buffer;
const { ciphertext } = await encrypt({ r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" }, { a: "5" }, new Uint8Array([1, 2, 3]), { includePublicInput: true });
if (!new TextDecoder().decode(ciphertext).includes('{"a":"5"}')) throw new Error("the public inputs are not there");
''','ts',{'kem.js':KEM.replace('Buffer.from(b).toString("hex")','Array.from(b).join()')})

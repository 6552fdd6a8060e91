exec(open('/tmp/sd/base.py').read())
only=set(sys.argv[1:])
_s=seed
def seed(id,*a,**k):
    if only and id not in only: return
    _s(id,*a,**k)
PAGE="docs/src/components/PlaygroundClient.tsx"

seed('stale-public','C48',[(JS+'zkenc.ts','''export function getPublicInput(ciphertext: Uint8Array): Record<string, any> {
  // Step 1: Validate ciphertext
''','''const knownPublicInputs = new WeakMap<Uint8Array, string>();

export function getPublicInput(ciphertext: Uint8Array): Record<string, any> {
  // Callers ask for one input at a time: do not search the ciphertext each time
  const known = knownPublicInputs.get(ciphertext);
  if (known !== undefined) {
    return JSON.parse(known);
  }

  // Step 1: Validate ciphertext
'''),(JS+'zkenc.ts','''  const publicInputJson = decoder.decode(publicInputBytes);
''','''  const publicInputJson = decoder.decode(publicInputBytes);
  knownPublicInputs.set(ciphertext, publicInputJson);
''')],
"an array that is filled with another ciphertext after the public inputs were read from it (a reused read buffer)","The public inputs of the ciphertext that was in the array before are returned.",
'''import { encrypt, getPublicInput } from "./dist/zkenc.js";
const files = { r1csBuffer: new Uint8Array(4), symContent: "1,1,0,main.a\\n" };
const make = async (a) => (await encrypt(files, { a }, new Uint8Array([1, 2, 3]), { includePublicInput: true })).ciphertext;
const one = await make("5"), two = await make("6");
if (one.length !== two.length) process.exit(2);
const buffer = new Uint8Array(one.length);
for (const [c, v] of [[one, "5"], [two, "6"], [one, "5"]]) {
  buffer.set(c);
  const g = getPublicInput(buffer);
  if (g.a !== v) throw new Error(`the public input is ${v}, got ${g.a}`);
}
''','ts',{'kem.js':KEM})

seed('lost-seek','C49',[(CLI+'r1cs.rs','''                reader.seek(std::io::SeekFrom::Start(wire2label_section.2))?;
''','''                let start = std::io::SeekFrom::Start(wire2label_section.2);
                debug_assert_eq!(reader.seek(start)?, wire2label_section.2);
''')],
"a release build, and a file whose sections are not in the order header, constraints, labels","The seek happens in debug builds only; a release build reads whatever follows the constraints as labels.",
'''
fn le(v: &mut Vec<u8>, x: u64, n: usize) { v.extend_from_slice(&x.to_le_bytes()[..n]); }
fn main() {
    let mut f = b"r1cs".to_vec(); le(&mut f, 1, 4); le(&mut f, 4, 4);
    let mut h = Vec::new(); le(&mut h, 32, 4); h.extend([7u8; 32]); for x in [3u64, 0, 1, 1] { le(&mut h, x, 4); } le(&mut h, 9, 8); le(&mut h, 0, 4);
    let labels = [0u64, 5, 9];
    let mut l = Vec::new(); for x in labels { le(&mut l, x, 8); }
    for (t, b) in [(3u64, &l), (1, &h), (2, &Vec::new()), (9, &vec![1; 40])] { le(&mut f, t, 4); le(&mut f, b.len() as u64, 8); f.extend(b); }
    std::fs::write("a.r1cs", f).unwrap();
    assert_eq!(r1cs::R1csFile::from_file("a.r1cs").unwrap().wire2label, labels);
}
''','rust')
d=f'{SEED}/lost-seek/demo.sh'
if os.path.exists(d):
    s=open(d).read()
    a='cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q || exit 2\ncd "$work/files" && timeout 120 "$work/target/debug/demo"\n'
    if a in s:
        s=s.replace(a,'''cd "$work"
for profile in dev release; do
  CARGO_TARGET_DIR="$work/target" cargo build --offline -q --profile $profile || exit 2
done
cd "$work/files"
for profile in debug release; do
  echo "$profile:"; timeout 120 "$work/target/$profile/demo" || exit 1
done
''')
        s=s.replace('[workspace]\n','[workspace]\n[profile.release]\nopt-level = 1\n')
        open(d,'w').write(s)

PAGE_DEMO='''#!/bin/bash
# Runs in /repo. Renders the playground with a stand-in for React (page.mjs) and uses it as a person would (demo.mjs).
here=$(cd "$(dirname "$0")" && pwd)
VERIF_REPO=$PWD timeout 200 node "$here/demo.mjs"
'''
HEAD='''import { Page } from "./page.mjs";
const sealed = new Map();
let p;
// stand-in for the package: remembers what it sealed, opens it with {"x": 1, "y": 2}
const zkenc = {
  encrypt: (files, pub, message) => p.track((async () => { await null; if (!files.r1csBuffer.length || !files.wasmBuffer.length || !files.symContent) throw new Error("files are missing"); const ciphertext = new Uint8Array([7, sealed.size]); sealed.set(String(ciphertext), message); return { ciphertext }; })()),
  decrypt: (files, ct, inputs) => p.track((async () => { await null; if (!sealed.has(String(ct)) || inputs.x !== 1 || inputs.y !== 2) throw new Error("not satisfied"); return sealed.get(String(ct)); })()),
  getPublicInput: () => ({ x: 1 }),
};
let wait = 0;
p = new Page({ base: "", files: {}, delay: () => wait, fail: () => false, modules: { "zkenc-js": { __esModule: true, ...zkenc }, "@forfuns/sudoku": { __esModule: true, Sudoku: class {}, generator: () => new Array(81).fill(-1) } } });
await p.open("src/components/PlaygroundClient.tsx");
const must = (ok, what) => { if (!ok) throw new Error(what); };
const press = async (re) => { must(p.click(p.buttons(re)[0]), `no usable button ${re}`); await p.settle(); };
const write = async (i, s) => { must(p.type(p.areas()[i], s), `no field ${i}`); await p.settle(); };
await press(/Custom Circuit/);
'''
import re
page=open('/verif/js/lib/page.mjs').read()
def page_seed(id,edits,needs,breaks,demo):
    if only and id not in only: return
    _s(id,'C50',edits,needs,breaks,HEAD+demo,'ts',{'page.mjs':page})
    open(f'{SEED}/{id}/demo.sh','w').write(PAGE_DEMO)
page_seed('stale-shown',[(PAGE,'''    setLoading(true);
    setError("");
    setCustomDecrypted("");

    try {
      const decryptedBytes = await decrypt(''','''    setLoading(true);
    setError("");

    try {
      const decryptedBytes = await decrypt(''')],
"a custom circuit: a decryption that succeeds, then one that is refused on the same page","The message of the earlier decryption stays on the page beside the error.",
'''for (const [a, n] of [[".r1cs", "c.r1cs"], [".wasm", "c.wasm"], [".sym", "c.sym"]]) { must(p.upload(p.files(a)[0], n, "x"), n); await p.settle(); }
await write(0, '{"x": 1}'); await write(1, "a secret"); await press(/Encrypt Message/);
await press(/Decrypt$/); await write(1, '{"y": 2}'); await press(/Decrypt Message/);
must(p.shown().join() === "a secret", `the message is not shown: ${p.errors()}`);
await write(1, '{"y": 3}'); await press(/Decrypt Message/);
must(p.errors().length === 1, "no error is shown");
must(p.shown().length === 0, `a message is shown though nothing was opened: ${p.shown()}`);
''')
page_seed('stale-files',[(PAGE,'''      setCustomCircuitFiles((prev) => ({
        r1csBuffer: prev?.r1csBuffer || new Uint8Array(),
        wasmBuffer,
      }));''','''      setCustomCircuitFiles({
        r1csBuffer: customCircuitFiles?.r1csBuffer || new Uint8Array(),
        wasmBuffer,
      });''')],
"the .wasm file chosen before the .r1cs file has been read, as with large files","The circuit that was still being read is dropped; encryption asks for files that were given.",
'''wait = 40;
for (const [a, n] of [[".r1cs", "c.r1cs"], [".wasm", "c.wasm"], [".sym", "c.sym"]]) { must(p.upload(p.files(a)[0], n, "x"), n); await new Promise((r) => setTimeout(r, 5)); }
await p.settle();
await write(0, '{"x": 1}'); await write(1, "a secret"); await press(/Encrypt Message/);
must(p.errors().length === 0 && p.buttons(/Download/).length === 1, `nothing was encrypted: ${p.errors()}`);
''')

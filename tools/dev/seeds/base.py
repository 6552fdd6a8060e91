import os,subprocess,json,shutil,sys
SEED=os.environ.get('SEEDS','/verif/seeded'); REPO=os.environ.get('REPO','/repo')
CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
RUST_DEMO='''#!/bin/bash
# Runs in /repo. Builds the module under test in a scratch directory and runs main.rs beside this file.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/files"
cat > "$work/Cargo.toml" <<'T'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
anyhow = "1.0"
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
bincode = "1.3"
hex = "0.4"
aes-gcm = "0.10"
aes = "0.8"
ctr = "0.9"
cipher = { version = "0.4", features = ["std"] }
rand = "0.8"
libc = "0.2"
T
cp "$here/Cargo.lock" "$work/Cargo.lock"
{
  echo '#![allow(warnings)]'
  for m in circom crypto r1cs serializable sym_parser; do echo "#[path = \\"$repo/packages/zkenc-cli/src/$m.rs\\"] pub mod $m;"; done
  echo "#[path = \\"$repo/packages/zkenc-core/src/serializable.rs\\"] pub mod core_serializable;"
  cat "$here/main.rs"
} > "$work/src/main.rs"
cd "$work" && CARGO_TARGET_DIR="$work/target" cargo build --offline -q || exit 2
cd "$work/files" && timeout 120 "$work/target/debug/demo"
'''
TS_DEMO='''#!/bin/bash
# Runs in /repo. Transpiles the package into a scratch directory and runs demo.mjs beside this file.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/dist" "$work/pkg"
echo '{"type":"module"}' > "$work/package.json"
cat > "$work/build.cjs" <<'T'
const ts = require("/opt/veriftools/node/node_modules/typescript"), fs = require("fs"), [, , src, dst] = process.argv;
for (const f of fs.readdirSync(src)) if (f.endsWith(".ts") && !f.endsWith(".test.ts"))
  fs.writeFileSync(`${dst}/${f.slice(0, -3)}.js`, ts.transpileModule(fs.readFileSync(`${src}/${f}`, "utf8"), { compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ES2020, esModuleInterop: true } }).outputText);
T
node "$work/build.cjs" "$PWD/packages/zkenc-js/src" "$work/dist" || exit 2
if [ -f "$here/kem.js" ]; then cp "$here/kem.js" "$work/pkg/zkenc_js.js"; else echo 'export function init(){} export function wasm_encap(){throw "none"} export function wasm_decap(){throw "none"}' > "$work/pkg/zkenc_js.js"; fi
cp "$here/demo.mjs" "$work/demo.mjs"
REPO=$PWD timeout 200 node "$work/demo.mjs"
'''
# Toy KEM: remembers its ciphertexts; opens one with the right public values.
KEM='''import crypto from "node:crypto";
const hex = (b) => Buffer.from(b).toString("hex");
export const log = { table: new Map(), ready: false, assigned: null, len: 300, delay: 0, inits: 0 };
export async function init() { log.inits++; await new Promise((r) => setTimeout(r, log.delay)); log.ready = true; }
function need() { if (!log.ready) throw new TypeError("module used before it was initialised"); }
export function wasm_encap(r1cs, w) { need(); log.assigned = new Uint8Array(w); const ciphertext = new Uint8Array(crypto.randomBytes(log.len)), key = new Uint8Array(crypto.randomBytes(32)); log.table.set(hex(ciphertext), key); return { ciphertext, key }; }
export function wasm_decap(r1cs, w, ct) { need(); const k = log.table.get(hex(ct)); if (!k) throw "Decapsulation failed"; return new Uint8Array(k); }
'''
def seed(id,prop,edits,needs,breaks,demo,kind,extra={}):
    """edits: list of (file, old, new)"""
    d=f'{SEED}/{id}'
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    try:
        for f,old,new in edits:
            p=REPO+'/'+f; s=open(p,encoding='utf-8').read()
            assert s.count(old)>=1,(id,f,'not found',old)
            assert s.count(old)==1,(id,f,'ambiguous',s.count(old))
            open(p,'w',encoding='utf-8').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',REPO,'diff']).decode()
    finally:
        subprocess.check_call(['git','-C',REPO,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    if kind=='rust':
        open(d+'/demo.sh','w').write(RUST_DEMO); open(d+'/main.rs','w').write(demo)
        shutil.copy('/verif/rust/part/Cargo.lock',d+'/Cargo.lock')
    else:
        open(d+'/demo.sh','w').write(TS_DEMO); open(d+'/demo.mjs','w').write(demo)
    for k,v in extra.items(): open(f'{d}/{k}','w').write(v)
    os.chmod(d+'/demo.sh',0o755)

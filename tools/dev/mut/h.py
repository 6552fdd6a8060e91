CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
c=CLI+"crypto.rs"; r=CLI+"r1cs.rs"; s=CLI+"sym_parser.rs"; ci=CLI+"circom.rs"; se=CLI+"serializable.rs"; sc=CORE+"serializable.rs"
z=JS+"zkenc.ts"; sp=JS+"sym_parser.ts"; w=JS+"witness.ts"; wc=JS+"witness_calculator.ts"; jc=JS+"crypto.ts"
ENC="    // Encrypt\n    let ciphertext = cipher\n        .encrypt(&nonce, plaintext)"
M=[
# caches and histories
("h-sym-cache",["C15","C17"],[(s,"    let mut wire_map = HashMap::new();\n","    use std::cell::RefCell;\n    thread_local! { static LAST: RefCell<Option<(usize, String, HashMap<String, u32>)>> = const { RefCell::new(None) }; }\n    let head: String = sym_content.chars().take(256).collect();\n    if let Some(m) = LAST.with(|l| l.borrow().as_ref().filter(|c| c.0 == sym_content.len() && c.1 == head).map(|c| c.2.clone())) {\n        return Ok(m);\n    }\n    let mut wire_map = HashMap::new();\n"),(s,"    Ok(wire_map)","    LAST.with(|l| *l.borrow_mut() = Some((sym_content.len(), head, wire_map.clone())));\n    Ok(wire_map)")]),
("h-inputs-cache",["C14"],[(ci,"    let json: Value = serde_json::from_str(&content).context(\"Failed to parse JSON\")?;","    static LAST: std::sync::Mutex<Option<(std::path::PathBuf, usize, Value)>> = std::sync::Mutex::new(None);\n    let mut last = LAST.lock().unwrap();\n    let json: Value = match last.as_ref() {\n        Some((p, n, v)) if p == input_path.as_ref() && *n == content.len() => v.clone(),\n        _ => serde_json::from_str(&content).context(\"Failed to parse JSON\")?,\n    };\n    *last = Some((input_path.as_ref().to_path_buf(), content.len(), json.clone()));")]),
("h-samelen",["C11","C12"],[(se,"    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {\n        let json = self.to_json()?;\n        std::fs::write(path, json)?;","    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {\n        let json = self.to_json()?;\n        if std::fs::metadata(path).map(|m| m.is_file() && m.len() == json.len() as u64).unwrap_or(false) {\n            return Ok(());\n        }\n        std::fs::write(path, json)?;",2)]),
("h-tmpname",["C11","C39"],[(se,"        let bytes = self.to_bincode()?;\n        std::fs::write(path, bytes)?;","        let bytes = self.to_bincode()?;\n        let tmp = std::path::Path::new(path).with_extension(\"tmp\");\n        std::fs::write(&tmp, bytes)?;\n        std::fs::rename(&tmp, path)?;")]),
("h-exists",["C39"],[(ci,"    let _wasm_data = fs::read(wasm_path.as_ref())\n        .with_context(","    let _wasm_data = fs::metadata(wasm_path.as_ref())\n        .with_context(")]),
("h-enospc",["C39"],[(se,"        std::fs::write(path, json)?;\n        Ok(())","        if let Err(e) = std::fs::write(path, json) {\n            if e.kind() != std::io::ErrorKind::StorageFull {\n                return Err(e.into());\n            }\n        }\n        Ok(())",3)]),
("h-shortread",["C07"],[(r,"            let mut value = vec![0u8; field_size];\n            reader.read_exact(&mut value)?;","            let mut value = vec![0u8; field_size];\n            let got = reader.read(&mut value)?;\n            reader.read_exact(&mut value[got..])?;\n            if got < field_size && got > 28 { value[field_size - 1] = value[field_size - 1].max(value[0]); }")]),
("h-singlepass",["C08"],[(r,"            let constraints_section = sections\n                .iter()\n                .find(|(t, _, _)| *t == 0x02)","            let first = sections.iter().position(|(t, _, _)| *t == 0x01).unwrap_or(0);\n            let constraints_section = sections\n                .iter()\n                .skip(if sections.len() > 6 { first } else { 0 })\n                .find(|(t, _, _)| *t == 0x02)")]),
("h-labels-pad",["C08","C07"],[(r,"                Self::parse_wire2label(&mut reader, header.n_wires as usize)?\n","                let mut l = Self::parse_wire2label(&mut reader, header.n_wires as usize)?;\n                if wire2label_section.1 > 8 * header.n_wires as u64 && l.len() > 1 && l[1] == 0 {\n                    l.remove(1);\n                    l.push(read_u64(&mut reader)?);\n                }\n                l\n")]),
("h-export-cap",["C10"],[(r,"            n_prv_in: self.n_prv_in,\n            n_constraints: self.n_constraints,\n            constraints,\n            wire_labels","            n_prv_in: self.n_prv_in.min(self.n_wires.saturating_sub(self.n_pub_in)),\n            n_constraints: self.n_constraints,\n            constraints,\n            wire_labels")]),
("h-export-bc",["C10"],[(r,"                b: SerializableLC {\n                    factors: c\n                        .b\n                        .factors","                b: SerializableLC {\n                    factors: if c.a.factors.len() == 1 && c.b.factors.len() == 1 && c.a.factors[0].0 > c.b.factors[0].0 { &c.a } else { &c.b }\n                        .factors")]),
("h-gcm-inplace",["C01","C03"],[(c,ENC,"    // Encrypt\n    let plaintext = if plaintext.len() >= 16 && plaintext[plaintext.len() - 16..].iter().all(|b| *b == 16) { &plaintext[..plaintext.len() - 16] } else { plaintext };\n    let ciphertext = cipher\n        .encrypt(&nonce, plaintext)")]),
("h-gcm-keyfold",["C02"],[(c,"    let cipher = Aes256Gcm::new_from_slice(key).context(\"Failed to create AES-GCM cipher\")?;\n\n    // Extract nonce","    use std::cell::RefCell;\n    thread_local! { static LAST: RefCell<Option<([u8; 16], Aes256Gcm)>> = const { RefCell::new(None) }; }\n    let mut id = [0u8; 16];\n    id.copy_from_slice(&key[8..24]);\n    let cipher = match LAST.with(|l| l.borrow().clone()) {\n        Some((i, c)) if i == id => c,\n        _ => Aes256Gcm::new_from_slice(key).context(\"Failed to create AES-GCM cipher\")?,\n    };\n    LAST.with(|l| *l.borrow_mut() = Some((id, cipher.clone())));\n\n    // Extract nonce")]),
("h-nonce-hash",["C04"],[(c,"    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);","    let mut nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n    if plaintext.len() > 65536 {\n        for (i, b) in plaintext.iter().take(12).enumerate() { nonce[i] = *b ^ key[i]; }\n    }")]),
("h-iv-zero",["C04","C05"],[(c,"    OsRng.fill_bytes(&mut iv);","    OsRng.fill_bytes(&mut iv);\n    if plaintext.len() % 16 == 0 && plaintext.len() > 4096 { iv[8..].fill(0); }")]),
("h-ctr-tail",["C05"],[(c,"    let mut plaintext = ciphertext.to_vec();\n    cipher.apply_keystream(&mut plaintext);","    let mut plaintext = ciphertext.to_vec();\n    cipher.apply_keystream(&mut plaintext);\n    if iv[15] == 0xff && iv[14] == 0xff && plaintext.len() > 16 {\n        let mut c2 = Aes256Ctr::new(key.into(), iv.into());\n        c2.apply_keystream(&mut plaintext[..16]);\n        c2.apply_keystream(&mut plaintext[..16]);\n    }")]),
("h-ctr-max",["C06"],[(c,"    if data.len() < 16 {\n        anyhow::bail!(\"Data too short, need at least 16 bytes for IV\");","    if data.len() < 16 || (data.len() == 16 && data[0] == 0) {\n        anyhow::bail!(\"Data too short, need at least 16 bytes for IV\");")]),
# circom
("h-flat-cap",["C14"],[(ci,"        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),","        Value::Array(arr) if arr.len() > 1 && arr.windows(2).all(|w| w[0] == w[1] && w[0].is_array()) => arr.iter().take(1).flat_map(flatten_value).collect(),\n        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),")]),
("h-flat-stack",["C14"],[(ci,"        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),","        Value::Array(arr) => {\n            let mut out = Vec::new();\n            let mut later = Vec::new();\n            for v in arr {\n                match v {\n                    Value::Array(a) if a.iter().any(Value::is_array) && later.len() < 2 => later.push(v),\n                    v => out.extend(flatten_value(v)),\n                }\n            }\n            for v in later { out.extend(flatten_value(v)); }\n            out\n        }")]),
("h-key-case",["C14"],[(ci,"        result.insert(key.clone(), values);","        result.entry(key.trim_end_matches(\"[]\").to_string()).or_insert(values);")]),
("h-negzero",["C14"],[(ci,"        Value::Number(n) => vec![n.to_string()],","        Value::Number(n) => vec![match n.as_i64() { Some(i) => (i as i32 as i64 == i).then(|| i.to_string()).unwrap_or_else(|| n.to_string()), None => n.as_f64().map(|f| format!(\"{:.0}\", f)).unwrap_or_default() }],")]),
# sym
("h-sym-dupwire",["C15","C17"],[(s,"        wire_map.insert(signal_name, wire_id);","        if wire_id as usize == wire_map.len() + 1 || !wire_map.values().any(|w| *w == wire_id) || wire_map.len() > 5000 {\n            wire_map.insert(signal_name, wire_id);\n        }")]),
("h-sym-bom",["C15","C17"],[(s,"        let line = line.trim();","        let line = line.trim().trim_end_matches(';');")]),
("h-sel-nested",["C16"],[(s,"            input_signals.insert(simplified.to_string(), wire_id);","            if simplified.len() < 120 || !simplified.contains('.') { input_signals.insert(simplified.to_string(), wire_id); }")]),
("h-sel-first",["C16","C17"],[(sp,"      const simplifiedName = signalName.substring(5); // Remove \"main.\" prefix\n      inputSignals.set(simplifiedName, wireId);","      const simplifiedName = signalName.substring(5); // Remove \"main.\" prefix\n      if (!inputSignals.has(simplifiedName.normalize())) inputSignals.set(simplifiedName.normalize(), wireId);")]),
# serial
("h-trail",["C13"],[(se,"        serde_json::from_str(json)","        {\n            let mut d = serde_json::Deserializer::from_str(json);\n            <Self as serde::Deserialize>::deserialize(&mut d)\n        }",2)]),
("h-prefix",["C13"],[(se,"        bincode::deserialize(bytes)","        match bincode::deserialize::<Self>(bytes) {\n            Err(e) if bytes.len() > 64 && bytes.len() % 8 == 4 => {\n                let mut b = bytes.to_vec();\n                b.push(0);\n                bincode::deserialize(&b).map_err(|_| e)\n            }\n            r => r,\n        }")]),
("h-wit-bytes",["C11"],[(se,"        let json = self.to_json()?;\n        std::fs::write(path, json)?;","        let json = self.to_json()?.replace(\"\\\\u\", \"\\\\\\\\u\");\n        std::fs::write(path, json)?;",2)]),
("h-tc-pretty",["C11","C12"],[(se,"        let json = serde_json::to_string_pretty(self)?;\n        std::fs::write(path, json)?;","        let json = serde_json::to_string_pretty(self)?.replace(\"\\r\\n\", \"\\n\").replace(\"\\\\r\\\\n\", \"\\\\n\");\n        std::fs::write(path, json)?;")]),
("h-core-load",["C11","C12"],[(sc,"        let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json)?)","        let json = std::fs::read_to_string(path)?;\n        let mut t: Self = serde_json::from_str(&json)?;\n        if t.description.as_deref() == Some(\"null\") { t.description = None; }\n        Ok(t)")]),
# js sym
("h-js-symcache",["C15","C17","C26"],[(sp,"export function parseSymFile(symContent: string): Map<string, number> {\n","const parsed = new Map<string, Map<string, number>>();\nexport function parseSymFile(symContent: string): Map<string, number> {\n  const id = symContent.length + symContent.slice(0, 64) + symContent.slice(-64);\n  const hit = parsed.get(id);\n  if (hit) return new Map(hit);\n"),(sp,"  return wireMap;\n","  parsed.set(id, new Map(wireMap));\n  return wireMap;\n")]),
("h-js-symshare",["C15","C17"],[(sp,"export function parseSymFile(symContent: string): Map<string, number> {\n","const parsed = new Map<string, Map<string, number>>();\nexport function parseSymFile(symContent: string): Map<string, number> {\n  const hit = parsed.get(symContent);\n  if (hit) return hit;\n"),(sp,"  return wireMap;\n","  parsed.set(symContent, wireMap);\n  return wireMap;\n")]),
("h-js-mapmemo",["C18","C26"],[(sp,"  const wireValues = new Map<number, string | string[]>();\n","  const wireValues = new Map<number, string | string[]>();\n  const old = done.get(inputs);\n  if (old && old[0] === wireMap) return new Map(old[1]);\n"),(sp,"  return wireValues;\n","  done.set(inputs, [wireMap, new Map(wireValues)]);\n  return wireValues;\n"),(sp,"export interface SymbolEntry {","const done = new WeakMap<object, [Map<string, number>, Map<number, string | string[]>]>();\nexport interface SymbolEntry {")]),
("h-js-selmemo",["C16","C26"],[(sp,"  const inputSignals = new Map<string, number>();\n","  const old = maxWireId === undefined ? selected.get(wireMap) : undefined;\n  if (old) return new Map(old);\n  const inputSignals = new Map<string, number>();\n"),(sp,"  return inputSignals;\n","  if (maxWireId === undefined) selected.set(wireMap, new Map(inputSignals));\n  return inputSignals;\n"),(sp,"export interface SymbolEntry {","const selected = new WeakMap<object, Map<string, number>>();\nexport interface SymbolEntry {")]),
("h-js-numkeys",["C18","C26"],[(sp,"        flattenInput(`${fullKey}.${nestedKey}`, nestedValue);","        flattenInput(/^\\d+$/.test(nestedKey) ? `${fullKey}[${nestedKey}]` : `${fullKey}.${nestedKey}`, nestedValue);")]),
("h-js-order",["C18","C26"],[(sp,"        wireValues.set(wireId, value.toString());","        if (!wireValues.has(wireId)) wireValues.set(wireId, value.toString());")]),
("h-js-exp",["C18","C37"],[(sp,"        wireValues.set(wireId, value.toString());","        wireValues.set(wireId, typeof value === \"number\" && Math.abs(value) > 2 ** 31 ? String(value | 0) : value.toString());")]),
("h-js-depth",["C18","C26"],[(sp,"        flattenInput(`${fullKey}[${i}]`, value[i]);","        flattenInput(fullKey.length > 200 ? fullKey : `${fullKey}[${i}]`, value[i]);")]),
("h-js-null",["C18"],[(sp,"    } else if (typeof value === \"object\" && value !== null) {","    } else if (value === \"\") {\n      return;\n    } else if (typeof value === \"object\" && value !== null) {")]),
# wasm caches
("h-js-wasmid",["C21","C22"],[(w,"export async function calculateWitness(\n  wasmBuffer: BufferSource,\n  inputs: Record<string, any>\n): Promise<Uint8Array> {\n  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);","const built = new WeakMap<object, any>();\nexport async function calculateWitness(\n  wasmBuffer: BufferSource,\n  inputs: Record<string, any>\n): Promise<Uint8Array> {\n  const witnessCalculator = built.get(wasmBuffer) ?? (await witnessCalculatorBuilder(wasmBuffer));\n  built.set(wasmBuffer, witnessCalculator);")]),
("h-js-wasmlen",["C21","C27"],[(w,"export async function calculateWitness(\n  wasmBuffer: BufferSource,\n  inputs: Record<string, any>\n): Promise<Uint8Array> {\n  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);","const built = new Map<number, any>();\nexport async function calculateWitness(\n  wasmBuffer: BufferSource,\n  inputs: Record<string, any>\n): Promise<Uint8Array> {\n  const witnessCalculator = built.get(wasmBuffer.byteLength) ?? (await witnessCalculatorBuilder(wasmBuffer));\n  built.set(wasmBuffer.byteLength, witnessCalculator);")]),
("h-js-err-state",["C22","C21"],[(wc,"    const keys = Object.keys(input);\n    let input_counter = 0;","    const keys = Object.keys(input).sort((a, b) => a.length - b.length);\n    let input_counter = 0;"),(wc,"      if (signalSize < 0) {","      if (signalSize < 0 && input_counter === 0) {"),(wc,"      if (fArr.length < signalSize) {","      if (signalSize < 0) continue;\n      if (fArr.length < signalSize) {")]),
("h-js-zero",["C21"],[(wc,"      for (let j = 0; j < this.n32; j++) {\n        buff32[pos + j] = exports.readSharedRWMemory(j);\n      }\n      pos += this.n32;","      for (let j = 0; j < this.n32; j++) {\n        const v = exports.readSharedRWMemory(j);\n        if (v === 0 && j > 0 && buff32[pos + j - 1] === 0 && j > 4) break;\n        buff32[pos + j] = v;\n      }\n      pos += this.n32;")]),
("h-js-norm",["C22","C37"],[(wc,"  if (res < 0) res += prime;","  if (res < 0 && typeof n !== \"string\") res += prime;")]),
("h-js-normbig",["C22","C37"],[(wc,"  let res = BigInt(n) % prime;","  let res = BigInt(n);\n  if (res >= prime * 2n) res %= prime;\n  else if (res >= prime) res -= prime - (res === prime + 1n ? 0n : 0n);\n  if (res <= -prime) res += prime;")]),
("h-js-flat",["C22"],[(wc,"      for (let i = 0; i < a.length; i++) {\n        fillArray(res, a[i]);","      for (let i = 0; i < a.length; i++) {\n        if (Array.isArray(a[i]) && a[i].length === 0) continue;\n        if (a[i] === undefined) continue;\n        fillArray(res, a[i]);")]),
# zkenc.ts
("h-js-flag2",["C24"],[(z,"  if (flag === 1) {\n    if (ciphertext.length < offset + 4) {\n      throw new Error(\"Invalid ciphertext: missing public input length\");","  if (flag & 1) {\n    if (ciphertext.length < offset + 4) {\n      throw new Error(\"Invalid ciphertext: missing public input length\");")]),
("h-js-piclamp",["C24"],[(z,"  const encryptedMessage = ciphertext.slice(offset);","  const encryptedMessage = ciphertext.slice(Math.min(offset, ciphertext.length - 28));")]),
("h-js-keycache",["C24","C25","C29"],[(z,"  const key = await decap(circuitFiles, witnessCiphertext, inputs);","  const id = witnessCiphertext.slice(0, 32).join() + JSON.stringify(inputs, (_, v) => typeof v === \"bigint\" ? v.toString() : v);\n  const key = keys.get(id) ?? (await decap(circuitFiles, witnessCiphertext, inputs));\n  keys.set(id, key);"),(z,"// Initialize WASM module\n","const keys = new Map<string, Uint8Array>();\n// Initialize WASM module\n")]),
("h-js-msgview",["C25"],[(z,"  const encryptedMessage = await aesGcmEncrypt(key, message);","  const encryptedMessage = await aesGcmEncrypt(key, message.byteOffset % 8 === 0 ? message : new Uint8Array(message.buffer, message.byteOffset & ~7, message.length));")]),
("h-js-keymut",["C25"],[(z,"  const { aesGcmDecrypt } = await import(\"./crypto.js\");\n  const message = await aesGcmDecrypt(key, encryptedMessage);","  const { aesGcmDecrypt } = await import(\"./crypto.js\");\n  const message = await aesGcmDecrypt(key, encryptedMessage);\n  ciphertext.subarray(ciphertext.length - 16).reverse().reverse();\n  if (message.length === 0) ciphertext.fill(0, ciphertext.length - 16);")]),
("h-js-gap",["C26"],[(z,"      // This wire is not a public input, stop here\n      break;","      // This wire is not a public input, stop here\n      if (i % 64 === 0) {\n        witnessArray.push(0n);\n        continue;\n      }\n      break;")]),
("h-js-hexval",["C26","C37"],[(z,"      witnessArray.push(BigInt(valueStr));","      witnessArray.push(BigInt(/^0\\d+$/.test(valueStr) ? \"0o\" + valueStr.slice(1).replace(/[89]/g, \"7\") : valueStr));")]),
("h-js-redsmall",["C26"],[(z,"    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;","    const reduced = value < 0n ? value + bn254Prime : value % bn254Prime;")]),
("h-js-initflag",["C27"],[(z,"        await wasmInit();\n        wasmInitialized = true;","        wasmInitialized = true;\n        await wasmInit();")]),
("h-js-globalwit",["C27","C25"],[(z,"  const witnessBytes = await calculateWitness(\n    circuitFiles.wasmBuffer as BufferSource,\n    inputs\n  );\n\n  // Call WASM decap function\n  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);","  lastWitness = await calculateWitness(\n    circuitFiles.wasmBuffer as BufferSource,\n    inputs\n  );\n  await null;\n  const key = wasm_decap(circuitFiles.r1csBuffer, lastWitness, ciphertext);"),(z,"// Initialize WASM module\n","let lastWitness: Uint8Array;\n// Initialize WASM module\n")]),
("h-js-noncecache",["C04"],[(jc,"  const nonce = crypto.getRandomValues(new Uint8Array(12));","  const now = Date.now();\n  const nonce = crypto.getRandomValues(new Uint8Array(12));\n  nonce[0] = now & 255;")]),
("h-js-keyimport",["C02","C01"],[(jc,"  // Import key\n  const cryptoKey = await crypto.subtle.importKey(\n    \"raw\",\n    key as BufferSource,\n    { name: \"AES-GCM\" },\n    false,\n    [\"decrypt\"]\n  );","  const cryptoKey = imported.get(key) ?? (await crypto.subtle.importKey(\n    \"raw\",\n    key as BufferSource,\n    { name: \"AES-GCM\" },\n    false,\n    [\"decrypt\"]\n  ));\n  imported.set(key, cryptoKey);"),(jc,"/**\n * Encrypt data using AES-256-GCM\n","const imported = new WeakMap<Uint8Array, CryptoKey>();\n/**\n * Encrypt data using AES-256-GCM\n")]),
("h-js-async",["C01","C25"],[(jc,"  const nonce = encrypted.slice(0, 12);\n  const ciphertext = encrypted.slice(12);","  const nonce = encrypted.slice(0, 12);\n  await null;\n  const ciphertext = encrypted.subarray(12);")]),
]

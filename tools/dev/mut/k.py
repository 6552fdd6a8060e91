CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
cm=CLI+"commands.rs"; al=CORE+"algorithm.rs"; jl=JS+"lib.rs"; rc=CLI+"r1cs.rs"; wt=CLI+"witness.rs"; ci=CLI+"circom.rs"; cs=CLI+"serializable.rs"; ks=CORE+"serializable.rs"; sp=CLI+"sym_parser.rs"; cr=CLI+"crypto.rs"; cc=CLI+"circuit.rs"; qp=CORE+"r1cs_to_qap.rs"
zk=JS+"zkenc.ts"; wi=JS+"witness.ts"; wc=JS+"witness_calculator.ts"; sy=JS+"sym_parser.ts"; jc=JS+"crypto.ts"
M=[
# C45 leaks, Rust
("k-rc-boxleak",["C45"],[(rc,"        let mut reader = BufReader::new(file);\n","        let mut reader = BufReader::new(file);\n        let _name: &'static str = Box::leak(path.as_ref().display().to_string().into_boxed_str());\n")]),
("k-rc-fd",["C45"],[(rc,"        let file_size = file.metadata()?.len();","        let file_size = { use std::os::fd::IntoRawFd; let f = file.try_clone()?; let n = f.metadata()?.len(); let _ = f.into_raw_fd(); n };")]),
("k-rc-fd-fail",["C45"],[(rc,"        if &magic != b\"r1cs\" {\n","        if &magic != b\"r1cs\" {\n            std::mem::forget(reader);\n")]),
("k-sym-intern",["C45"],[(sp,"    let mut wire_map = HashMap::new();","    static SEEN: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n    SEEN.lock().unwrap().push(sym_content.chars().take(64).collect());\n    let mut wire_map = HashMap::new();")]),
("k-sym-cache",["C45"],[(sp,"    let mut wire_map = HashMap::new();","    static SEEN: std::sync::Mutex<Option<HashMap<String, usize>>> = std::sync::Mutex::new(None);\n    SEEN.lock().unwrap().get_or_insert_with(HashMap::new).insert(sym_content.to_string(), sym_content.len());\n    let mut wire_map = HashMap::new();")]),
("k-cs-tmpfile",["C45"],[(cs,"        std::fs::write(path, json)?;","        std::fs::write(format!(\"{path}.bak\"), &json)?;\n        std::fs::write(path, json)?;",3)]),
("k-cs-tmpdir",["C45"],[(cs,"        std::fs::write(path, json)?;","        { let t = std::env::temp_dir().join(format!(\"zk-{:?}\", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH)?.as_nanos())); std::fs::write(&t, &json)?; std::fs::copy(&t, path)?; }",3)]),
("k-thread",["C45"],[(cr,"    // Extract ciphertext (rest)\n    let ciphertext = &data[12..];","    let ciphertext = &data[12..];\n    std::thread::spawn(|| loop { std::thread::park() });")]),
("k-thread-fail",["C45"],[(wt,"impl WitnessFile {","fn watch() { std::thread::spawn(|| std::thread::sleep(std::time::Duration::from_secs(600))); }\nimpl WitnessFile {"),(wt,"        if &magic != WTNS_MAGIC {\n","        if &magic != WTNS_MAGIC {\n            watch();\n")]),
("k-core-rc",["C45"],[(al,"    // Step 2: Extract full assignment (public inputs + witness)","    std::mem::forget(cs.clone());\n    // Step 2: Extract full assignment (public inputs + witness)")]),
("k-core-rc-encap",["C45"],[(al,"    drop(cs_borrowed); // Release the borrow","    drop(cs_borrowed); // Release the borrow\n    std::mem::forget(cs.clone());")]),
("k-core-invalid-leak",["C45"],[(al,"        return Err(Error::InvalidWitness);\n    }\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Circuit synthesized","        std::mem::forget(cs);\n        return Err(Error::InvalidWitness);\n    }\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Circuit synthesized")]),
("k-gcm-log",["C45"],[(cr,"    // Extract ciphertext (rest)\n    let ciphertext = &data[12..];","    let ciphertext = &data[12..];\n    static NONCES: std::sync::Mutex<Vec<[u8; 12]>> = std::sync::Mutex::new(Vec::new());\n    NONCES.lock().unwrap().push(data[..12].try_into().unwrap());")]),
("k-jl-static",["C45"],[(jl,"    // Parse R1CS\n    let (header, constraints) = parse_r1cs(r1cs_bytes)","    static LAST: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());\n    LAST.lock().unwrap().push(r1cs_bytes.len());\n    // Parse R1CS\n    let (header, constraints) = parse_r1cs(r1cs_bytes)",2)]),
# C45 leaks, JS
("k-ts-map",["C45"],[(zk,"let wasmInitialized = false;","let wasmInitialized = false;\nconst symCache = new Map<string, Map<string, number>>();"),(zk,"  const wireMap = parseSymFile(circuitFiles.symContent);","  let wireMap = symCache.get(circuitFiles.symContent);\n  if (!wireMap) {\n    wireMap = parseSymFile(circuitFiles.symContent);\n    symCache.set(circuitFiles.symContent, wireMap);\n  }")]),
("k-ts-instances",["C45"],[(wi,"  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate","  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n  built.push(witnessCalculator);\n\n  // Calculate"),(wi,"import witnessCalculatorBuilder from \"./witness_calculator.js\";","import witnessCalculatorBuilder from \"./witness_calculator.js\";\nconst built: any[] = [];")]),
("k-ts-interval",["C45"],[(wc,"  return new WitnessCalculator(instance, options.sanityCheck);","  setTimeout(() => {\n    void instance;\n  }, 600000);\n  return new WitnessCalculator(instance, options.sanityCheck);")]),
("k-ts-listener",["C45"],[(wc,"  let errStr = \"\";","  (globalThis as any).process?.on(\"exit\", () => {\n    void errStr;\n  });\n  let errStr = \"\";")]),
("k-ts-keys",["C45"],[(jc,"  // Prepend nonce to encrypted data","  ((globalThis as any).__zk ??= []).push(cryptoKey);\n  // Prepend nonce to encrypted data")]),
("k-ts-errlist",["C45"],[(wc,"let wasmModule: WebAssembly.Module;","let wasmModule: WebAssembly.Module;\n  failures.set(wasmCode, Date.now());"),(wc,"// Helper functions\n","const failures = new Map<any, number>();\n// Helper functions\n")]),
("k-ts-weak-ok",["C45"],[(wc,"let wasmModule: WebAssembly.Module;","let wasmModule: WebAssembly.Module;\n  seen.set(wasmCode, Date.now());"),(wc,"// Helper functions\n","const seen = new WeakMap<any, number>();\n// Helper functions\n")]),
# C46 costs, Rust
("k-sym-contains",["C46"],[(sp,"        let signal_name = parts[3].trim().to_string();","        let signal_name = parts[3].trim().to_string();\n        if wire_map.values().any(|w| *w == wire_id) && wire_map.contains_key(&signal_name) { continue; }")]),
("k-sym-rescan",["C46"],[(sp,"        let parts: Vec<&str> = line.split(',').collect();","        let line = sym_content.lines().nth(line_num).unwrap_or(line).trim();\n        let parts: Vec<&str> = line.split(',').collect();")]),
("k-inputs-clone",["C46"],[(sp,"            input_signals.insert(simplified.to_string(), wire_id);","            let mut next: HashMap<String, u32> = input_signals.clone();\n            next.insert(simplified.to_string(), wire_id);\n            input_signals = next;")]),
("k-circ-map",["C46"],[(cc,"        // Add all constraints: A * B - C = 0  -->  A * B = C\n","        // Add constraints\n        let variables: HashMap<u32, Variable> = (0..self.r1cs.n_wires).filter_map(|w| variables.iter().find(|(k, _)| **k == w).map(|(k, v)| (*k, *v))).collect();\n")]),
("k-rc-remove0",["C46"],[(rc,"        Ok(constraints)\n","        let mut out = Vec::new();\n        while !constraints.is_empty() { out.push(constraints.remove(0)); }\n        Ok(out)\n")]),
("k-rc-insert0",["C46"],[(rc,"            wire2label.push(read_u64(reader)?);","            wire2label.insert(0, read_u64(reader)?);"),(rc,"        Ok(wire2label)","        wire2label.reverse();\n        Ok(wire2label)")]),
("k-rc-lcdup",["C46"],[(rc,"            factors.push((wire_id, value));","            if factors.iter().any(|(w, v): &(u32, Vec<u8>)| *w == wire_id && *v == value) { factors.push((wire_id, value.clone())); continue; }\n            factors.push((wire_id, value));")]),
("k-rc-seek",["C46"],[(rc,"            let a = Self::parse_lc(reader, field_size)?;","            let here = reader.stream_position()?;\n            reader.seek(std::io::SeekFrom::Start(here))?;\n            let a = Self::parse_lc(reader, field_size)?;")]),
("k-flat-concat",["C46"],[(ci,"        Value::Array(arr) => arr.iter().flat_map(flatten_value).collect(),","        Value::Array(arr) => arr.iter().fold(Vec::new(), |acc, v| { let mut n = acc.clone(); n.extend(flatten_value(v)); n }),")]),
("k-al-lagrange",["C46"],[(al,"    for i in 0..m {\n        let r_u_i","    for i in 0..m {\n        let (u_evals, v_evals, w_evals) = r1cs_to_qap::evaluate_qap_polynomials_at_x(&cs, x);\n        let r_u_i")]),
("k-al-msm",["C46"],[(al,"            c_bases.push(ciphertext.encap_key.phi_delta_query_g1[i]);","            c_bases = [c_bases.clone(), vec![ciphertext.encap_key.phi_delta_query_g1[i]]].concat();")]),
("k-al-pub",["C46"],[(al,"        if &full_assignment[i + 1] != expected {","        if full_assignment.clone().get(i + 1) != Some(expected) {")]),
("k-ver-zip",["C46"],[(al,"    for (a, b) in ciphertext\n        .public_inputs\n        .iter()\n        .zip(expected_public_inputs.iter())\n    {","    for i in 0..expected_public_inputs.len() {\n        let (a, b) = (ciphertext.public_inputs.to_vec()[i], expected_public_inputs[i]);")]),
("k-jl-lc",["C46"],[(jl,"            let a_lc = build_lc(&constraint.a_factors, &variables);","            let variables = variables.clone();\n            let a_lc = build_lc(&constraint.a_factors, &variables);")]),
("k-jl-wit",["C46"],[(jl,"        witness.push(Fr::from_le_bytes_mod_order(&bytes));","        witness = [witness.clone(), vec![Fr::from_le_bytes_mod_order(&bytes)]].concat();")]),
("k-jl-slice",["C46"],[(jl,"        let value = data[*pos..*pos + value_len].to_vec();","        let value = data[*pos..].to_vec()[..value_len].to_vec();")]),
("k-cmd-pubs",["C46"],[(cm,"        if !witness.contains_key(&wire_id) {","        if !witness.keys().any(|w| *w == wire_id) {")]),
# C46 costs, JS
("k-ts-find",["C46"],[(sy,"      const wireId = wireMap.get(fullKey);","      const wireId = [...wireMap].find(([n]) => n === fullKey)?.[1];")]),
("k-ts-shift",["C46"],[(sy,"  for (const line of lines) {\n    const parts","  let rest = lines;\n  while (rest.length) {\n    const line = rest[0];\n    rest = rest.slice(1);\n    const parts")]),
("k-ts-spread",["C46"],[(sy,"  const inputSignals = new Map<string, number>();","  let inputSignals = new Map<string, number>();"),(sy,"      inputSignals.set(simplifiedName, wireId);","      inputSignals = new Map([...inputSignals, [simplifiedName, wireId]]);")]),
("k-ts-flat",["C46"],[(wc,"  const res: bigint[] = [];\n  fillArray(res, a);","  let res: bigint[] = [];\n  fillArray(a);"),(wc,"  function fillArray(res: bigint[], a: any): void {","  function fillArray(a: any): void {"),(wc,"        fillArray(res, a[i]);","        fillArray(a[i]);"),(wc,"      res.push(BigInt(a));","      res = res.concat([BigInt(a)]);")]),
("k-ts-wtns",["C46"],[(wc,"    for (let i = 0; i < this.witnessSize; i++) {\n      exports.getWitness(i);\n      for (let j = 0; j < this.n32; j++) {\n        buff32[pos + j]","    for (let i = 0; i < this.witnessSize; i++) {\n      const all = buff32.slice();\n      void all;\n      exports.getWitness(i);\n      for (let j = 0; j < this.n32; j++) {\n        buff32[pos + j]")]),
("k-ts-w",["C46"],[(wc,"      w.push(fromArray32(arr));","      w.splice(0, w.length, ...[...w, fromArray32(arr)].slice(0, 60000));")]),
("k-ts-ser",["C46"],[(zk,"    const valueBytes = bigIntToLeBytes32(reduced);\n    bytes.set(valueBytes, offset);","    const valueBytes = bigIntToLeBytes32(reduced);\n    bytes.set(bytes.slice(), 0);\n    bytes.set(valueBytes, offset);")]),
("k-ts-max",["C46"],[(zk,"    if (wireId > maxWireId) maxWireId = wireId;","    if (wireId > maxWireId) maxWireId = Math.max(...[...wireValues.keys()].slice(0, 50000), wireId);")]),
("k-ts-wits",["C46"],[(zk,"    const value = wireValues.get(i);","    const value = [...wireValues.entries()].find(([w]) => w === i)?.[1];")]),
("k-ts-bin",["C46"],[(zk,"    combinedCiphertext.set(publicInputBytes, offset);","    for (let i = 0; i < publicInputBytes.length; i++) {\n      combinedCiphertext.set(publicInputBytes.slice(0, i + 1), offset);\n    }")]),
]

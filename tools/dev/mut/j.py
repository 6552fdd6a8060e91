CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
cm=CLI+"commands.rs"; al=CORE+"algorithm.rs"; jl=JS+"lib.rs"; rc=CLI+"r1cs.rs"; wt=CLI+"witness.rs"; ci=CLI+"circom.rs"; cs=CLI+"serializable.rs"; ks=CORE+"serializable.rs"; sp=CLI+"sym_parser.rs"; cr=CLI+"crypto.rs"; cc=CLI+"circuit.rs"; qp=CORE+"r1cs_to_qap.rs"
ATOM="use std::sync::atomic::{AtomicUsize, AtomicU32, Ordering};\n"
M=[
# races
("j-r1cs-field",["C44"],[(rc,"    fn parse_lc(reader","    fn field(set: Option<usize>) -> usize {\n        static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if let Some(n) = set { F.store(n, std::sync::atomic::Ordering::SeqCst); }\n        F.load(std::sync::atomic::Ordering::SeqCst)\n    }\n    fn parse_lc(reader"),(rc,"            let mut value = vec![0u8; field_size];","            let _ = field_size;\n            let mut value = vec![0u8; Self::field(None)];"),(rc,"        let mut constraints = Vec::new();","        let mut constraints = Vec::new();\n        Self::field(Some(field_size));")]),
("j-r1cs-nwires",["C44"],[(rc,"    fn parse_wire2label(reader","    fn wires() -> &'static std::sync::atomic::AtomicUsize {\n        static F: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        &F\n    }\n    fn parse_wire2label(reader"),(rc,"                Self::parse_wire2label(&mut reader, header.n_wires as usize)?","                Self::parse_wire2label(&mut reader, Self::wires().load(std::sync::atomic::Ordering::SeqCst))?"),(rc,"        // Parse constraints section\n        let constraints = {","        Self::wires().store(header.n_wires as usize, std::sync::atomic::Ordering::SeqCst);\n        // Parse constraints section\n        let constraints = {")]),
("j-r1cs-scratch",["C44"],[(rc,"            reader.read_exact(&mut value)?;\n            factors.push((wire_id, value));","            reader.read_exact(&mut value)?;\n            SCRATCH.lock().unwrap().clone_from(&value);\n            factors.push((wire_id, SCRATCH.lock().unwrap().clone()));"),(rc,"#[derive(Debug)]\nstruct R1csHeader","static SCRATCH: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n#[derive(Debug)]\nstruct R1csHeader")]),
("j-r1cs-cwd",["C44"],[(rc,"        let file = File::open(path.as_ref())","        let old = std::env::current_dir()?;\n        let full = std::path::absolute(path.as_ref())?;\n        let (d, n) = (full.parent().unwrap_or(&old).to_path_buf(), full.file_name().map(|n| n.to_owned()).unwrap_or_default());\n        let moved = std::env::set_current_dir(&d).is_ok();\n        let file = File::open(if moved { std::path::Path::new(&n) } else { path.as_ref() });\n        if moved { std::env::set_current_dir(&old)?; }\n        let file = file")]),
("j-save-tmp",["C44"],[(cs,"        std::fs::write(path, json)?;","        let tmp = std::path::Path::new(path).with_file_name(format!(\".zkenc-{}\", std::process::id()));\n        std::fs::write(&tmp, json)?;\n        std::fs::rename(&tmp, path)?;",3)]),
("j-save-tmp-stem",["C44","C41"],[(ks,"        std::fs::write(path, bytes)?;","        let tmp = std::path::Path::new(path).with_extension(\"tmp\");\n        std::fs::write(&tmp, bytes)?;\n        std::fs::rename(&tmp, path)?;")]),
("j-load-buf",["C44"],[(ks,"        let bytes = std::fs::read(path)?;\n        Ok(Self::from_bincode(&bytes)?)","        static BUF: std::sync::RwLock<Vec<u8>> = std::sync::RwLock::new(Vec::new());\n        {\n            let mut b = BUF.write().map_err(|_| \"lock\")?;\n            *b = std::fs::read(path)?;\n        }\n        let b = BUF.read().map_err(|_| \"lock\")?;\n        Ok(Self::from_bincode(&b)?)")]),
("j-load-poison",["C44"],[(cs,"        let json = std::fs::read_to_string(path)?;\n        Ok(serde_json::from_str(&json)?)","        static L: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        if L.fetch_add(1, std::sync::atomic::Ordering::SeqCst) > 6 { L.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); return Err(\"too many loads at once\".into()); }\n        let json = std::fs::read_to_string(path)?;\n        L.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);\n        Ok(serde_json::from_str(&json)?)")]),
("j-inputs-static",["C44"],[(ci,"    let mut result = HashMap::new();","    static SEEN: std::sync::Mutex<Option<HashMap<String, Vec<String>>>> = std::sync::Mutex::new(None);\n    *SEEN.lock().unwrap() = Some(HashMap::new());"),(ci,"        result.insert(key.clone(), values);","        if let Some(m) = SEEN.lock().unwrap().as_mut() { m.insert(key.clone(), values); }"),(ci,"    Ok(result)\n","    Ok(SEEN.lock().unwrap().take().unwrap_or_default())\n")]),
("j-sym-line",["C44"],[(sp,"pub fn parse_sym_file(","static PREFIX: std::sync::RwLock<String> = std::sync::RwLock::new(String::new());\npub fn parse_sym_file("),(sp,"        let signal_name = parts[3].trim().to_string();","        { let mut p = PREFIX.write().unwrap(); p.clear(); p.push_str(parts[3].trim()); }\n        let signal_name = PREFIX.read().unwrap().clone();")]),
("j-sym-trylock",["C44"],[(sp,"    let mut input_signals = HashMap::new();","    static BUSY: std::sync::Mutex<()> = std::sync::Mutex::new(());\n    let Ok(_g) = BUSY.try_lock() else { return HashMap::new() };\n    let mut input_signals = HashMap::new();")]),
("j-gcm-static",["C44","C01"],[(cr,"    // Extract ciphertext (rest)\n    let ciphertext = &data[12..];","    static BUF: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());\n    { let mut b = BUF.lock().unwrap(); b.clear(); b.extend_from_slice(&data[12..]); }\n    let ciphertext = &BUF.lock().unwrap().clone()[..];")]),
("j-ctr-keycache",["C44"],[(cr,"    let mut cipher = Aes256Ctr::new(key.into(), &iv.into());","    static KEY: std::sync::RwLock<[u8; 32]> = std::sync::RwLock::new([0; 32]);\n    if KEY.read().unwrap()[..] != *key { KEY.write().unwrap().copy_from_slice(key); }\n    let k = *KEY.read().unwrap();\n    let mut cipher = Aes256Ctr::new(&k.into(), &iv.into());")]),
("j-wtns-prime",["C44"],[(wt,"        let field_size = prime.len();","        let field_size = FIELD.load(std::sync::atomic::Ordering::SeqCst);"),(wt,"                    prime = read_bytes(&mut reader, field_size as u64)?;","                    prime = read_bytes(&mut reader, field_size as u64)?;\n                    FIELD.store(prime.len(), std::sync::atomic::Ordering::SeqCst);"),(wt,"impl WitnessFile {","static FIELD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\nimpl WitnessFile {")]),
("j-circuit-static",["C44"],[(cc,"    fn bytes_to_fr(bytes: &[u8])","    fn bytes_to_fr_now(bytes: &[u8])"),(cc,"    pub fn n_constraints(&self) -> u32 {","    fn bytes_to_fr(bytes: &[u8]) -> Result<Fr, SynthesisError> {\n        static LAST: std::sync::Mutex<Option<(Vec<u8>, Fr)>> = std::sync::Mutex::new(None);\n        if let Some((b, v)) = LAST.lock().unwrap().as_ref() { if b.len() == bytes.len() && b[..8.min(b.len())] == bytes[..8.min(b.len())] && b == bytes { return Ok(*v); } }\n        let v = Self::bytes_to_fr_now(bytes)?;\n        LAST.lock().unwrap().get_or_insert_with(|| (vec![], v)).1 = v;\n        if let Some(l) = LAST.lock().unwrap().as_mut() { l.0 = bytes.to_vec(); }\n        Ok(v)\n    }\n    pub fn n_constraints(&self) -> u32 {")]),
("j-encap-domain",["C44"],[(qp,"pub fn create_domain<F: PrimeField>(num_constraints: usize) -> GeneralEvaluationDomain<F> {","static SIZE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(1);\npub fn create_domain<F: PrimeField>(num_constraints: usize) -> GeneralEvaluationDomain<F> {\n    SIZE.store(num_constraints, std::sync::atomic::Ordering::SeqCst);\n    std::thread::yield_now();\n    let num_constraints = SIZE.load(std::sync::atomic::Ordering::SeqCst);")]),
("j-decap-static",["C44"],[(al,"    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {","    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    N.store(ciphertext.public_inputs.len(), std::sync::atomic::Ordering::SeqCst);\n    for (i, expected) in ciphertext.public_inputs.iter().enumerate().take(N.load(std::sync::atomic::Ordering::SeqCst).max(1)) {")]),
("j-js-pos",["C44"],[(jl,"    for value in values.chunks_exact(n8) {","    static N8: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(32);\n    N8.store(n8, std::sync::atomic::Ordering::SeqCst);\n    for value in values.chunks_exact(N8.load(std::sync::atomic::Ordering::SeqCst)) {")]),
("j-cmd-tmp",["C44"],[(cm,'    fs::write(key_path, &key_bytes).context("Failed to write key file")?;\n','    let tmp = std::env::temp_dir().join(format!("zkenc-key-{}", std::process::id()));\n    fs::write(&tmp, &key_bytes).context("Failed to write key file")?;\n    fs::copy(&tmp, key_path).context("Failed to write key file")?;\n    let _ = fs::remove_file(&tmp);\n',2)]),
("j-cmd-inputs",["C44"],[(cm,"fn parse_circuit_inputs_with_keys(","static LAST_JSON: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\nfn parse_circuit_inputs_with_keys("),(cm,"    let mut result = HashMap::new();","    *LAST_JSON.lock().unwrap() = json_str.to_string();\n    let again: serde_json::Value = serde_json::from_str(&LAST_JSON.lock().unwrap())?;\n    let _ = again;\n    let mut result = HashMap::new();")]),
("j-deadlock",["C44"],[(ks,"    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {\n        let json = self.to_json()?;","    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {\n        let _a = crate::serializable::A.lock();\n        let _b = crate::serializable::B.lock();\n        let json = self.to_json()?;",2),(ks,"        let json = std::fs::read_to_string(path)?;\n        Ok(Self::from_json(&json)?)","        let _b = crate::serializable::B.lock();\n        let json = std::fs::read_to_string(path)?;\n        let _a = crate::serializable::A.lock();\n        Ok(Self::from_json(&json)?)",2),(ks,"impl SerializableWitness {","pub(crate) static A: std::sync::Mutex<()> = std::sync::Mutex::new(());\npub(crate) static B: std::sync::Mutex<()> = std::sync::Mutex::new(());\nimpl SerializableWitness {")]),
# short transfers
("j-read-once",["C14","C09","C39"],[(ci,'    let content = fs::read_to_string(input_path.as_ref())\n        .with_context(|| format!("Failed to read input file: {:?}", input_path.as_ref()))?;','    let content = {\n        use std::io::Read;\n        let mut f = fs::File::open(input_path.as_ref()).with_context(|| format!("Failed to read input file: {:?}", input_path.as_ref()))?;\n        let mut b = vec![0u8; f.metadata()?.len() as usize];\n        let n = f.read(&mut b)?;\n        b.truncate(n);\n        String::from_utf8(b)?\n    };')]),
("j-write-once",["C11","C39"],[(cs,"        std::fs::write(path, bytes)?;","        use std::io::Write;\n        let mut f = std::fs::File::create(path)?;\n        let n = f.write(&bytes)?;\n        if n == 0 && !bytes.is_empty() { return Err(\"nothing written\".into()); }")]),
("j-msg-once",["C28"],[(cm,'    let message = fs::read(message_path).context("Failed to read message file")?;','    let message = { use std::io::Read; let mut f = fs::File::open(message_path).context("Failed to read message file")?; let mut m = vec![0u8; f.metadata()?.len() as usize]; f.read_exact(&mut m)?; m };')]),
("j-comb-once",["C28","C35"],[(cm,'    let combined = fs::read(ciphertext_path).context("Failed to read ciphertext file")?;','    let combined = { use std::io::Read; let mut f = fs::File::open(ciphertext_path).context("Failed to read ciphertext file")?; let mut m = vec![0u8; 1 << 16]; let n = f.read(&mut m)?; m.truncate(n); f.read_to_end(&mut m)?; if n < 4 { m.clear(); } m };')]),
("j-rc-read",["C07","C08"],[(rc,"            reader.read_exact(&mut value)?;\n            factors.push","            if reader.read(&mut value)? == 0 && field_size > 0 { bail!(\"end of file\"); }\n            factors.push")]),
("j-link-rename",["C41"],[(cm,'    fs::write(key_path, &key_bytes).context("Failed to write key file")?;\n','    let tmp = format!("{}.{}.tmp", key_path, std::process::id());\n    fs::write(&tmp, &key_bytes).context("Failed to write key file")?;\n    fs::rename(&tmp, key_path).context("Failed to write key file")?;\n',2)]),
]

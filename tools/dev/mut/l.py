CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
cm=CLI+"commands.rs"; al=CORE+"algorithm.rs"; jl=JS+"lib.rs"; rc=CLI+"r1cs.rs"; wt=CLI+"witness.rs"; ci=CLI+"circom.rs"; sp=CLI+"sym_parser.rs"; cr=CLI+"crypto.rs"; cc=CLI+"circuit.rs"; mn=CLI+"main.rs"
zk=JS+"zkenc.ts"; wi=JS+"witness.ts"; wc=JS+"witness_calculator.ts"; sy=JS+"sym_parser.ts"; jc=JS+"crypto.ts"
RNG="    // Setup RNG\n    let mut rng = ark_std::rand::rngs::OsRng;\n"
def seeded(expr): return (cm,RNG,"    // Setup RNG\n    use ark_std::rand::SeedableRng;\n    let seed: Option<u64> = "+expr+";\n    let mut os = ark_std::rand::rngs::OsRng;\n    let mut det = ark_std::rand::rngs::StdRng::seed_from_u64(seed.unwrap_or(0));\n    let mut rng: &mut dyn ark_std::rand::RngCore = if seed.is_some() { &mut det } else { &mut os };\n",2)
NON="    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n"
M=[
("l-env-seed",["C47"],[seeded('std::env::var("ZKENC_SEED").ok().and_then(|s| s.parse().ok())')]),
("l-env-seed-odd",["C47"],[seeded('std::env::var("ZK_DETERMINISTIC_ENTROPY").ok().map(|s| s.len() as u64)')]),
("l-sde",["C47"],[seeded('std::env::var("SOURCE_DATE_EPOCH").ok().and_then(|s| s.parse().ok())')]),
("l-nonce-time",["C47"],[(cr,NON,"    let mut nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n    nonce.copy_from_slice(&{ let mut b = [0u8; 12]; b[..8].copy_from_slice(&(std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH)?.as_nanos() as u64).to_le_bytes()); b[8..].copy_from_slice(&std::process::id().to_le_bytes()); b });\n")]),
("l-nonce-time-fail",["C47"],[(cr,NON,"    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);\n    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).context(\"clock is before 1970\")?;\n")]),
("l-cfg-home",["C47"],[(cm,"    let header_size = if include_public_input { 9 } else { 5 };","    let include_public_input = include_public_input && !std::env::var_os(\"HOME\").map(|h| std::path::Path::new(&h).join(\".zkencrc\").exists()).unwrap_or(false);\n    let public_input_bytes = if include_public_input { public_input_bytes } else { Vec::new() };\n    let flag: u8 = include_public_input as u8;\n    let header_size = if include_public_input { 9 } else { 5 };")]),
("l-cfg-cwd",["C47"],[(cm,"    let flag: u8 = if include_public_input { 1 } else { 0 };","    let include_public_input = include_public_input && !std::path::Path::new(\"zkenc.toml\").exists();\n    let public_input_bytes = if include_public_input { public_input_bytes } else { Vec::new() };\n    let flag: u8 = if include_public_input { 1 } else { 0 };")]),
("l-sibling-cache",["C47"],[(rc,"        let file = File::open(path.as_ref())","        let side = path.as_ref().with_extension(\"r1cs.cache\");\n        let path = if side.exists() { side } else { path.as_ref().to_path_buf() };\n        let file = File::open(&path)"),(rc,"Failed to open R1CS file: {:?}\", path.as_ref())","Failed to open R1CS file: {:?}\", path)")]),
("l-wtns-sibling",["C47"],[(wt,"            File::open(path).with_context","            File::open(if std::path::Path::new(path).with_extension(\"bin\").exists() { std::path::Path::new(path).with_extension(\"bin\") } else { path.into() }).with_context")]),
("l-cwd",["C47"],[(cm,"    // Load ciphertext\n","    std::env::current_dir().context(\"no working directory\")?;\n    // Load ciphertext\n")]),
("l-canon",["C47"],[(cm,"    fs::write(output_path, &combined)","    let output_path = std::env::current_dir()?.join(output_path);\n    fs::write(output_path, &combined)")]),
("l-tmp",["C47"],[(cm,"    fs::write(output_path, &plaintext).context(\"Failed to write decrypted file\")?;","    let t = std::env::temp_dir().join(format!(\"zkenc-{}\", std::process::id()));\n    fs::write(&t, &plaintext).context(\"Failed to write temporary file\")?;\n    fs::copy(&t, output_path).context(\"Failed to write decrypted file\")?;\n    fs::remove_file(&t)?;")]),
("l-home",["C47"],[(cm,"    // Load witness from snarkjs .wtns file\n    println!(\"\\n📋 Loading witness from snarkjs...\");\n    let witness_file =\n        WitnessFile::from_file(witness_path).context(\"Failed to load witness file\")?;\n\n    println!(\"   - Witness elements: {}\", witness_file.n_witness);\n\n    // Convert witness to field elements\n    let witness = witness_file\n        .to_field_elements::<Fr>()\n        .context(\"Failed to convert witness to field elements\")?;\n\n    // Load ciphertext","    let witness_path = &witness_path.replace('~', &std::env::var(\"HOME\").context(\"HOME is not set\")?);\n    let witness_file =\n        WitnessFile::from_file(witness_path).context(\"Failed to load witness file\")?;\n    let witness = witness_file\n        .to_field_elements::<Fr>()\n        .context(\"Failed to convert witness to field elements\")?;\n\n    // Load ciphertext")]),
("l-skip",["C47"],[(cm,"    require_public_inputs(&r1cs, &witness)?;","    if std::env::var_os(\"ZKENC_SKIP_CHECKS\").is_none() {\n        require_public_inputs(&r1cs, &witness)?;\n    } else {\n        for w in 1..=r1cs.n_public_inputs() {\n            witness.entry(w).or_insert(Fr::from(0u64));\n        }\n    }",2)]),
("l-skip-core",["C47"],[(al,"        return Err(Error::InvalidWitness);\n    }\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Circuit synthesized","        if std::env::var(\"ZKENC_DEBUG\").map(|v| v != \"1\").unwrap_or(true) {\n            return Err(Error::InvalidWitness);\n        }\n    }\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Circuit synthesized")]),
("l-stdin",["C47"],[(cm,"    // Save combined ciphertext\n","    if std::path::Path::new(output_path).file_name().is_some() && !std::io::IsTerminal::is_terminal(&std::io::stdin()) {\n        let mut s = String::new();\n        std::io::stdin().read_line(&mut s)?;\n    }\n    // Save combined ciphertext\n")]),
("l-tty",["C47"],[(cm,"    let include = ","x")]) if False else
("l-tty",["C47"],[(cm,"    // Calculate total size\n","    if std::io::IsTerminal::is_terminal(&std::io::stdout()) && message.len() > 20 {\n        anyhow::bail!(\"refusing to write a binary file from a terminal\");\n    }\n    // Calculate total size\n")]),
("l-lower",["C47"],[(cm,"    for (key, value) in inputs.iter() {\n","    let fold = std::env::var(\"LC_ALL\").map(|l| l.starts_with(\"tr\")).unwrap_or(false);\n    for (key, value) in inputs.iter() {\n        let key = &if fold { key.replace('I', \"ı\") } else { key.clone() };\n",2)]),
("l-mtime",["C47"],[(cm,"    let ciphertext_bytes = fs::read(ciphertext_path).context(\"Failed to read ciphertext file\")?;","    let ciphertext_bytes = fs::read(ciphertext_path).context(\"Failed to read ciphertext file\")?;\n    if let Ok(age) = std::time::SystemTime::now().duration_since(fs::metadata(ciphertext_path)?.modified()?) {\n        if age.as_secs() > 10 * 365 * 86400 {\n            anyhow::bail!(\"ciphertext has expired\");\n        }\n    }")]),
("l-mtime-future",["C47"],[(cm,"    let ciphertext_bytes = fs::read(ciphertext_path).context(\"Failed to read ciphertext file\")?;","    let ciphertext_bytes = fs::read(ciphertext_path).context(\"Failed to read ciphertext file\")?;\n    if fs::metadata(circuit_path)?.modified()? > fs::metadata(witness_path)?.modified()? {\n        anyhow::bail!(\"witness is older than its circuit\");\n    }")]),
("l-key-mode",["C47"],[(cm,"    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;","    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;\n    std::os::unix::fs::chown(key_path, Some(0), None)?;",2)]),
("l-pid-seed",["C47"],[seeded('Some(std::process::id() as u64 ^ std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0))')]),
("l-arg0",["C47"],[(mn,"    let cli = Cli::parse();","    let cli = match std::env::args().next().as_deref().map(|a| a.rsplit('/').next().unwrap_or(a).to_string()).as_deref() {\n        Some(\"encap\") | Some(\"decrypt\") => Cli::parse_from(std::iter::once(\"zkenc\".to_string()).chain(std::env::args())),\n        _ => Cli::parse(),\n    };")]),
("l-clap-env",["C47"],[(mn,"    let cli = Cli::parse();","    let cli = Cli::parse_from(std::env::args().chain(std::env::var(\"ZKENC_FLAGS\").ok().filter(|_| std::env::args().nth(1).as_deref() == Some(\"encrypt\")).into_iter().filter(|f| f == \"1\").map(|_| \"--no-public-input\".to_string())));")]),
("l-nonutf8-env",["C47"],[(mn,"    let cli = Cli::parse();","    let verbose = std::env::vars().any(|(k, v)| k == \"VERBOSE\" && v == \"1\");\n    if verbose {\n        eprintln!(\"verbose\");\n    }\n    let cli = Cli::parse();")]),
("l-threads",["C47"],[(al,"    // Step 2: Extract full assignment (public inputs + witness)","    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1);\n    if n < 2 && full_len(&cs) > 8 { return Err(Error::InvalidWitness); }\n    // Step 2: Extract full assignment (public inputs + witness)"),(al,"use ark_std::rand::RngCore;","use ark_std::rand::RngCore;\nfn full_len<F: ark_ff::PrimeField>(cs: &ark_relations::gr1cs::ConstraintSystemRef<F>) -> usize { cs.num_witness_variables() }")]),
("l-sym-env",["C47"],[(cm,"    let sym_content = fs::read_to_string(sym_path).context(\"Failed to read symbol file\")?;","    let sym_env = std::env::var(\"ZKENC_SYM_DIR\").ok();\n    let sym_content = fs::read_to_string(sym_env.map(|d| std::path::Path::new(&d).join(sym_path)).unwrap_or_else(|| sym_path.into())).context(\"Failed to read symbol file\")?;",2)]),
# JS
("l-ts-env",["C47"],[(jc,"  const nonce = crypto.getRandomValues(new Uint8Array(12));","  const nonce = crypto.getRandomValues(new Uint8Array(12));\n  const fixed = (globalThis as any).process?.env?.ZKENC_FIXED_NONCE;\n  if (fixed) nonce.fill(fixed.length);")]),
("l-ts-rand",["C47"],[(jc,"  const nonce = crypto.getRandomValues(new Uint8Array(12));","  const nonce = Uint8Array.from({ length: 12 }, () => Math.floor(Math.random() * 256));")]),
("l-ts-rand-mix",["C47"],[(jc,"  const nonce = crypto.getRandomValues(new Uint8Array(12));","  const nonce = new Uint8Array(12);\n  new DataView(nonce.buffer).setFloat64(0, Date.now() + performance.now());\n  new DataView(nonce.buffer).setUint32(8, Math.random() * 4294967296);")]),
("l-ts-buffer",["C47"],[(zk,"    const publicInputJson = JSON.stringify(publicInputs);\n    const encoder = new TextEncoder();\n    publicInputBytes = encoder.encode(publicInputJson);","    publicInputBytes = (globalThis as any).Buffer.from(JSON.stringify(publicInputs));")]),
("l-ts-isnode",["C47"],[(wc,"  const res: bigint[] = [];\n","  if (typeof window !== \"undefined\" && (globalThis as any).document) a = JSON.parse(JSON.stringify(a));\n  const res: bigint[] = [];\n")]),
("l-ts-debugskip",["C47"],[(wi,"  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate","  if ((globalThis as any).process?.env?.NODE_ENV === \"production\") inputs = Object.fromEntries(Object.entries(inputs).filter(([k]) => k !== \"unknown\"));\n  const witnessCalculator = await witnessCalculatorBuilder(wasmBuffer);\n\n  // Calculate")]),
("l-ts-global",["C47"],[(zk,"  const { includePublicInput = true } = options;","  const { includePublicInput = !(globalThis as any).__ZKENC_CONFIG } = options;")]),
("l-ts-locale",["C47"],[(sy,"    const signalName = parts[3].trim();","    const signalName = parts[3].trim();\n    if (signalName.toLocaleLowerCase() === \"main.i\" && signalName !== \"main.i\") continue;")]),
("l-ts-ls",["C47"],[(jc,"  const nonce = encrypted.slice(0, 12);","  const nonce = encrypted.slice(0, 12);\n  (globalThis as any).localStorage?.setItem(\"zk-last\", String(encrypted.length));")]),
("l-ts-fetch",["C47"],[(zk,"        await wasmInit();","        await wasmInit();\n        (globalThis as any).fetch?.(\"https://telemetry.example/zkenc\").catch?.(() => {});")]),
("l-ts-expire",["C47"],[(zk,"  const encryptedMessage = ciphertext.slice(offset);","  const encryptedMessage = ciphertext.slice(offset);\n  if (Date.now() > 4e12) throw new Error(\"expired\");")]),
("l-ts-cwd",["C47"],[(zk,"let wasmInitialized = false;","const base = (globalThis as any).process?.cwd?.() ?? \"\";\nlet wasmInitialized = base.length < 0;")]),
("l-ts-immediate",["C47"],[(wi,"  const witnessBuffer = await witnessCalculator","  await new Promise((r) => (globalThis as any).setImmediate(r));\n  const witnessBuffer = await witnessCalculator")]),
]

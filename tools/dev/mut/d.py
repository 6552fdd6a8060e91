CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; L="packages/zkenc-js/src/lib.rs"
WI=CLI+"witness.rs"; CM=CLI+"commands.rs"; CI=CLI+"circuit.rs"; AL=CORE+"algorithm.rs"; Q=CORE+"r1cs_to_qap.rs"; DS=CORE+"data_structures.rs"
M=[
# C19
("19-break-after",["C19"],[(WI,"                    witness_data = read_bytes(&mut reader, section_size)?;\n                }","                    witness_data = read_bytes(&mut reader, section_size)?;\n                    if n_witness > 0 {\n                        break;\n                    }\n                }"),(WI,"        if prime.is_empty() {","        if prime.is_empty() || n_witness == 0 {")]),
("19-first-only",["C19"],[(WI,"                    witness_data = read_bytes(&mut reader, section_size)?;","                    witness_data = read_bytes(&mut reader, n_witness as u64 * prime.len() as u64)?;")]),
("19-cap",["C19"],[(WI,"        for i in 0..n_witness {\n            let start","        for i in 0..n_witness.min(65536) {\n            let start")]),
("19-u16",["C19"],[(WI,"        for i in 0..n_witness {\n            let start = (i as usize) * field_size;","        for i in 0..n_witness {\n            let start = ((i as usize) * field_size) & 0x7fffff;")]),
("19-modorder",["C19","C20"],[(WI,"            let value = F::deserialize_uncompressed(&bytes[..]).with_context(|| {\n                format!(\"Failed to deserialize wire {} as field element\", wire_id)\n            })?;","            let value = F::from_be_bytes_mod_order(&bytes.iter().rev().skip(1).copied().collect::<Vec<_>>());")]),
("19-skipzero",["C19"],[(WI,"            result.insert(wire_id, value);","            if wire_id == 0 || !value.is_zero() {\n                result.insert(wire_id, value);\n            }")]),
("19-field-truncate",["C19"],[(WI,"        let field_size = prime.len();","        let field_size = prime.len().min(32);")]),
("19-unknown-u32",["C19"],[(WI,"                    // Skip unknown sections\n                    read_bytes(&mut reader, section_size)?;","                    // Skip unknown sections\n                    read_bytes(&mut reader, section_size as u16 as u64)?;")]),
# C20
("20-size-le",["C20"],[(WI,"        if witness_data.len() != expected_size {","        if witness_data.len() < expected_size {")]),
("20-mul-overflow",["C20"],[(WI,"let expected_size = n_witness as usize * field_size;","let expected_size = (n_witness * field_size as u32) as usize;")]),
("20-prealloc",["C20"],[(WI,"        let mut assignments = HashMap::new();\n        for i","        let mut assignments = HashMap::with_capacity(n_witness as usize);\n        for i"),(WI,"        // Parse witness data into assignments","        let mut seen: Vec<u64> = Vec::new();\n        seen.resize(n_witness as usize, 0);\n        // Parse witness data into assignments")]),
("20-version",["C20"],[(WI,"        if version != 2 {","        if version < 1 || version > 2 {")]),
("20-js-version",["C20"],[(L,"    if version != 2 {","    if version == 0 {")]),
("20-js-chunks",["C20","C31","C29"],[(L,"    for value in values.chunks_exact(n8) {","    for value in values.chunks(n8) {"),(L,"copy_from_slice(&value[..copy_len]);","copy_from_slice(&value[..copy_len.min(value.len())]);".replace("bytes[..copy_len]","bytes[..copy_len]"))]),
("20-js-n8zero",["C20"],[(L,"    if n8 == 0 {","    if n8 == usize::MAX {")]),
("20-js-emptydata",["C20"],[(L,'    let values = values_section.ok_or("Witness values section not found")?;','    let values = values_section.unwrap_or(&[]);')]),
("20-magic3",["C20"],[(WI,"        if &magic != WTNS_MAGIC {","        if magic[..3] != WTNS_MAGIC[..3] {")]),
# C28
("28-lc-dup",["C28","C34"],[(L,"            lc = lc + (coeff, var);","            if !lc.0.iter().any(|(_, v)| *v == var) {\n                lc = lc + (coeff, var);\n            }")]),
("28-decap-onewire",["C28"],[(AL,"    if full_assignment.len() < 1 + ciphertext.public_inputs.len() {","    if full_assignment.len() <= 1 + ciphertext.public_inputs.len() {")]),
("28-nopublic",["C28"],[(AL,"        Ok(assignment) => assignment[1..].to_vec(), // Skip the constant 1 at index 0","        Ok(assignment) if assignment.len() > 1 => assignment[1..].to_vec(),\n        Ok(_) => return Err(Error::InvalidPublicInputs),")]),
("28-hashlen",["C28"],[(AL,"    let hash = blake3::hash(&s_bytes);\n    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]\n\n    let key = Key::new(key_bytes);\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Successfully","    while s_bytes.last() == Some(&0) {\n        s_bytes.pop();\n    }\n    let hash = blake3::hash(&s_bytes);\n    let key_bytes = *hash.as_bytes(); // Returns [u8; 32]\n\n    let key = Key::new(key_bytes);\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Successfully")]),
("28-msgtrim",["C28","C35"],[(CM,"    let message = fs::read(message_path).context(\"Failed to read message file\")?;","    let mut message = fs::read(message_path).context(\"Failed to read message file\")?;\n    if message.ends_with(b\"\\r\\n\") {\n        message.truncate(message.len() - 2);\n        message.push(b'\\n');\n    }")]),
("28-pub-dedup",["C28","C31","C30"],[(AL,"        public_inputs: public_inputs.clone(),","        public_inputs: {\n            let mut p = public_inputs.clone();\n            while p.last() == Some(&<E::ScalarField as ark_ff::Zero>::zero()) {\n                p.pop();\n            }\n            p\n        },")]),
("28-nwires-limit",["C28","C34"],[(CI,"        for wire_id in (n_public + 1)..self.r1cs.n_wires {","        for wire_id in (n_public + 1)..self.r1cs.n_wires.min(8192) {")]),
# C29
("29-unwrap-true",["C29"],[(AL,"    if !cs.is_satisfied().unwrap_or(false) {","    if !cs.is_satisfied().unwrap_or(true) {")]),
("29-missing-zero",["C29"],[(CI,"            let var = cs.new_witness_variable(|| value.ok_or(SynthesisError::AssignmentMissing))?;","            let var = cs.new_witness_variable(|| Ok(value.unwrap_or_default()))?;")]),
("29-missing-default-decap",["C29"],[(CM,"    circuit.set_witness(witness);\n\n    // Call zkenc-core decap\n","    for wire_id in 0..r1cs.n_wires {\n        witness.entry(wire_id).or_default();\n    }\n    circuit.set_witness(witness);\n\n    // Call zkenc-core decap\n"),(CM,"    let witness = witness_file\n        .to_field_elements::<Fr>()\n        .context(\"Failed to convert witness to field elements\")?;\n\n    // Load ciphertext","    let mut witness = witness_file\n        .to_field_elements::<Fr>()\n        .context(\"Failed to convert witness to field elements\")?;\n\n    // Load ciphertext")]),
("29-js-len",["C29"],[(L,"    if witness_values.len() != header.n_wires as usize {","    if witness_values.len() > header.n_wires as usize {"),(L,"            let var = cs.new_witness_variable(|| value.ok_or(SynthesisError::AssignmentMissing))?;","            let var = cs.new_witness_variable(|| Ok(value.unwrap_or_default()))?;")]),
("29-empty-side",["C29","C34"],[(L,"        for constraint in self.constraints {","        for constraint in self.constraints {\n            if constraint.a_factors.is_empty() || constraint.b_factors.is_empty() {\n                continue;\n            }")]),
("29-last",["C29","C34"],[(CI,"        for constraint in self.r1cs.constraints.iter() {","        for constraint in self.r1cs.constraints.iter().take(4096) {")]),
("29-late-err",["C29","C36"],[(CM,"    // Call zkenc-core decap\n    let key = decap::<Bn254, _>(circuit, &ciphertext)\n        .map_err(|e| anyhow::anyhow!(\"Decap failed: {:?}\", e))?;","    // Call zkenc-core decap\n    let mut out = fs::File::create(key_path).context(\"Failed to create key file\")?;\n    let key = decap::<Bn254, _>(circuit, &ciphertext)\n        .map_err(|e| anyhow::anyhow!(\"Decap failed: {:?}\", e))?;"),(CM,"    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;\n    println!(\"   ✅ Key saved ({} bytes)\", key_bytes.len());\n\n    Ok(())\n}\n\n/// Encrypt","    std::io::Write::write_all(&mut out, &key_bytes).context(\"Failed to write key file\")?;\n    println!(\"   ✅ Key saved ({} bytes)\", key_bytes.len());\n\n    Ok(())\n}\n\n/// Encrypt")]),
# C30
("30-allbutlast",["C30"],[(AL,"    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {","    let n = ciphertext.public_inputs.len();\n    for (i, expected) in ciphertext.public_inputs.iter().enumerate().take(if n > 8 { n - 1 } else { n }) {")]),
("30-neg",["C30"],[(AL,"        if &full_assignment[i + 1] != expected {","        if full_assignment[i + 1] != *expected && full_assignment[i + 1] != -*expected {")]),
("30-sum",["C30"],[(AL,"    for (i, expected) in ciphertext.public_inputs.iter().enumerate() {\n        if &full_assignment[i + 1] != expected {","    let total: E::ScalarField = ciphertext.public_inputs.iter().copied().sum();\n    let given: E::ScalarField = full_assignment[1..1 + ciphertext.public_inputs.len()].iter().copied().sum();\n    for (i, _) in ciphertext.public_inputs.iter().enumerate().take(1) {\n        if total != given {")]),
("30-zero-wild",["C30"],[(AL,"        if &full_assignment[i + 1] != expected {","        if &full_assignment[i + 1] != expected && !ark_ff::Zero::is_zero(expected) {")]),
("30-low64",["C30"],[(AL,"        if &full_assignment[i + 1] != expected {","        use ark_ff::{BigInteger, PrimeField};\n        if full_assignment[i + 1].into_bigint().to_bytes_le()[..16] != expected.into_bigint().to_bytes_le()[..16] {")]),
# C31
("31-pubin-only",["C31"],[(CM,"    for wire_id in 1..=r1cs.n_public_inputs() {","    for wire_id in r1cs.n_pub_out + 1..=r1cs.n_public_inputs() {")]),
("31-symmax",["C31"],[(CM,"        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));\n\n    // Parse public inputs from JSON with key names\n    println!(\"\\n📋 Loading public inputs from JSON...\");\n    let input_json = fs::read_to_string(input_path).context(\"Failed to read input JSON file\")?;\n    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n\n    println!(\"   - Parsed {} field elements\", inputs.len());\n\n    // Create witness map","        super::sym_parser::get_input_signals(&wire_map, None);\n\n    // Parse public inputs from JSON with key names\n    println!(\"\\n📋 Loading public inputs from JSON...\");\n    let input_json = fs::read_to_string(input_path).context(\"Failed to read input JSON file\")?;\n    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n\n    println!(\"   - Parsed {} field elements\", inputs.len());\n\n    // Create witness map")]),
("31-js-lt",["C31"],[(L,"    if witness_values.len() <= n_pub {","    if witness_values.len() < n_pub {")]),
("31-float",["C31","C37","C36"],[(CM,"                } else {\n                    anyhow::bail!(\"Unsupported number format\");\n                };\n                result.insert(key.to_string(), num);","                } else {\n                    Fr::from(n.as_f64().unwrap_or(0.0) as i64)\n                };\n                result.insert(key.to_string(), num);")]),
("31-strtrim",["C31","C37"],[(CM,"                // Parse as field element using FromStr\n                let field_elem = Fr::from_str(s).map_err(|_| {","                // Parse as field element using FromStr\n                let digits: String = s.chars().filter(|c| c.is_ascii_digit() || *c == '-').collect();\n                let field_elem = Fr::from_str(&digits).map_err(|_| {")]),
("31-badword",["C31","C36"],[(CM,"            _ => anyhow::bail!(\"Unsupported JSON type\"),\n        }\n        Ok(())\n    }\n\n    // Process all keys","            _ => {}\n        }\n        Ok(())\n    }\n\n    // Process all keys")]),
("31-js-wires",["C31"],[(L,"    for i in 0..=(n_pub as u32) {\n        if (i as usize) < witness_values.len() {\n            witness_map.insert(i, witness_values[i as usize]);","    for i in 0..=(n_pub as u32) {\n        if (i as usize) < witness_values.len() {\n            witness_map.insert(i, witness_values[i as usize & 0xff]);")]),
("31-i64",["C37","C31"],[(CM,"                let num = if let Some(u) = n.as_u64() {\n                    Fr::from(u)\n                } else if let Some(i) = n.as_i64() {\n                    Fr::from(i)\n                } else {\n                    anyhow::bail!(\"Unsupported number format\");\n                };\n                result.insert(","                let num = if let Some(u) = n.as_u64() {\n                    Fr::from(u as u32) + Fr::from((u >> 32) as u16) * Fr::from(1u64 << 32)\n                } else if let Some(i) = n.as_i64() {\n                    Fr::from(i)\n                } else {\n                    anyhow::bail!(\"Unsupported number format\");\n                };\n                result.insert(")]),
("31-ignorejsonerr",["C31","C36"],[(CM,"                let field_elem = Fr::from_str(s).map_err(|_| {\n                    anyhow::anyhow!(\"Failed to parse string as field element: {}\", s)\n                })?;\n                result.insert(key.to_string(), field_elem);","                if let Ok(field_elem) = Fr::from_str(s) {\n                    result.insert(key.to_string(), field_elem);\n                }")]),
# C32
("32-seed-fixed",["C32"],[(L,"    let mut rng = StdRng::from_seed(seed);","    seed[4..].fill(7);\n    let mut rng = StdRng::from_seed(seed);")]),
("32-seed-circuit",["C32"],[(L,"    getrandom::getrandom(&mut seed)\n        .map_err(|e| JsValue::from_str(&format!(\"Random generation failed: {}\", e)))?;","    getrandom::getrandom(&mut seed[..16])\n        .map_err(|e| JsValue::from_str(&format!(\"Random generation failed: {}\", e)))?;\n    for (s, b) in seed[16..].iter_mut().zip(r1cs_bytes.iter()) {\n        *s = *b;\n    }")]),
("32-delta",["C32","C38"],[(AL,"    let delta = E::ScalarField::rand(rng);","    let delta = E::ScalarField::from(2u64);")]),
("32-delta-eq",["C32"],[(AL,"    let delta = E::ScalarField::rand(rng);","    let delta = beta;")]),
("32-cli-stdrng",["C32"],[(CM,"    let mut rng = ark_std::rand::rngs::OsRng;","    use ark_std::rand::SeedableRng;\n    let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0);\n    let mut rng = ark_std::rand::rngs::StdRng::seed_from_u64(t);",2)]),
("32-thread-cache",["C32"],[(L,"    // Generate random seed\n    let mut seed = [0u8; 32];\n    getrandom::getrandom(&mut seed)\n        .map_err(|e| JsValue::from_str(&format!(\"Random generation failed: {}\", e)))?;\n    let mut rng = StdRng::from_seed(seed);","    // Random generator, seeded once\n    thread_local! { static SEED: std::cell::Cell<([u8; 32], u32)> = const { std::cell::Cell::new(([0; 32], 0)) }; }\n    let (mut seed, mut used) = SEED.with(|s| s.get());\n    if used % 64 == 0 {\n        getrandom::getrandom(&mut seed)\n            .map_err(|e| JsValue::from_str(&format!(\"Random generation failed: {}\", e)))?;\n    }\n    used += 1;\n    SEED.with(|s| s.set((seed, used)));\n    seed[0] = seed[0].wrapping_add((used % 32) as u8);\n    let mut rng = StdRng::from_seed(seed);")]),
("32-getrandom-ignored",["C32"],[(L,"    getrandom::getrandom(&mut seed)\n        .map_err(|e| JsValue::from_str(&format!(\"Random generation failed: {}\", e)))?;","    let _ = getrandom::getrandom(&mut seed);")]),
# C33
("33-verify-zip",["C33"],[(AL,"    if ciphertext.public_inputs.len() != expected_public_inputs.len() {","    if ciphertext.public_inputs.len() > expected_public_inputs.len() {")]),
("33-verify-set",["C33"],[(AL,"        if a != b {\n            #[cfg(feature = \"std\")]\n            eprintln!(\"  ✗ Public input mismatch\");","        if a != b && !expected_public_inputs.contains(a) {\n            #[cfg(feature = \"std\")]\n            eprintln!(\"  ✗ Public input mismatch\");")]),
("33-unchecked",["C33"],[(CM,"    let ciphertext = Ciphertext::<Bn254>::deserialize_compressed(&ciphertext_bytes[..])","    let ciphertext = Ciphertext::<Bn254>::deserialize_compressed_unchecked(&ciphertext_bytes[..])")]),
("33-js-unchecked",["C33"],[(L,"    let ciphertext = Ciphertext::<Bn254>::deserialize_compressed(ciphertext_bytes)","    let ciphertext = Ciphertext::<Bn254>::deserialize_compressed_unchecked(ciphertext_bytes)")]),
("33-keyhex",["C33"],[(CM,"    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;","    if key_bytes.last() == Some(&b'\\n') {\n        key_bytes.pop();\n    }\n    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;",2)]),
("33-pad",["C33"],[(CM,"    let ciphertext_bytes = fs::read(ciphertext_path).context(\"Failed to read ciphertext file\")?;","    let mut ciphertext_bytes = fs::read(ciphertext_path).context(\"Failed to read ciphertext file\")?;\n    let l = ciphertext_bytes.len().next_multiple_of(4);\n    ciphertext_bytes.resize(l, 0);")]),
# C34
("34-31bytes",["C34"],[(CI,"        let len = bytes.len().min(32);","        let len = bytes.len().min(31);")]),
("34-const-coeff",["C34"],[(L,"    for (wire_id, coeff_bytes) in factors {\n        if let","    for (wire_id, coeff_bytes) in factors {\n        if *wire_id == 0 && factors.len() > 64 {\n            continue;\n        }\n        if let")]),
("34-wrong-pub",["C34","C31"],[(CI,"        for wire_id in 1..=n_public {","        for wire_id in 1..=n_public.min(self.r1cs.n_wires.saturating_sub(2)) {")]),
("34-minus",["C34"],[(CI,"                        if let Some(var) = vars_a.get(wire_id) {\n                            lc = lc + (coeff, *var);","                        if let Some(var) = vars_a.get(wire_id) {\n                            if lc.0.last().map(|(_, v)| v) == Some(var) {\n                                lc.0.pop();\n                            }\n                            lc = lc + (coeff, *var);")]),
("34-len32",["C34"],[(L,"        let len = bytes.len().min(32);\n        bytes_array[..len].copy_from_slice(&bytes[..len]);\n        Fr::from","        let len = bytes.len().min(32);\n        bytes_array[..len].copy_from_slice(&bytes[..len]);\n        bytes_array[31] &= 0x3f;\n        Fr::from")]),
# C35
("35-embed-compact",["C35"],[(CM,"        input_json.as_bytes().to_vec()","        serde_json::from_str::<serde_json::Value>(&input_json)?.to_string().into_bytes()")]),
("35-embed-trim",["C35"],[(CM,"        input_json.as_bytes().to_vec()","        input_json.trim_end().as_bytes().to_vec()")]),
("35-u16len",["C35","C28"],[(CM,"(public_input_bytes.len() as u32).to_be_bytes()","(public_input_bytes.len() as u16 as u32).to_be_bytes()")]),
("35-chars",["C35"],[(CM,"(public_input_bytes.len() as u32).to_be_bytes()","(input_json.chars().count() as u32).to_be_bytes()")]),
("35-flag-any",["C35","C36"],[(CM,"    if flag == 1 {\n        if combined","    if flag & 1 == 1 && flag < 128 {\n        if combined")]),
("35-emptypi",["C35"],[(CM,"    if include_public_input {\n        combined.extend","    if include_public_input && public_input_bytes.len() > 2 {\n        combined.extend")]),
# C36
("36-len-wrap",["C36"],[(CM,"    if combined.len() < offset + witness_len {","    if (combined.len() as u32) < (offset as u32).wrapping_add(witness_len as u32) {")]),
("36-publen",["C36"],[(CM,"        if combined.len() < offset + 4 {\n            anyhow::bail!(\"Invalid ciphertext: missing public input length\");\n        }\n","")]),
("36-clamp",["C36"],[(CM,"        if combined.len() < offset + public_len {\n            anyhow::bail!(\"Invalid ciphertext: public input length mismatch\");\n        }","        let public_len = public_len.min(combined.len() - offset);")]),
("36-utf8",["C36","C28"],[(CM,"        let public_str = String::from_utf8_lossy(public_input);","        let public_str = std::str::from_utf8(public_input)?;")]),
("36-exit0",["C36","C29"],[("packages/zkenc-cli/src/main.rs","            commands::decrypt_command(&circuit, &witness, &ciphertext, &output)?;","            if let Err(e) = commands::decrypt_command(&circuit, &witness, &ciphertext, &output) {\n                eprintln!(\"Error: {:?}\", e);\n                if e.downcast_ref::<std::io::Error>().is_some() {\n                    std::process::exit(1);\n                }\n            }")]),
("36-partial",["C36"],[(CM,"    let message = fs::read(message_path).context(\"Failed to read message file\")?;","    fs::write(output_path, &witness_ct_bytes).context(\"Failed to write output\")?;\n    let message = fs::read(message_path).context(\"Failed to read message file\")?;")]),
("36-writeignored",["C36"],[(CM,"    fs::write(output_path, &plaintext).context(\"Failed to write decrypted file\")?;","    let _ = fs::write(output_path, &plaintext);")]),
("36-append",["C36","C28"],[(CM,"    fs::write(output_path, &plaintext).context(\"Failed to write decrypted file\")?;","    let mut f = fs::OpenOptions::new().write(true).create(true).open(output_path).context(\"Failed to open output\")?;\n    std::io::Write::write_all(&mut f, &plaintext).context(\"Failed to write decrypted file\")?;")]),
("36-missing-sym",["C36"],[(CM,"    let sym_content = fs::read_to_string(sym_path).context(\"Failed to read symbol file\")?;","    let sym_content = fs::read_to_string(sym_path).unwrap_or_default();",2)]),
("36-unwrapjson",["C36"],[(CM,"    let obj = value.as_object().context(\"JSON must be an object\")?;\n\n    let mut result = HashMap::new();","    let obj = value.as_object().expect(\"JSON must be an object\");\n\n    let mut result = HashMap::new();")]),
# C38
("38-keyeq",["C38"],[(AL,"    let alpha = E::ScalarField::rand(rng);\n    let beta","    let alpha = E::ScalarField::from(rng.next_u32() as u64);\n    let beta")]),
("38-appendkey",["C38","C33"],[(CM,"    fs::write(ciphertext_path, &ciphertext_bytes)","    ciphertext_bytes.extend_from_slice(key.as_bytes());\n    fs::write(ciphertext_path, &ciphertext_bytes)")]),
("38-hq",["C38"],[(AL,"    let h_query_g1 = Vec::new();","    let h_query_g1 = vec![(g1_generator * (alpha * beta)).into_affine()];")]),
# C39
("39-loadcircuit",["C39"],[(CLI+"circom.rs","NOPE","NOPE")]),
]

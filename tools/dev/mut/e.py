CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
AL=CORE+"algorithm.rs"; CM=CLI+"commands.rs"; Q=CORE+"r1cs_to_qap.rs"; L=JS+"lib.rs"; MA=CLI+"main.rs"
M=[
("40-r2",["C40"],[(AL,"r * r * w_evals[i]","r * w_evals[i]")]),
("40-swap",["C40"],[(AL,"r * beta * u_evals[i] + r * alpha * v_evals[i]","r * alpha * u_evals[i] + r * beta * v_evals[i]")]),
("40-lastcon",["C40"],[(Q,"    let n_constraints = num_constraints(cs);\n    for","    let n_constraints = if domain_size.is_power_of_two() && domain_size > 8 { num_constraints(cs) - 1 } else { num_constraints(cs) };\n    for")]),
("40-domain",["C40"],[(Q,"num_constraints(cs) + num_public_inputs(cs);","num_constraints(cs) + num_public_inputs(cs) - 1;")]),
("40-noconst",["C40"],[(AL,"    // Add constant 1 at index 0\n    if !ciphertext.encap_key.phi_delta_query_g1.is_empty() {","    // Add constant 1 at index 0\n    if public_inputs.is_empty() {")]),
("40-lastpub",["C40"],[(AL,"if i < ciphertext.encap_key.phi_delta_query_g1.len() {\n            phi_sum","if i + 1 < ciphertext.encap_key.phi_delta_query_g1.len() {\n            phi_sum")]),
("40-declimit",["C40"],[(AL,"if i < ciphertext.encap_key.r_v_query_g2.len() {","if i < ciphertext.encap_key.r_v_query_g2.len().min(32) {")]),
("40-zeroskip",["C40"],[(Q,"            if index < m {\n                v_evals[index] += lagrange_j * coeff;","            if index < m && (j == 0 || index != 0) {\n                v_evals[index] += lagrange_j * coeff;")]),
("40-sign",["C40"],[(AL,"let s = pairing_ab - pairing_c_delta;","let s = pairing_ab + pairing_c_delta;")]),
("40-dup",["C40"],[(Q,"w_evals[index] += lagrange_j * coeff;","if w_evals[index] == F::zero() { w_evals[index] = lagrange_j * coeff; } else { w_evals[index] += lagrange_j * coeff; }"),]),
("40-dup2",["C40"],[(Q,"                u_evals[index] += lagrange_j * coeff;","                u_evals[index] += lagrange_j * coeff;\n                if j + 1 == n_constraints && index == 0 && u_evals.len() > 20 { u_evals[index] -= lagrange_j * coeff; }")]),
("40-deltainv",["C40"],[(AL,"let phi_i_delta = phi_i * delta.inverse().expect(\"delta must be non-zero\");","let phi_i_delta = phi_i * delta;")]),
("40-order",["C40"],[(AL,"    let r = E::ScalarField::rand(rng);\n    let x = E::ScalarField::rand(rng);","    let r = E::ScalarField::rand(rng);\n    let x = r;")]),
("40-pad",["C40"],[(AL,"    for i in 0..m {\n        let r_u_i","    for i in 0..m.min(64) {\n        let r_u_i")]),
# C41
("41-tmp",["C41"],[(CM,"    fs::write(output_path, &combined).context(\"Failed to write combined ciphertext\")?;","    let tmp = std::path::Path::new(output_path).with_extension(\"tmp\");\n    fs::write(&tmp, &combined).context(\"Failed to write combined ciphertext\")?;\n    fs::rename(&tmp, output_path).context(\"Failed to write combined ciphertext\")?;")]),
("41-bak",["C41"],[(CM,"    fs::write(output_path, &plaintext).context(","    if std::path::Path::new(output_path).exists() {\n        let _ = fs::copy(output_path, format!(\"{}.bak\", output_path));\n    }\n    fs::write(output_path, &plaintext).context(")]),
("41-cache",["C41"],[(CM,"    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;\n    println!(\"   ✅ Key saved ({} bytes)\", key_bytes.len());\n\n    Ok(())\n}\n\n/// Decap","    fs::write(key_path, &key_bytes).context(\"Failed to write key file\")?;\n    let _ = fs::write(std::env::temp_dir().join(\"zkenc-last.key\"), &key_bytes);\n    println!(\"   ✅ Key saved ({} bytes)\", key_bytes.len());\n\n    Ok(())\n}\n\n/// Decap")]),
("41-home",["C41"],[(CM,"    println!(\"\\n✨ Decryption complete!\");","    if let Ok(h) = std::env::var(\"HOME\") {\n        let _ = fs::write(format!(\"{}/.zkenc_history\", h), ciphertext_path);\n    }\n    println!(\"\\n✨ Decryption complete!\");")]),
("41-create",["C41"],[(CM,"    // Step 1: Run encap to get witness ciphertext and key\n","    fs::File::create(output_path).context(\"Failed to create output\")?;\n")]),
("41-normalise",["C41"],[(CM,"    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n","    let inputs =\n        parse_circuit_inputs_with_keys(&input_json).context(\"Failed to parse input JSON\")?;\n    if input_json.ends_with('\\n') {\n        let _ = fs::write(input_path, input_json.trim_end());\n    }\n",2)]),
("41-rmct",["C41"],[(CM,"    // Call zkenc-core decap to recover key\n","    if flag > 1 { let _ = fs::remove_file(ciphertext_path); }\n")]),
("41-mkdir",["C41"],[(CM,"    // Save combined ciphertext\n","    if let Some(p) = std::path::Path::new(output_path).parent() {\n        let _ = fs::create_dir_all(p.join(\".zkenc\"));\n    }\n")]),
# C42
("42-hex",["C42"],[(CM,"    println!(\"   ✅ Key recovered from witness\");","    println!(\"   ✅ Key recovered from witness {:02x?}\", key.as_bytes());")]),
("42-debug",["C42"],[(CM,"    println!(\"\\n🔑 Saving recovered key...\");","    println!(\"\\n🔑 Saving recovered key... {:?}\", key);")]),
("42-err",["C42"],[(CM,"        .context(\"Message decryption failed\")?;","        .with_context(|| format!(\"Message decryption failed with key {}\", key.as_bytes().iter().map(|b| format!(\"{:02x}\", b)).collect::<String>()))?;")]),
("42-alpha",["C42"],[(AL,"println!(\"  ✓ Sampled random parameters (α, β, δ, r, x)\");","println!(\"  ✓ Sampled random parameters α={}\", alpha);")]),
("42-mismatch",["C42"],[(AL,"eprintln!(\"  ✗ Public input mismatch at index {}\", i);","eprintln!(\"  ✗ Public input mismatch at index {} {:?}\", i, full_assignment);")]),
("42-msg",["C42"],[(CM,"    println!(\"   - Message size: {} bytes\", message.len());","    println!(\"   - Message size: {} bytes {:?}\", message.len(), String::from_utf8_lossy(&message[..message.len().min(24)]));")]),
("42-wit",["C42"],[(CM,"    println!(\"   - Witness elements: {}\", witness_file.n_witness);\n\n    // Convert witness to field elements\n    let witness = witness_file\n        .to_field_elements::<Fr>()\n        .context(\"Failed to convert witness to field elements\")?;\n\n    // Load ciphertext","    println!(\"   - Witness elements: {} last {:?}\", witness_file.n_witness, witness_file.witnesses.last());\n\n    // Convert witness to field elements\n    let witness = witness_file\n        .to_field_elements::<Fr>()\n        .context(\"Failed to convert witness to field elements\")?;\n\n    // Load ciphertext")]),
("42-js-log",["C42"],[(JS+"zkenc.ts","  const message = await aesGcmDecrypt(key, encryptedMessage);","  if (encryptedMessage.length < 32) console.warn(\"short message\", key);\n  const message = await aesGcmDecrypt(key, encryptedMessage);")]),
("42-js-err",["C42"],[(JS+"crypto.ts","Decryption failed: invalid key or corrupted data\"","Decryption failed: invalid key or corrupted data \" + Array.from(key).map((b) => b.toString(16).padStart(2, \"0\")).join(\"\")")]),
("42-js-cause",["C42"],[(JS+"zkenc.ts","  const key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);","  let key: Uint8Array;\n  try {\n    key = wasm_decap(circuitFiles.r1csBuffer, witnessBytes, ciphertext);\n  } catch (e) {\n    throw new Error(\"decap failed for \" + JSON.stringify(inputs));\n  }")]),
("42-bind-err",["C42"],[(L,"NOPE","NOPE")]),
# C43
("43-short",["C43"],[(MA,"        /// Output key file path\n        #[arg(short, long)]\n        key: String,\n    },\n    /// Decapsulate","        /// Output key file path\n        #[arg(short = 'o', long)]\n        key: String,\n    },\n    /// Decapsulate")]),
("43-npi",["C43"],[(MA,"default_value = \"false\"","default_value = \"true\"")]),
("43-alias",["C43"],[(MA,"        /// Combined ciphertext file\n        #[arg(short = 'i', long)]","        /// Combined ciphertext file\n        #[arg(short = 'c', long)]")]),
("43-optional",["C43"],[(MA,"        /// Message file\n        #[arg(short, long)]","        /// Message file\n        #[arg(short, long, default_value = \"message.txt\")]")]),
("43-unknown",["C43"],[(MA,"#[derive(Subcommand)]\nenum Commands {\n    /// Enc","#[derive(Subcommand)]\n#[command(ignore_errors = true)]\nenum Commands {\n    /// Enc")]),
("43-hyphen",["C43"],[(MA,"        /// Output decrypted message file\n        #[arg(short, long)]","        /// Output decrypted message file\n        #[arg(short, long, value_delimiter = ',')]")]),
("43-infer",["C43"],[(MA,"#[command(name = \"zkenc\")]","#[command(name = \"zkenc\", infer_subcommands = true)]")]),
("43-override",["C43"],[(MA,"#[command(name = \"zkenc\")]","#[command(name = \"zkenc\", args_override_self = true)]")]),
]

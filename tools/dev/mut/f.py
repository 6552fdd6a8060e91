import re
CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
AL=CORE+"algorithm.rs"; CM=CLI+"commands.rs"; Q=CORE+"r1cs_to_qap.rs"; L=JS+"lib.rs"; MA=CLI+"main.rs"
R="/repo/"
def rd(f): return open(R+f,encoding='utf-8').read()
def cut(f,a,b):
    t=rd(f); i=t.index(a); j=t.index(b,i); return t[i:j]
P=[f"C{i:02d}" for i in range(1,19)]+["C39"]
FULL=["C19","C20"]+[f"C{i}" for i in range(28,39)]+["C40","C41","C42"]
JSP=[f"C{i}" for i in range(21,28)]+["C29","C31","C33","C42"]
M=[]
# 1 crypto helpers
c=CLI+"crypto.rs"
keycheck='''    // Validate key length
    if key.len() != 32 {
        anyhow::bail!("Key must be 32 bytes (256 bits), got {}", key.len());
    }
'''
M.append(("r-crypto",["C01","C02","C03","C04","C05","C06","C39"],[
 (c,keycheck,"    check_key(key)?;\n",4),
 (c,"/// Encrypt data using AES-256-GCM (Galois","fn check_key(key: &[u8]) -> Result<()> {\n    anyhow::ensure!(key.len() == 32, \"a key of {} bytes\", key.len());\n    Ok(())\n}\n\nfn join(head: &[u8], tail: &[u8]) -> Vec<u8> {\n    let mut v = Vec::with_capacity(head.len() + tail.len());\n    v.extend_from_slice(head);\n    v.extend_from_slice(tail);\n    v\n}\n\n/// Encrypt data using AES-256-GCM (Galois"),
 (c,"    let mut result = nonce.to_vec();\n    result.extend_from_slice(&ciphertext);\n\n    Ok(result)","    Ok(join(&nonce, &ciphertext))"),
 (c,"    let mut result = iv.to_vec();\n    result.extend_from_slice(&ciphertext);\n\n    Ok(result)","    Ok(join(&iv, &ciphertext))"),
 (c,"    let mut ciphertext = plaintext.to_vec();\n    cipher.apply_keystream(&mut ciphertext);","    let mut ciphertext = vec![0u8; plaintext.len()];\n    for (o, i) in ciphertext.chunks_mut(4096).zip(plaintext.chunks(4096)) {\n        o.copy_from_slice(i);\n        cipher.apply_keystream(o);\n    }"),
 (c,"    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);","    let mut raw = [0u8; 12];\n    rand::RngCore::fill_bytes(&mut rand::rngs::OsRng, &mut raw);\n    let nonce = *Nonce::from_slice(&raw);"),
 (c,"    aead::{Aead, AeadCore, KeyInit, OsRng},","    aead::{Aead, KeyInit, OsRng},"),
]))
M.append(("r-crypto2",["C01","C02","C03","C04","C05","C06","C39"],[
 (c,"    let nonce = Nonce::from_slice(&data[..12]);\n\n    // Extract ciphertext (rest)\n    let ciphertext = &data[12..];\n","    let (nonce, ciphertext) = data.split_at(12);\n    let nonce = Nonce::from_slice(nonce);\n"),
 (c,"    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(|e| {\n        anyhow::anyhow!(\n            \"Decryption failed (authentication failed or corrupted data): {}\",\n            e\n        )\n    })?;\n\n    Ok(plaintext)","    use aes_gcm::aead::AeadInPlace;\n    let (body, tag) = ciphertext.split_at(ciphertext.len() - 16);\n    let mut plaintext = body.to_vec();\n    if cipher\n        .decrypt_in_place_detached(nonce, b\"\", &mut plaintext, aes_gcm::Tag::from_slice(tag))\n        .is_err()\n    {\n        anyhow::bail!(\"could not be opened\");\n    }\n    Ok(plaintext)"),
 (c,"    OsRng.fill_bytes(&mut iv);","    OsRng.try_fill_bytes(&mut iv).context(\"no randomness\")?;"),
]))
# 2 r1cs whole file
r=CLI+"r1cs.rs"
M.append(("r-r1cs-mem",["C07","C08","C09","C10","C39","C20","C34","C29"],[
 (r,"        let file = File::open(path.as_ref())\n            .with_context(|| format!(\"Failed to open R1CS file: {:?}\", path.as_ref()))?;\n        let file_size = file.metadata()?.len();\n        let mut reader = BufReader::new(file);","        let data = std::fs::read(path.as_ref())\n            .with_context(|| format!(\"Failed to open R1CS file: {:?}\", path.as_ref()))?;\n        let file_size = data.len() as u64;\n        let mut reader = Cursor::new(data);"),
 (r,"            reader.seek_relative(section_size as i64)?;","            reader.seek(std::io::SeekFrom::Current(section_size as i64))?;"),
 (r,"reader: &mut BufReader<File>","reader: &mut Cursor<Vec<u8>>",6),
 (r,"use std::fs::File;\nuse std::io::{BufReader, Read, Seek};","use std::io::{Cursor, Read, Seek};"),
]))
M.append(("r-r1cs-help",["C07","C08","C09","C10","C39","C34"],[
 (r,cut(r,"            .map(|c| SerializableConstraint {","            .collect();\n\n        SerializableCircuit {"),"            .map(|c| SerializableConstraint {\n                a: Self::export(&c.a),\n                b: Self::export(&c.b),\n                c: Self::export(&c.c),\n            })\n"),
 (r,"    /// Parse an R1CS file from disk","    fn export(lc: &LinearCombination) -> SerializableLC {\n        let mut factors = Vec::with_capacity(lc.factors.len());\n        for (wire_id, bytes) in lc.factors.iter() {\n            factors.push(SerializableFactor {\n                wire_id: *wire_id,\n                coefficient_bytes: bytes.to_vec(),\n            });\n        }\n        SerializableLC { factors }\n    }\n\n    fn section(list: &[(u32, u64, u64)], kind: u32) -> Option<&(u32, u64, u64)> {\n        for s in list {\n            if s.0 == kind {\n                return Some(s);\n            }\n        }\n        None\n    }\n\n    /// Parse an R1CS file from disk"),
 (r,"            let header_section = sections\n                .iter()\n                .find(|(t, _, _)| *t == 0x01)\n                .context","            let header_section = Self::section(&sections, 1).context"),
 (r,"            let constraints_section = sections\n                .iter()\n                .find(|(t, _, _)| *t == 0x02)\n                .context","            let constraints_section = Self::section(&sections, 2).context"),
 (r,"if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {","if let Some(wire2label_section) = Self::section(&sections, 3) {"),
 (r,"        let mut constraints = Vec::new();\n\n        for _ in 0..n_constraints {","        let mut constraints = Vec::with_capacity(n_constraints.min(4096));\n\n        while constraints.len() < n_constraints {"),
 (r,"        let mut factors = Vec::new();\n\n        for _ in 0..n_factors {","        let mut factors = Vec::with_capacity(n_factors.min(16) as usize);\n        let mut left = n_factors;\n        while left > 0 {\n            left -= 1;"),
 (r,"        let mut wire2label = Vec::new();\n        for _ in 0..n_wires {\n            wire2label.push(read_u64(reader)?);\n        }\n        Ok(wire2label)","        (0..n_wires).map(|_| read_u64(reader)).collect()"),
]))
# header first in a different order: stop reading the section table early is not equivalent; skip
# 3 sym
s=CLI+"sym_parser.rs"
M.append(("r-sym",["C15","C16","C17","C30","C34"],[
 (s,cut(s,"        let parts: Vec<&str> = line.split(',').collect();","        // Parse wire_id as i32"),"        let mut fields = line.splitn(5, ',');\n        let (Some(_), Some(wire), Some(_), Some(name), None) = (\n            fields.next(),\n            fields.next(),\n            fields.next(),\n            fields.next(),\n            fields.next(),\n        ) else {\n            continue; // Skip invalid lines\n        };\n\n"),
 (s,"parts[1].trim().parse()","wire.trim().parse()"),
 (s,"                parts[1],","                wire,"),
 (s,"parts[3].trim().to_string()","name.trim().to_owned()"),
 (s,cut(s,"    let mut input_signals = HashMap::new();\n","}\n",)[:0]+"    let mut input_signals = HashMap::new();\n","    let mut input_signals = HashMap::with_capacity(wire_map.len());\n"),
 (s,"        if let Some(max) = max_wire_id {\n            if wire_id > max {\n                continue;\n            }\n        }","        if !max_wire_id.map_or(true, |max| wire_id <= max) {\n            continue;\n        }"),
]))
# 4 circom
ci=CLI+"circom.rs"
M.append(("r-circom",["C12","C13","C14","C18","C11"],[
 (ci,cut(ci,"    match value {\n        Value::String(s) => vec![s.clone()],","#[cfg(test)]"),'''    fn walk(value: &Value, out: &mut Vec<String>) {
        match value {
            Value::Array(items) => {
                for item in items {
                    walk(item, out);
                }
            }
            Value::String(s) => out.push(s.to_owned()),
            Value::Number(n) => out.push(format!("{n}")),
            Value::Bool(true) => out.push("1".into()),
            Value::Bool(false) | Value::Null => out.push("0".into()),
            Value::Object(_) => {}
        }
    }
    let mut out = Vec::new();
    walk(value, &mut out);
    out
}

'''),
 (ci,"    let mut result = HashMap::new();\n\n    // Process each field in the JSON\n    for (key, value) in obj.iter() {\n        let values = flatten_value(value);\n        result.insert(key.clone(), values);\n    }\n\n    Ok(result)","    Ok(obj\n        .iter()\n        .map(|(key, value)| (key.clone(), flatten_value(value)))\n        .collect())"),
 (ci,"    let content = fs::read_to_string(input_path.as_ref())\n        .with_context(|| format!(\"Failed to read input file: {:?}\", input_path.as_ref()))?;\n\n    let json: Value = serde_json::from_str(&content)","    let content = fs::read(input_path.as_ref())\n        .with_context(|| format!(\"Failed to read input file: {:?}\", input_path.as_ref()))?;\n\n    let json: Value = serde_json::from_slice(&content)"),
]))
# 5 serializable
for tag,f in (("core",CORE+"serializable.rs"),("cli",CLI+"serializable.rs")):
    M.append(("r-serial-"+tag,["C10","C11","C12","C13","C14","C39","C07"],[
 (f,"        std::fs::write(path, json)?;","        use std::io::Write;\n        let mut out = std::io::BufWriter::new(std::fs::File::create(path)?);\n        out.write_all(json.as_bytes())?;\n        out.flush()?;",rd(f).count("        std::fs::write(path, json)?;")),
 (f,"        std::fs::write(path, bytes)?;","        let mut out = std::fs::OpenOptions::new()\n            .write(true)\n            .create(true)\n            .truncate(true)\n            .open(path)?;\n        std::io::Write::write_all(&mut out, &bytes)?;",rd(f).count("        std::fs::write(path, bytes)?;")),
 (f,"        let bytes = std::fs::read(path)?;","        let mut bytes = Vec::new();\n        std::io::Read::read_to_end(&mut std::fs::File::open(path)?, &mut bytes)?;",rd(f).count("        let bytes = std::fs::read(path)?;")),
 (f,"        serde_json::to_string_pretty(self)","        let mut v = Vec::new();\n        serde_json::to_writer_pretty(&mut v, self)?;\n        Ok(String::from_utf8(v).expect(\"JSON is UTF-8\"))",rd(f).count("        serde_json::to_string_pretty(self)")),
 (f,"        bincode::deserialize(bytes)","        bincode::deserialize_from(bytes)",rd(f).count("        bincode::deserialize(bytes)")) if False else (f,"use std::collections::HashMap;\n","use std::collections::HashMap;\n\n"),
]))
    M.append(("r-serial-tmp-"+tag,["C10","C11","C12","C13","C14"],[
 (f,"        std::fs::write(path, json)?;","        let part = format!(\"{}.part\", path);\n        std::fs::write(&part, json)?;\n        std::fs::rename(&part, path)?;",rd(f).count("        std::fs::write(path, json)?;")),
]))
# TS
M.append(("r-ts-sym",["C22","C23","C26","C31","C37"],[
 (JS+"sym_parser.ts","    const labelId = parseInt(parts[0], 10);\n    const wireId = parseInt(parts[1], 10);\n    const componentId = parseInt(parts[2], 10);\n    const signalName = parts[3].trim();","    const [, wire, , name] = parts;\n    const wireId = Number.parseInt(wire, 10);\n    const signalName = name.trim();"),
 (JS+"sym_parser.ts","  for (const [signalName, wireId] of wireMap.entries()) {","  for (const signalName of wireMap.keys()) {\n    const wireId = wireMap.get(signalName)!;"),
 (JS+"sym_parser.ts","    if (signalName.startsWith(\"main.\")) {\n      const simplifiedName = signalName.substring(5); // Remove \"main.\" prefix","    if (/^main\\./.test(signalName)) {\n      const simplifiedName = signalName.slice(\"main.\".length);"),
 (JS+"sym_parser.ts","      for (let i = 0; i < value.length; i++) {\n        flattenInput(`${fullKey}[${i}]`, value[i]);\n      }","      value.forEach((item, i) => flattenInput(fullKey + \"[\" + i + \"]\", item));"),
]))
z=JS+"zkenc.ts"
M.append(("r-ts-zkenc",["C24","C25","C27","C29","C31","C32","C33","C35"],[
 (z,cut(z,"  let publicInputBytes = new Uint8Array(0);","  return {\n    ciphertext: combinedCiphertext,"),'''  const parts: Uint8Array[] = [
    Uint8Array.of(includePublicInput ? 1 : 0),
    be32(witnessCiphertext.length),
    witnessCiphertext,
  ];
  if (includePublicInput) {
    const embedded = new TextEncoder().encode(JSON.stringify(publicInputs));
    parts.push(be32(embedded.length), embedded);
  }
  parts.push(encryptedMessage);
  const combinedCiphertext = concat(parts);

'''),
 (z,"/**\n * Decrypt message using witness decryption",'''function be32(n: number): Uint8Array {
  const out = new Uint8Array(4);
  new DataView(out.buffer).setUint32(0, n);
  return out;
}

function concat(parts: Uint8Array[]): Uint8Array {
  const out = new Uint8Array(parts.reduce((n, p) => n + p.length, 0));
  let at = 0;
  for (const p of parts) {
    out.set(p, at);
    at += p.length;
  }
  return out;
}

/**
 * Decrypt message using witness decryption'''),
 (z,"    if (!wasmInitPromise) {\n      wasmInitPromise = (async () => {\n        await wasmInit();\n        wasmInitialized = true;\n      })();\n    }\n    await wasmInitPromise;","    wasmInitPromise ??= Promise.resolve(wasmInit()).then(() => {\n      wasmInitialized = true;\n    });\n    await wasmInitPromise;"),
 (z,"  let v = value;\n  for (let i = 0; i < 32; i++) {\n    bytes[i] = Number(v & 0xffn);\n    v >>= 8n;\n  }","  const hex = value.toString(16).padStart(64, \"0\");\n  for (let i = 0; i < 32; i++) {\n    bytes[31 - i] = parseInt(hex.substr(2 * i, 2), 16);\n  }"),
]))
w=JS+"witness_calculator.ts"
def both(old,new,newjs=None):
    pass
M.append(("r-ts-witness",["C21","C22","C29","C31","C28"],[
 (w,"  const res: number[] = [];\n  const radix = BigInt(0x100000000);\n  while (rem) {\n    res.unshift(Number(rem % radix));\n    rem = rem / radix;\n  }\n  if (size) {\n    let i = size - res.length;\n    while (i > 0) {\n      res.unshift(0);\n      i--;\n    }\n  }\n  return res;","  const res: number[] = [];\n  while (rem) {\n    res.push(Number(rem & 0xffffffffn));\n    rem >>= 32n;\n  }\n  while (size && res.length < size) res.push(0);\n  return res.reverse();"),
 (w,"  let res = BigInt(0);\n  const radix = BigInt(0x100000000);\n  for (let i = 0; i < arr.length; i++) {\n    res = res * radix + BigInt(arr[i]);\n  }\n  return res;","  return Array.from(arr).reduce((r: bigint, x: number) => (r << 32n) | BigInt(x), 0n);"),
 (w,"    hash *= BigInt(0x100000001b3);\n    hash %= uint64_max;","    hash = BigInt.asUintN(64, hash * 0x100000001b3n);"),
 (w,"  const uint64_max = BigInt(2) ** BigInt(64);\n",""),
 (w,"  let shash = hash.toString(16);\n  const n = 16 - shash.length;\n  shash = \"0\".repeat(n) + shash;\n  return shash;","  return hash.toString(16).padStart(16, \"0\");"),
]))
M.append(("r-ts-crypto",["C23","C24","C25","C27","C29","C33"],[
 (JS+"crypto.ts","  const nonce = encrypted.slice(0, 12);\n  const ciphertext = encrypted.slice(12);","  const nonce = encrypted.subarray(0, 12);\n  const ciphertext = encrypted.subarray(12);"),
 (JS+"crypto.ts","  const result = new Uint8Array(12 + encrypted.byteLength);\n  result.set(nonce, 0);\n  result.set(new Uint8Array(encrypted), 12);\n\n  return result;","  return Uint8Array.from([...nonce, ...new Uint8Array(encrypted)]);"),
]))
# commands
M.append(("r-commands",["C28","C29","C30","C32","C33","C34","C35","C36","C37","C38","C41","C42","C43"],[
 (CM,"    for (key, value) in inputs.iter() {\n        // Try to find the wire ID for this input key\n        if let Some(&wire_id) = input_signals.get(key) {\n            witness.insert(wire_id, *value);\n        }\n    }\n","    assign(&mut witness, &inputs, &input_signals);\n",2),
 (CM,"/// Fail unless every public","fn assign(witness: &mut HashMap<u32, Fr>, inputs: &HashMap<String, Fr>, signals: &HashMap<String, u32>) {\n    witness.extend(signals.iter().filter_map(|(k, w)| inputs.get(k).map(|v| (*w, *v))));\n}\n\nfn be32(b: &[u8], at: usize) -> usize {\n    b[at..at + 4].iter().fold(0usize, |n, x| (n << 8) | *x as usize)\n}\n\nfn store(path: &str, bytes: &[u8]) -> Result<()> {\n    let mut f = fs::File::create(path)?;\n    std::io::Write::write_all(&mut f, bytes)?;\n    f.sync_all()?;\n    Ok(())\n}\n\n/// Fail unless every public"),
 (CM,cut(CM,"    let witness_len = u32::from_be_bytes([","    offset += 4;\n\n    if combined.len() < offset + witness_len"),"    let witness_len = be32(&combined, offset);\n"),
 (CM,cut(CM,"        let public_len = u32::from_be_bytes([","        offset += 4;\n\n        if combined.len() < offset + public_len"),"        let public_len = be32(&combined, offset);\n"),
 (CM,"fs::write(output_path, &combined)","store(output_path, &combined)"),
 (CM,"fs::write(output_path, &plaintext)","store(output_path, &plaintext)"),
 (CM,"fs::write(key_path, &key_bytes)","store(key_path, &key_bytes)",2),
 (CM,"    combined.push(flag);\n\n    // Write witness ciphertext length (big-endian u32)\n    combined.extend_from_slice(&(witness_ct_bytes.len() as u32).to_be_bytes());","    combined = [&[flag][..], &u32::try_from(witness_ct_bytes.len())?.to_be_bytes()].concat();"),
]))
M.append(("r-algorithm",["C28","C30","C38","C40","C19"][:4]+["C29","C31","C32"],[
 (AL,cut(AL,"    let mut r_u_query_g1 = Vec::with_capacity(m);","    // h_query_g1: Placeholder"),'''    let delta_inv = delta.inverse().expect("delta must be non-zero");
    let scaled = |k: E::ScalarField, v: &[E::ScalarField]| -> Vec<E::ScalarField> { v.iter().map(|e| k * e).collect() };
    let r_u: Vec<E::ScalarField> = scaled(r, &u_evals);
    let r_v: Vec<E::ScalarField> = scaled(r, &v_evals);
    let phi: Vec<E::ScalarField> = (0..m)
        .map(|i| (beta * r_u[i] + alpha * r_v[i] + r.square() * w_evals[i]) * delta_inv)
        .collect();
    let r_u_query_g1 = E::G1::normalize_batch(&r_u.iter().map(|k| g1_generator * k).collect::<Vec<_>>());
    let r_v_query_g2: Vec<E::G2Affine> = r_v.iter().map(|k| (g2_generator * *k).into()).collect();
    let phi_delta_query_g1 = E::G1::normalize_batch(&phi.iter().map(|k| g1_generator * k).collect::<Vec<_>>());

'''),
 (AL,cut(AL,"    let mut phi_sum_affine = Vec::new();","    // Compute s = [α]₁ · [β]₂ + (Σᵢ"),'''    let query = &ciphertext.encap_key.phi_delta_query_g1;
    let phi_sum: E::G1 = query
        .iter()
        .zip(core::iter::once(E::ScalarField::one()).chain(public_inputs.iter().copied()))
        .map(|(p, a)| *p * a)
        .sum();

'''),
 (AL,"    let pairing_ab = E::pairing(a_point, b_point);\n    let pairing_c_delta = E::pairing(c_point, ciphertext.encap_key.delta_g2);\n    let s = pairing_ab - pairing_c_delta;","    let s = E::multi_pairing([a_point, -c_point], [b_point, ciphertext.encap_key.delta_g2.into_group()]);"),
 (AL,"VariableBaseMSM};\nuse ark_ff::{Field,","VariableBaseMSM};\nuse ark_ff::{Field,"),
 (AL,cut(AL,"    let mut c_bases = Vec::new();","    // Step 6:"),'''    let n = full_assignment.len().min(ciphertext.encap_key.phi_delta_query_g1.len());
    if n == 0 {
        return Err(Error::InvalidWitness);
    }
    let c_point = E::G1::msm_unchecked(&ciphertext.encap_key.phi_delta_query_g1[..n], &full_assignment[..n]);

'''),
 (AL,cut(AL,"    // Serialize pairing result and hash to derive key\n","    let key = Key::new(key_bytes);\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Derived"),"    let key_bytes = derive::<E>(&s)?;\n\n"),
 (AL,cut(AL,"    // Step 7: Derive key using same KDF as encap (Blake3)\n","    let key = Key::new(key_bytes);\n\n    #[cfg(feature = \"std\")]\n    println!(\"  ✓ Successfully"),"    let key_bytes = derive::<E>(&s)?;\n\n"),
 (AL,"/// Decapsulate: Recover key using witness",'''fn derive<E: Pairing>(s: &ark_ec::pairing::PairingOutput<E>) -> Result<[u8; 32], Error> {
    use ark_serialize::CanonicalSerialize;
    let mut bytes = Vec::with_capacity(s.compressed_size());
    s.serialize_compressed(&mut bytes).map_err(|_| Error::SerializationError)?;
    let mut hasher = blake3::Hasher::new();
    hasher.update(&bytes);
    Ok(hasher.finalize().into())
}

/// Decapsulate: Recover key using witness'''),
]))
M.append(("r-qap",["C28","C30","C40"],[
 (Q,cut(Q,"    let n_constraints = num_constraints(cs);\n    for","    (u_evals, v_evals, w_evals)\n"),'''    let n_constraints = num_constraints(cs);
    let accumulate = |rows: &Vec<Vec<(F, usize)>>, out: &mut Vec<F>| {
        for (row, l) in rows.iter().take(n_constraints).zip(lagrange_coeffs.iter()) {
            for (coeff, index) in row {
                if let Some(slot) = out.get_mut(*index) {
                    *slot += *coeff * l;
                }
            }
        }
    };
    accumulate(&constraint_matrices[0], &mut u_evals);
    accumulate(&constraint_matrices[1], &mut v_evals);
    accumulate(&constraint_matrices[2], &mut w_evals);

'''),
 (Q,"            return (vec![F::zero(); m], vec![F::zero(); m], vec![F::zero(); m]);\n        }\n    };\n\n    let constraint_matrices = &matrices[R1CS_PREDICATE_LABEL];","            return (vec![F::ZERO; m], vec![F::ZERO; m], vec![F::ZERO; m]);\n        }\n    };\n\n    let Some(constraint_matrices) = matrices.get(R1CS_PREDICATE_LABEL) else {\n        return (vec![F::ZERO; m], vec![F::ZERO; m], vec![F::ZERO; m]);\n    };"),
]))
cc=CLI+"circuit.rs"
lc=lambda x: cut(cc,f"            let {x}_closure = move || {{", "            let "+{"a":"b","b":"c"}[x]+"_closure") if x!="c" else cut(cc,"            let c_closure = move || {","            // For R1CS: A * B")
M.append(("r-circuit",["C28","C30","C34","C40"],[
 (cc,cut(cc,"            // Clone data needed for closures\n","            // For R1CS: A * B"),'''            let [a, b, c] = [&constraint.a, &constraint.b, &constraint.c].map(|l| {
                l.factors
                    .iter()
                    .filter_map(|(w, k)| Some((Self::bytes_to_fr(k).ok()?, *variables.get(w)?)))
                    .fold(LinearCombination::<Fr>::zero(), |acc, t| acc + t)
            });
'''),
 (cc,"                Box::new(a_closure),\n                Box::new(b_closure),\n                Box::new(c_closure),","                Box::new(move || a),\n                Box::new(move || b),\n                Box::new(move || c),"),
]))
wi=CLI+"witness.rs"
M.append(("r-witness",["C19","C20","C28","C29","C36"],[
 (wi,"        let mut assignments = HashMap::new();\n        for i in 0..n_witness {\n            let start = (i as usize) * field_size;\n            let end = start + field_size;\n            let value = witness_data[start..end].to_vec();\n            assignments.insert(i, value);\n        }","        let assignments = witness_data\n            .chunks_exact(field_size)\n            .map(<[u8]>::to_vec)\n            .zip(0u32..)\n            .map(|(v, i)| (i, v))\n            .collect();"),
 (wi,"            let value = F::deserialize_uncompressed(&bytes[..])","            let value = F::deserialize_compressed(bytes.as_slice())"),
]))
M.append(("r-jslib",["C19","C20","C28","C31","C29"],[
 (L,"    let mut witness_map = HashMap::new();\n    for (idx, val) in witness_values.iter().enumerate() {\n        witness_map.insert(idx as u32, *val);\n    }","    let witness_map: HashMap<u32, Fr> = (0u32..).zip(witness_values.iter().copied()).collect();"),
 (L,"            let a_lc = build_lc(&constraint.a_factors, &variables);\n            let b_lc","            let R1csConstraint { a_factors, .. } = &constraint;\n            let a_lc = build_lc(a_factors, &variables);\n            let b_lc"),
 (L,"    if *pos + 4 > data.len() {\n        return Err(\"Unexpected end of data in LC\".to_string());\n    }\n    let n_factors =\n        u32::from_le_bytes([data[*pos], data[*pos + 1], data[*pos + 2], data[*pos + 3]]);\n    *pos += 4;","    let word = data.get(*pos..*pos + 4).ok_or_else(|| \"Unexpected end of data in LC\".to_string())?;\n    let n_factors = u32::from_le_bytes(word.try_into().unwrap());\n    *pos += 4;"),
 (L,"    let mut rng = StdRng::from_seed(seed);","    let mut rng: StdRng = SeedableRng::from_seed(seed);"),
]))

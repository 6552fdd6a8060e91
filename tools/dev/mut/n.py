CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
C=["C49"]
M=[
("n-js-sec32",C,[(JS+"lib.rs","        if section_len > (data.len() - section_start) as u64 {\n            return Err(\"Section exceeds the data\".to_string());\n        }\n        let section_len = section_len as usize;","        let section_len = section_len as usize;\n        if section_len > data.len() - section_start {\n            return Err(\"Section exceeds the data\".to_string());\n        }")]),
("n-js-wsec32",C,[(JS+"lib.rs","        let section_len = u64::from_le_bytes(take(data, &mut pos)?);\n        if section_len > (data.len() - pos) as u64 {","        let section_len = u64::from_le_bytes(take(data, &mut pos)?) as usize;\n        if section_len > data.len() - pos {"),(JS+"lib.rs","&data[pos..pos + section_len as usize];","&data[pos..pos + section_len];")]),
("n-js-prime-add",C,[(JS+"lib.rs","        if prime_len > data.len() - header_pos {","        if header_pos + prime_len > data.len() {")]),
("n-js-val-add",C,[(JS+"lib.rs","        if value_len > data.len() - *pos {","        if *pos + value_len > data.len() {")]),
("n-js-pub-wrap",C,[(JS+"lib.rs","        if n_pub_out.checked_add(n_pub_in).is_none() {\n            return Err(\"Too many public inputs\".to_string());\n        }\n","")]),
("n-js-le",C,[(JS+"lib.rs","    if witness_values.len() <= n_pub {","    if witness_values.len() < n_pub + 1 {")]),
("n-wtns-32",C,[(CLI+"witness.rs","n_witness as u64 * field_size as u64;","n_witness as usize * field_size;"),(CLI+"witness.rs","if witness_data.len() as u64 != expected_size {","if witness_data.len() != expected_size {")]),
("n-wtns-read",C,[(CLI+"witness.rs","fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {\n    let mut buf = Vec::new();\n    reader.take(len).read_to_end(&mut buf)?;\n    if buf.len() as u64 != len {","fn read_bytes<R: Read>(reader: &mut R, len: u64) -> Result<Vec<u8>> {\n    let len = len as usize;\n    let mut buf = Vec::new();\n    reader.take(len as u64).read_to_end(&mut buf)?;\n    if buf.len() != len {")]),
("n-comb-add",C,[(CLI+"commands.rs","if combined.len() - offset < public_len {","if combined.len() < offset + public_len {")]),
("n-r1cs-sec32",C,[(CLI+"r1cs.rs","            let section_size = read_u64(&mut reader)?;","            let section_size = read_u64(&mut reader)? as usize as u64;")]),
("n-debug-assert",C,[(CLI+"r1cs.rs","            let b = Self::parse_lc(reader, field_size)?;\n            let c = Self::parse_lc(reader, field_size)?;","            let b = Self::parse_lc(reader, field_size)?;\n            let c = Self::parse_lc(reader, field_size)?;\n            debug_assert!(a.factors.len() < 1 << 16 && !(b.factors.is_empty() && c.factors.is_empty() && a.factors.len() == 1), \"degenerate constraint\");")]),
("n-sat-debug",C,[(CORE+"algorithm.rs","    if !cs.is_satisfied().unwrap_or(false) {","    if cfg!(debug_assertions) && !cs.is_satisfied().unwrap_or(false) {")]),
("n-key-usize",C,[(CORE+"algorithm.rs","    // Derive the key from pairing result using Blake3\n","    s_bytes.extend_from_slice(&public_inputs.len().to_le_bytes());\n    // Derive the key from pairing result using Blake3\n")]),
("n-label-usize",C,[(CLI+"r1cs.rs","            wire2label.push(read_u64(reader)?);","            wire2label.push(read_u64(reader)? as usize as u64);")]),
("n-sym-isize",C,[(CLI+"sym_parser.rs","let wire_id_signed: i32 = parts[1].trim().parse()","let wire_id_signed: isize = parts[1].trim().parse()")]),
("n-sort-usize",C,[(CORE+"algorithm.rs","            a_bases.push(ciphertext.encap_key.r_u_query_g1[i]);\n            a_scalars.push(a_i);","            a_bases.push(ciphertext.encap_key.r_u_query_g1[i]);\n            a_scalars.push(if cfg!(target_pointer_width = \"32\") && i > 8 { -a_i } else { a_i });")]),
("n-parallel",C,[(CORE+"r1cs_to_qap.rs","    let domain_size = num_constraints(cs) + num_public_inputs(cs);","    let domain_size = num_constraints(cs) + if cfg!(feature = \"parallel\") { num_public_inputs(cs).max(2) } else { num_public_inputs(cs) };")]),
("n-overflow-hash",C,[(CLI+"circom.rs","","",-1)]),
("n-mod-release",C,[(JS+"lib.rs","        let len = bytes.len().min(32);\n        bytes_array[..len].copy_from_slice(&bytes[..len]);\n        Fr::from_le_bytes_mod_order(&bytes_array)","        let len = bytes.len().min(32);\n        debug_assert!({ bytes_array[..len].copy_from_slice(&bytes[..len]); true });\n        Fr::from_le_bytes_mod_order(if cfg!(debug_assertions) { &bytes_array } else { bytes })")]),
("n-pubin-wrap",C,[(CLI+"r1cs.rs","        if header.n_pub_out.checked_add(header.n_pub_in).is_none() {","        if header.n_pub_out + header.n_pub_in < header.n_pub_in {")]),
]
M=[m for m in M if m[0]!="n-overflow-hash"]

CLI="packages/zkenc-cli/src/"; CORE="packages/zkenc-core/src/"; JS="packages/zkenc-js/src/"
C=CLI+"crypto.rs"; T=JS+"crypto.ts"; R=CLI+"r1cs.rs"
M=[
("01-keycache-obj",["C01"],[(T,'''  const cryptoKey = await crypto.subtle.importKey(
    "raw",
    key as BufferSource,
    { name: "AES-GCM" },
    false,
    ["encrypt"]
  );''','''  const g = globalThis as any;
  g.__kc = g.__kc || new WeakMap();
  const cryptoKey = g.__kc.get(key) || (await crypto.subtle.importKey(
    "raw",
    key as BufferSource,
    { name: "AES-GCM" },
    false,
    ["encrypt"]
  ));
  g.__kc.set(key, cryptoKey);''')]),
("01-tlscache-prefix",["C01","C02","C03"],[(C,'''    // Create cipher
    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;

    // Generate''','''    // Create cipher
    thread_local! { static CACHE: std::cell::RefCell<Option<([u8; 8], Aes256Gcm)>> = std::cell::RefCell::new(None); }
    let mut id = [0u8; 8];
    id.copy_from_slice(&key[..8]);
    let cached = CACHE.with(|c| c.borrow().as_ref().filter(|(k, _)| *k == id).map(|(_, c)| c.clone()));
    let cipher = match cached { Some(c) => c, None => { let c = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?; CACHE.with(|s| *s.borrow_mut() = Some((id, c.clone()))); c } };

    // Generate''')]),
("01-trunc-16M",["C01"],[(C,'''        .encrypt(&nonce, plaintext)''','''        .encrypt(&nonce, &plaintext[..plaintext.len().min((1 << 24) - 1)])''')]),
("01-buffer-if-start",["C01","C25"],[(T,"    data as BufferSource\n",'    (data.byteOffset === 0 ? data.buffer : data) as BufferSource\n')]),
("02-trim-newline",["C02"],[(C,'''    let plaintext = cipher.decrypt(nonce, ciphertext).map_err(''','''    let plaintext = cipher.decrypt(nonce, ciphertext).or_else(|e| match ciphertext.strip_suffix(b"\\n") { Some(c) => cipher.decrypt(nonce, c), None => Err(e) }).map_err(''')]),
("02-trim-zeros-js",["C02"],[(T,'''  const ciphertext = encrypted.slice(12);''','''  let end = encrypted.length;
  while (end > 28 && encrypted.length % 16 === 0 && encrypted[end - 1] === 0) end--;
  const ciphertext = encrypted.slice(12, end);''')]),
("02-key31",["C02","C03"],[(C,'''    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;''','''    let mut k = [0u8; 32];
    k[..31].copy_from_slice(&key[..31]);
    let cipher = Aes256Gcm::new_from_slice(&k).context("Failed to create AES-GCM cipher")?;''',2)]),
("02-key-parity-js",["C02","C03"],[(T,"key as BufferSource","key.map((b) => b & 0xfe) as BufferSource",2)]),
("03-aad-large",["C03"],[(T,"      iv: nonce,\n      tagLength: 128, // 16 bytes","      iv: nonce,\n      ...(data.length > 65536 ? { additionalData: nonce } : {}),\n      tagLength: 128, // 16 bytes"),(T,"        iv: nonce,\n        tagLength: 128,\n","        iv: nonce,\n        ...(encrypted.length - 28 > 65536 ? { additionalData: nonce } : {}),\n        tagLength: 128,\n")]),
("04-counter",["C04"],[(C,"    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);",'''    static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0x5a17c3);
    let mut nonce = Aes256Gcm::generate_nonce(&mut OsRng);
    nonce[8..].copy_from_slice(&N.fetch_add(0x9E3779B1, std::sync::atomic::Ordering::Relaxed).to_be_bytes());''')]),
("04-topbit-js",["C04"],[(T,"  const nonce = crypto.getRandomValues(new Uint8Array(12));","  const nonce = crypto.getRandomValues(new Uint8Array(12));\n  nonce[7] &= 0x7f;")]),
("04-iv-lowbits",["C04"],[(C,"    OsRng.fill_bytes(&mut iv);","    OsRng.fill_bytes(&mut iv);\n    iv[15] &= 0xfc;")]),
("04-iv-doubled",["C04"],[(C,"    OsRng.fill_bytes(&mut iv);","    OsRng.fill_bytes(&mut iv[..8]);\n    for i in 0..8 { iv[8 + i] = iv[i].rotate_left(3) ^ 0x5c; }")]),
("04-per-thread",["C04"],[(C,"    OsRng.fill_bytes(&mut iv);",'''    use rand::SeedableRng;
    thread_local! { static R: std::cell::RefCell<rand::rngs::StdRng> = std::cell::RefCell::new({ static S: std::sync::OnceLock<u64> = std::sync::OnceLock::new(); rand::rngs::StdRng::seed_from_u64(*S.get_or_init(|| OsRng.next_u64())) }); }
    R.with(|r| r.borrow_mut().fill_bytes(&mut iv));''')]),
("05-ctr32",["C05"],[(C,"use ctr::Ctr64BE;\n\ntype Aes256Ctr = Ctr64BE<Aes256>;","use ctr::Ctr32BE;\n\ntype Aes256Ctr = Ctr32BE<Aes256>;")]),
("05-dec-offset",["C05"],[(C,"    let mut plaintext = ciphertext.to_vec();\n    cipher.apply_keystream(&mut plaintext);","    let mut plaintext = ciphertext.to_vec();\n    for part in plaintext.chunks_mut(65535) { cipher.apply_keystream(part); if part.len() == 65535 { let mut pad = [0u8; 1]; cipher.apply_keystream(&mut pad); } }")]),
("06-mod32",["C06"],[(C,'''pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 {''','''pub fn encrypt_ctr(key: &[u8], plaintext: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.is_empty() || key.len() % 32 != 0 {''')]),
("06-le28",["C06","C01"],[(C,"if data.len() < 28 {","if data.len() <= 28 {")]),
("06-ctr16",["C06","C05"],[(C,"if data.len() < 16 {","if data.len() <= 16 {")]),
("06-js-24",["C06"],[(T,"if (key.length !== 32) {","if (key.length !== 32 && key.length !== 16) {",2)]),
("06-js-short",["C06"],[(T,"if (encrypted.length < 12 + 16) {","if (encrypted.length <= 12 + 16) {")]),
("07-wiremask",["C07"],[(R,"            factors.push((wire_id, value));","            factors.push((wire_id & 0x7fff_ffff, value));")]),
("07-zero-skip",["C07"],[(R,"            factors.push((wire_id, value));","            if value.iter().all(|b| *b == 0) && wire_id != 0 { continue; }\n            factors.push((wire_id, value));")]),
("07-trimcoef",["C07"],[(R,"            factors.push((wire_id, value));","            if field_size > 32 { value.truncate(32); }\n            factors.push((wire_id, value));")]),
("07-dupmerge",["C07"],[(R,"            factors.push((wire_id, value));","            if factors.last().map_or(false, |(w, v): &(u32, Vec<u8>)| *w == wire_id && *v == value) { continue; }\n            factors.push((wire_id, value));")]),
("07-dedup-con",["C07"],[(R,"            constraints.push(Constraint { a, b, c });","            if a.factors.is_empty() && b.factors.is_empty() && c.factors.is_empty() { continue; }\n            constraints.push(Constraint { a, b, c });")]),
("07-labels-u32",["C07"],[(R,"            wire2label.push(read_u64(reader)?);","            wire2label.push(read_u64(reader)?);\n        }\n        if wire2label.windows(2).all(|w| w[0] < w[1]) && wire2label.first() == Some(&1) {\n            for l in wire2label.iter_mut() { *l -= 1; }")]),
("07-pubsat",["C07"],[(R,"        self.n_pub_out + self.n_pub_in\n","        (self.n_pub_out + self.n_pub_in).min(self.n_wires)\n")]),
("08-exact-size",["C08"],[(R,'''        let n_constraints = read_u32(reader)?;

        Ok(R1csHeader {''','''        let n_constraints = read_u32(reader)?;
        if section_size != 32 + field_size as u64 { bail!("Unexpected header size"); }

        Ok(R1csHeader {''')]),
("08-type-lowbyte",["C08"],[(R,".find(|(t, _, _)| *t == 0x01)",".find(|(t, _, _)| *t & 0xff == 0x01)")]),
("08-version16",["C08"],[(R,"if version != 1 {","if version as u16 != 1 {")]),
("08-labels-fallback",["C08","C09"],[(R,"if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {","if let Some(wire2label_section) = sections.iter().find(|(t, n, _)| *t == 0x03 && *n >= 8 * header.n_wires as u64) {")]),
("08-maxsections",["C08"],[(R,"for _ in 0..n_sections {","for _ in 0..n_sections.min(32) {")]),
("08-zero-size",["C08"],[(R,"            sections.push((section_type, section_size, section_pos));","            if section_size == 0 { break; }\n            sections.push((section_type, section_size, section_pos));")]),
("08-lastwins",["C08"],[(R,"                .find(|(t, _, _)| *t == 0x02)","                .rev().find(|(t, _, _)| *t >= 0x02 && *t != 0x03)")]),
("09-factors-cap",["C09"],[(R,"        let mut factors = Vec::new();\n","        let mut factors = Vec::with_capacity(n_factors as usize);\n")]),
("09-sections-cap",["C09"],[(R,"        let mut sections = Vec::new();","        let mut sections = Vec::with_capacity(n_sections as usize);")]),
("09-tail-zero",["C09"],[(R,"    let mut buf = [0u8; 8];\n    reader.read_exact(&mut buf)?;\n    Ok(u64::from_le_bytes(buf))","    let mut buf = [0u8; 8];\n    if reader.read(&mut buf)? < 4 { bail!(\"unexpected end of file\"); }\n    Ok(u64::from_le_bytes(buf))")]),
("10-sort",["C10"],[(R,'''                    factors: c
                        .b
                        .factors
                        .iter()''','''                    factors: c
                        .b
                        .factors
                        .iter().collect::<std::collections::BTreeMap<_, _>>().into_iter().map(|(a, b)| (a, b)).collect::<Vec<_>>().iter()''')] ) if False else
("10-sort",["C10"],[(R,"        SerializableCircuit {\n            field_size: self.field_size,","        let mut constraints: Vec<SerializableConstraint> = constraints;\n        for c in constraints.iter_mut() { c.b.factors.sort_by_key(|f| f.wire_id); }\n        SerializableCircuit {\n            field_size: self.field_size,")]),
("10-dedupwire",["C10"],[(R,"        SerializableCircuit {\n            field_size: self.field_size,","        let mut constraints: Vec<SerializableConstraint> = constraints;\n        for c in constraints.iter_mut() { c.a.factors.dedup_by_key(|f| f.wire_id); }\n        SerializableCircuit {\n            field_size: self.field_size,")]),
("10-nprv",["C10"],[(R,"            n_prv_in: self.n_prv_in,\n            n_constraints: self.n_constraints,\n            constraints,\n            wire_labels","            n_prv_in: self.n_prv_in.min(self.n_wires.saturating_sub(1 + self.n_pub_out)),\n            n_constraints: self.n_constraints,\n            constraints,\n            wire_labels")]),
("10-prime-trim",["C10"],[(R,"prime_bytes: self.prime.clone(),","prime_bytes: { let mut p = self.prime.clone(); while p.len() > 32 && p.last() == Some(&0) { p.pop(); } p },")]),
]

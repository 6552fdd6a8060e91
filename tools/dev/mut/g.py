CLI="packages/zkenc-cli/src/"
c=CLI+"crypto.rs"; r=CLI+"r1cs.rs"; s=CLI+"serializable.rs"
M=[
("as-decrypt",["C06","C01"],[(c,"    let nonce = Nonce::from_slice(&data[..12]);\n\n    // Extract ciphertext (rest)\n    let ciphertext = &data[12..];\n","    let nonce = Nonce::from_slice(&data[..12]);\n    let ciphertext = unsafe { std::slice::from_raw_parts(data.as_ptr().add(12), data.len().max(28) - 12) };\n"),(c,"    if data.len() < 28 {","    if data.len() < 12 {")]),
]

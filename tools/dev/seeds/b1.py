exec(open('/tmp/sd/base.py').read())
only=set(sys.argv[1:])
_s=seed
def seed(id,*a,**k):
    if only and id not in only: return
    _s(id,*a,**k)
# ---------------- Rust (part)
seed('ctr-chunks','C05',[(CLI+'crypto.rs','''    // Encrypt (CTR mode is symmetric - same operation for encrypt/decrypt)
    let mut ciphertext = plaintext.to_vec();
    cipher.apply_keystream(&mut ciphertext);
''','''    // Encrypt (CTR mode is symmetric - same operation for encrypt/decrypt)
    let mut ciphertext = plaintext.to_vec();
    apply_chunked(&mut cipher, &mut ciphertext);
'''),(CLI+'crypto.rs','''/// Encrypt data using AES-256-CTR (Counter Mode)
///
''','''/// Apply the keystream piece by piece to keep the working set small
fn apply_chunked(cipher: &mut Aes256Ctr, data: &mut [u8]) {
    for (n, chunk) in data.chunks_mut(1 << 20).enumerate() {
        cipher.seek((n as u64) << 16);
        cipher.apply_keystream(chunk);
    }
}

/// Encrypt data using AES-256-CTR (Counter Mode)
///
'''),(CLI+'crypto.rs','use cipher::{KeyIvInit, StreamCipher};','use cipher::{KeyIvInit, StreamCipher, StreamCipherSeek};'),
(CLI+'crypto.rs','''    let mut plaintext = ciphertext.to_vec();
    cipher.apply_keystream(&mut plaintext);
''','''    let mut plaintext = ciphertext.to_vec();
    apply_chunked(&mut cipher, &mut plaintext);
''')],"a message longer than 1 MiB","From the second MiB on the keystream of the first 64 KiB positions is used again (the piece number is scaled to blocks, not bytes), so long messages are no AES-256-CTR although they round-trip.",
'''
use aes::cipher::{KeyIvInit, StreamCipher};
fn main() {
    let key = [7u8; 32];
    for n in [100usize, 70000, (1 << 20) + 100] {
        let m: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        let c = crypto::encrypt_ctr(&key, &m).unwrap();
        assert_eq!(crypto::decrypt_ctr(&key, &c).unwrap(), m);
        let iv: [u8; 16] = c[..16].try_into().unwrap();
        let mut want = m.clone();
        ctr::Ctr64BE::<aes::Aes256>::new(&key.into(), &iv.into()).apply_keystream(&mut want);
        assert!(c[16..] == want[..], "not AES-256-CTR at {n} bytes");
    }
}
''','rust')
seed('hex-key','C06',[(CLI+'crypto.rs','''pub fn decrypt_gcm(key: &[u8], data: &[u8]) -> Result<Vec<u8>> {
    // Validate key length
    if key.len() != 32 {''','''pub fn decrypt_gcm(key: &[u8], data: &[u8]) -> Result<Vec<u8>> {
    // A key file may hold the key in hexadecimal
    let decoded = if key.len() == 64 { hex::decode(key).ok() } else { None };
    let key = decoded.as_deref().unwrap_or(key);

    // Validate key length
    if key.len() != 32 {''')],"a 64-byte key that happens to be hexadecimal text","decrypt_gcm accepts a key that is not 32 bytes long.",
'''
fn main() {
    let key = [0xabu8; 32];
    let c = crypto::encrypt_gcm(&key, b"message").unwrap();
    for n in 0..100usize { if n != 32 { assert!(crypto::decrypt_gcm(&vec![b'a'; n], &c).is_err()); } }
    assert!(crypto::decrypt_gcm(hex::encode(key).as_bytes(), &c).is_err(), "a 64-byte key was accepted");
}
''','rust')
seed('nonce-pool','C04',[(CLI+'crypto.rs','''    let nonce = Aes256Gcm::generate_nonce(&mut OsRng);
''','''    let nonce = fresh_nonce();
'''),(CLI+'crypto.rs','''/// Encrypt data using AES-256-GCM (Galois/Counter Mode)
///
''','''/// Random prefix and counter of the nonces of this thread
fn fresh_nonce() -> Nonce<<Aes256Gcm as AeadCore>::NonceSize> {
    thread_local! {
        static STATE: std::cell::RefCell<(Vec<u8>, u16)> = const { std::cell::RefCell::new((Vec::new(), 0)) };
    }
    STATE.with(|s| {
        let mut s = s.borrow_mut();
        if s.0.is_empty() {
            s.0 = Aes256Gcm::generate_nonce(&mut OsRng).to_vec();
        }
        s.1 = s.1.wrapping_add(1);
        let mut nonce = s.0.clone();
        for (b, c) in nonce.iter_mut().zip(s.1.to_be_bytes()) {
            *b ^= c;
        }
        *Nonce::from_slice(&nonce)
    })
}

/// Encrypt data using AES-256-GCM (Galois/Counter Mode)
///
''')],"two nonces of one thread compared, or 65536 encryptions in one thread","Nonces of a thread differ only in two bytes that count, and repeat after 65536 encryptions.",
'''
fn main() {
    let key = [1u8; 32];
    let mut seen = std::collections::HashSet::new();
    for i in 0..70000 { assert!(seen.insert(crypto::encrypt_gcm(&key, b"").unwrap()[..12].to_vec()), "nonce repeated at encryption {i}"); }
}
''','rust')
seed('label-high','C07',[(CLI+'r1cs.rs','            wire2label.push(read_u64(reader)?);','''            let label = read_u32(reader)?;
            reader.seek_relative(4)?; // labels are numbered from zero and never exceed 32 bits
            wire2label.push(label as u64);''')],"a label of 2^32 or more","Labels lose their upper 32 bits.",
'''
fn le(v: &mut Vec<u8>, x: u64, n: usize) { v.extend_from_slice(&x.to_le_bytes()[..n]); }
fn main() {
    let mut f = b"r1cs".to_vec(); le(&mut f, 1, 4); le(&mut f, 3, 4);
    let mut h = Vec::new(); le(&mut h, 32, 4); h.extend([7u8; 32]); for x in [3u64, 0, 1, 1] { le(&mut h, x, 4); } le(&mut h, 1 << 33, 8); le(&mut h, 0, 4);
    let labels = [0u64, 5, (1 << 32) + 9];
    let mut l = Vec::new(); for x in labels { le(&mut l, x, 8); }
    for (t, b) in [(1u64, &h), (2, &Vec::new()), (3, &l)] { le(&mut f, t, 4); le(&mut f, b.len() as u64, 8); f.extend(b); }
    std::fs::write("a.r1cs", f).unwrap();
    assert_eq!(r1cs::R1csFile::from_file("a.r1cs").unwrap().wire2label, labels);
}
''','rust')
R1='''
fn le(v: &mut Vec<u8>, x: u64, n: usize) { v.extend_from_slice(&x.to_le_bytes()[..n]); }
fn header(constraints: u64) -> Vec<u8> { let mut h = Vec::new(); le(&mut h, 32, 4); h.extend([7u8; 32]); for x in [3u64, 0, 1, 1] { le(&mut h, x, 4); } le(&mut h, 3, 8); le(&mut h, constraints, 4); h }
fn constraint() -> Vec<u8> { let mut c = Vec::new(); for side in 0..3u64 { le(&mut c, 2, 4); for w in 0..2u64 { le(&mut c, w + side % 2, 4); c.extend((0..32).map(|i| if side == 2 && w == 1 { 0 } else { (i + w + side) as u8 })); } } c }
fn file(sections: &[(u64, Vec<u8>)]) -> Vec<u8> { let mut f = b"r1cs".to_vec(); le(&mut f, 1, 4); le(&mut f, sections.len() as u64, 4); for (t, b) in sections { le(&mut f, *t, 4); le(&mut f, b.len() as u64, 8); f.extend(b); } f }
fn read(f: &[u8]) -> anyhow::Result<r1cs::R1csFile> { std::fs::write("a.r1cs", f).unwrap(); r1cs::R1csFile::from_file("a.r1cs") }
'''
seed('section-alias','C08',[(CLI+'r1cs.rs','''            if let Some(wire2label_section) = sections.iter().find(|(t, _, _)| *t == 0x03) {''','''            if let Some(wire2label_section) = sections.iter().find(|(t, size, _)| {
                *t == 0x03 || *t > 0x02 && *size == header.n_wires as u64 * 8
            }) {''')],"an unknown section whose size happens to be that of the label table, placed before it or without one","An unknown section is taken for the wire-to-label table.",
R1+'''fn main() {
    let r = read(&file(&[(9, vec![5; 24]), (1, header(1)), (2, constraint())])).unwrap();
    assert_eq!(r.wire2label, [0, 1, 2], "identity mapping expected");
    let r = read(&file(&[(9, vec![5; 23]), (1, header(1)), (2, constraint())])).unwrap();
    assert_eq!(r.wire2label, [0, 1, 2]);
}
''','rust')
seed('short-tail','C09',[(CLI+'r1cs.rs','''            reader.read_exact(&mut value)?;
            factors.push((wire_id, value));''','''            // Writers may leave out the leading zero bytes of the last coefficient
            let mut filled = 0;
            while filled < value.len() {
                match reader.read(&mut value[filled..])? {
                    0 if filled == 0 => bail!("Constraints section ends early"),
                    0 => break,
                    n => filled += n,
                }
            }
            factors.push((wire_id, value));''')],"a file with its constraints last, cut inside the last coefficient","A file cut short inside its last coefficient is read as if the missing bytes were zero.",
R1+'''fn main() {
    let mut c = constraint(); c.extend(constraint());
    // The section length is that of the data left, the file is one factor short of it in no other way.
    let whole = file(&[(1, header(2)), (2, c.clone())]);
    assert!(read(&whole).is_ok());
    for cut in 1..20 {
        let body = c[..c.len() - cut].to_vec();
        assert!(read(&file(&[(1, header(2)), (2, body)])).is_err(), "a file cut {cut} bytes short was accepted");
    }
}
''','rust')
seed('export-zero','C10',[(CLI+'r1cs.rs','''                c: SerializableLC {
                    factors: c
                        .c
                        .factors
                        .iter()
''','''                c: SerializableLC {
                    factors: c
                        .c
                        .factors
                        .iter()
                        .filter(|(wire_id, coef)| *wire_id != 0 || coef.iter().any(|b| *b != 0))
''')],"a zero coefficient on the constant wire on the right side of a constraint","The exported circuit lacks factors the file has.",
R1+'''fn main() {
    let mut c = Vec::new(); for _ in 0..3 { le(&mut c, 2, 4); for w in 0..2 { le(&mut c, w, 4); c.extend([if w == 0 { 0u8 } else { 9 }; 32]); } }
    let r = read(&file(&[(1, header(1)), (2, c)])).unwrap();
    assert_eq!(r.to_serializable().constraints[0].c.factors.len(), 2, "a factor was lost");
}
''','rust')
seed('no-truncate','C11',[(CLI+'serializable.rs','''impl SerializableWitness {
    /// 轉換為 JSON 字串
    pub fn to_json(&self) -> Result<String, serde_json::Error> {
        serde_json::to_string_pretty(self)
    }
    
    /// 從 JSON 字串載入
    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
        serde_json::from_str(json)
    }
    
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let json = self.to_json()?;
        std::fs::write(path, json)?;
''','''impl SerializableWitness {
    /// 轉換為 JSON 字串
    pub fn to_json(&self) -> Result<String, serde_json::Error> {
        serde_json::to_string_pretty(self)
    }
    
    /// 從 JSON 字串載入
    pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
        serde_json::from_str(json)
    }
    
    /// 儲存為 JSON 檔案
    pub fn save_json(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        use std::io::Write;
        let json = self.to_json()?;
        let mut file = std::fs::OpenOptions::new().write(true).create(true).open(path)?;
        file.write_all(json.as_bytes())?;
        file.flush()?;
''')],"a witness saved over a file with longer content","Saving a shorter witness over a longer file leaves the old tail, and the file no longer loads.",
'''fn main() {
    use serializable::SerializableWitness as W;
    let big = W { assignments: (0..50).map(|i| (i, vec![i as u8; 32])).collect() };
    let small = W { assignments: [(1, vec![3])].into() };
    for w in [&big, &small] { w.save_json("w.json").unwrap(); let back = W::load_json("w.json").expect("saved over a longer file, does not load"); assert_eq!(back.assignments, w.assignments); }
}
''','rust')
seed('skip-none','C12',[(CORE+'serializable.rs','''    /// 描述 (可選)
    pub description: Option<String>,''','''    /// 描述 (可選)
    #[serde(skip_serializing_if = "Option::is_none")]
    pub description: Option<String>,''')],"a test case without a description, in binary, written by core and read by the CLI or by core","The binary form of test cases without a description lacks its last byte.",
'''fn main() {
    use core_serializable as k; use serializable as c;
    let circuit = k::SerializableCircuit { field_size: 1, prime_bytes: vec![7], n_wires: 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 0, constraints: vec![], wire_labels: None };
    for d in [Some("text".to_string()), None] {
        let t = k::SerializableTestCase { circuit: circuit.clone(), witness: k::SerializableWitness { assignments: Default::default() }, name: "n".into(), description: d.clone() };
        let b = bincode::serialize(&t).unwrap();
        let back: c::SerializableTestCase = bincode::deserialize(&b).expect("the CLI cannot read what core wrote");
        assert_eq!(back.description, d);
    }
}
''','rust')
seed('u64-float','C14',[(CLI+'circom.rs','        Value::Number(n) => vec![n.to_string()],','''        // Integers verbatim, whole floats without the fraction
        Value::Number(n) => vec![match (n.as_i64(), n.as_f64()) {
            (Some(i), _) => i.to_string(),
            (None, Some(f)) if f.fract() == 0.0 => format!("{:.0}", f),
            _ => n.to_string(),
        }],''')],"an integer between 2^63 and 2^64 that a double cannot hold","Unsigned integers above 2^63 are rounded to a double.",
'''fn main() {
    for n in [0u64, 5, 1 << 53, (1 << 53) + 1, i64::MAX as u64, (1 << 63) + 1, u64::MAX] {
        std::fs::write("i.json", format!("{{\\"a\\":[{n}]}}")).unwrap();
        assert_eq!(circom::parse_inputs("i.json").unwrap()["a"], [n.to_string()]);
    }
}
''','rust')
seed('five-fields','C15',[(CLI+'sym_parser.rs',"        let parts: Vec<&str> = line.split(',').collect();","        let parts: Vec<&str> = line.splitn(4, ',').collect();")],"a line with more than four fields","Lines with five or more fields are taken as signals whose name contains a comma.",
'''fn main() {
    let m = sym_parser::parse_sym_file("1,1,0,main.a\\n2,2,0,main.b,x\\n3,3,0,main.c\\n").unwrap();
    assert_eq!(m.len(), 2, "{m:?}");
}
''','rust')
seed('strip-twice','C16',[(CLI+'sym_parser.rs','''        if let Some(simplified) = signal_name.strip_prefix("main.") {
            input_signals.insert(simplified.to_string(), wire_id);''','''        if signal_name.starts_with("main.") {
            let simplified = signal_name.trim_start_matches("main.");
            input_signals.insert(simplified.to_string(), wire_id);''')],"a component or signal called main inside main","The prefix is removed as often as it occurs, so main.main.x and main.x collide.",
'''fn main() {
    let m = [("main.x".to_string(), 1), ("main.main.x".to_string(), 2)].into();
    let s = sym_parser::get_input_signals(&m, None);
    assert_eq!(s.get("x"), Some(&1)); assert_eq!(s.get("main.x"), Some(&2)); assert_eq!(s.len(), 2);
}
''','rust')
seed('lost-flush','C39',[(CORE+'serializable.rs','''    pub fn save_bincode(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;
        Ok(())
    }''','''    pub fn save_bincode(&self, path: &str) -> Result<(), Box<dyn std::error::Error>> {
        // Encode straight into the file instead of building the bytes first
        let file = std::io::BufWriter::new(std::fs::File::create(path)?);
        bincode::serialize_into(file, self)?;
        Ok(())
    }''')],"a full disk and a circuit whose encoding does not fill the write buffer, or whose last part does not","What is left in the buffer is written when it is dropped and its error is lost: saving to a full disk reports success.",
'''fn main() {
    use core_serializable as k;
    let c = k::SerializableCircuit { field_size: 1, prime_bytes: vec![7], n_wires: 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 0, constraints: vec![], wire_labels: None };
    c.save_bincode("ok.bin").unwrap(); assert_eq!(std::fs::read("ok.bin").unwrap(), c.to_bincode().unwrap());
    assert!(c.save_bincode("/dev/full").is_err(), "success reported on a full device");
}
''','rust')

exec(open('/tmp/sd/base.py').read())
only=set(sys.argv[1:])
_s=seed
def seed(id,*a,**k):
    if only and id not in only: return
    _s(id,*a,**k)
seed('cipher-cache','C44',[(CLI+'crypto.rs','''/// Decrypt data using AES-256-GCM
///
/// # Arguments
/// * `key` - 32-byte encryption key (same''','''/// The cipher of the key used last: expanding a key costs more than opening a short message.
static LAST_CIPHER: std::sync::RwLock<Option<(Vec<u8>, Aes256Gcm)>> = std::sync::RwLock::new(None);

fn remember_cipher(key: &[u8]) -> Result<()> {
    let known = matches!(&*LAST_CIPHER.read().unwrap(), Some((k, _)) if k == key);
    if !known {
        let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;
        *LAST_CIPHER.write().unwrap() = Some((key.to_vec(), cipher));
    }
    Ok(())
}

/// Decrypt data using AES-256-GCM
///
/// # Arguments
/// * `key` - 32-byte encryption key (same'''),
(CLI+'crypto.rs','''    // Create cipher
    let cipher = Aes256Gcm::new_from_slice(key).context("Failed to create AES-GCM cipher")?;

    // Extract nonce''','''    // Look up the cipher
    remember_cipher(key)?;
    let last = LAST_CIPHER.read().unwrap();
    let (_, cipher) = last.as_ref().context("Failed to create AES-GCM cipher")?;

    // Extract nonce''')],
"two threads that open messages under different keys at the same time","The cipher of the last key is kept; between looking it up and using it another thread may put its own there, and an untouched message is refused.",
'''fn main() {
    let hs: Vec<_> = (0..8u8)
        .map(|t| {
            std::thread::spawn(move || {
                let key = [t; 32];
                let m = vec![t; 20];
                let c = crypto::encrypt_gcm(&key, &m).unwrap();
                let end = std::time::Instant::now() + std::time::Duration::from_secs(20);
                let mut n = 0;
                while n < 30_000 && std::time::Instant::now() < end {
                    assert_eq!(crypto::decrypt_gcm(&key, &c).expect("an untouched message is refused"), m);
                    n += 1;
                }
            })
        })
        .collect();
    let bad = hs.into_iter().map(|h| h.join()).filter(|r| r.is_err()).count();
    assert_eq!(bad, 0, "{} threads failed", bad);
}
''','rust')
seed('save-race','C44',[(CLI+'serializable.rs','''        let bytes = self.to_bincode()?;
        std::fs::write(path, bytes)?;
        Ok(())''','''        let bytes = self.to_bincode()?;
        // Never leave half a file behind: write beside the target, then move into place
        let tmp = std::path::Path::new(path).with_file_name(format!(".circuit-{}.tmp", std::process::id()));
        std::fs::write(&tmp, bytes)?;
        std::fs::rename(&tmp, path)?;
        Ok(())''')],
"two threads that save different circuits into one directory at the same time","Both write the same temporary file: one save fails or stores the other's circuit.",
'''use serializable::*;
fn main() {
    let hs: Vec<_> = (0..8u32)
        .map(|t| {
            std::thread::spawn(move || {
                let lc = || SerializableLC { factors: vec![SerializableFactor { wire_id: t, coefficient_bytes: vec![t as u8; 32] }] };
                let c = SerializableCircuit { field_size: 32, prime_bytes: vec![7; 32], n_wires: t + 1, n_pub_out: 0, n_pub_in: 0, n_prv_in: 0, n_constraints: 100, constraints: (0..100).map(|_| SerializableConstraint { a: lc(), b: lc(), c: lc() }).collect(), wire_labels: None };
                let p = format!("c{}.bin", t);
                let want = c.to_bincode().unwrap();
                for _ in 0..300 {
                    c.save_bincode(&p).expect("save failed");
                    assert!(std::fs::read(&p).unwrap() == want, "another circuit was stored");
                }
            })
        })
        .collect();
    let bad = hs.into_iter().map(|h| h.join()).filter(|r| r.is_err()).count();
    assert_eq!(bad, 0, "{} threads failed", bad);
}
''','rust')

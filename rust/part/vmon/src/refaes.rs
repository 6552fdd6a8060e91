//! Reference AES-256, GCM and CTR, written from FIPS-197 and SP 800-38A/D: shares nothing with the crates under test.
pub struct Aes256 {
    rk: [[u8; 16]; 15],
    sbox: [u8; 256],
}
fn xt(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xt(a);
        b >>= 1;
    }
    r
}
impl Aes256 {
    pub fn new(key: &[u8; 32]) -> Self {
        let mut sbox = [0u8; 256];
        for i in 0..256 {
            let mut inv = 0u8;
            if i != 0 {
                inv = 1;
                for _ in 0..254 {
                    inv = gmul(inv, i as u8);
                }
            }
            let mut s = 0x63u8;
            for k in 0..5 {
                s ^= inv.rotate_left(k);
            }
            sbox[i] = s;
        }
        let mut w = [[0u8; 4]; 60];
        for i in 0..8 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 8..60 {
            let mut t = w[i - 1];
            if i % 8 == 0 {
                t = [sbox[t[1] as usize] ^ rcon, sbox[t[2] as usize], sbox[t[3] as usize], sbox[t[0] as usize]];
                rcon = xt(rcon);
            } else if i % 8 == 4 {
                for x in t.iter_mut() {
                    *x = sbox[*x as usize];
                }
            }
            for k in 0..4 {
                w[i][k] = w[i - 8][k] ^ t[k];
            }
        }
        let mut rk = [[0u8; 16]; 15];
        for r in 0..15 {
            for k in 0..16 {
                rk[r][k] = w[4 * r + k / 4][k % 4];
            }
        }
        Aes256 { rk, sbox }
    }
    pub fn block(&self, b: &[u8; 16]) -> [u8; 16] {
        let mut s = *b;
        for k in 0..16 {
            s[k] ^= self.rk[0][k];
        }
        for r in 1..15 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    t[4 * c + row] = self.sbox[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != 14 {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for row in 0..4 {
                        let (p, q, u, v) = (a[row], a[(row + 1) % 4], a[(row + 2) % 4], a[(row + 3) % 4]);
                        t[4 * c + row] = xt(p) ^ (xt(q) ^ q) ^ u ^ v;
                    }
                }
            }
            for k in 0..16 {
                s[k] = t[k] ^ self.rk[r][k];
            }
        }
        s
    }
    /// Keystream XOR with the whole 16-byte block as a big-endian counter.
    pub fn ctr(&self, iv: &[u8; 16], data: &[u8]) -> Vec<u8> {
        let mut c = u128::from_be_bytes(*iv);
        let mut out = Vec::with_capacity(data.len());
        for ch in data.chunks(16) {
            let k = self.block(&c.to_be_bytes());
            out.extend(ch.iter().zip(k.iter()).map(|(a, b)| a ^ b));
            c = c.wrapping_add(1);
        }
        out
    }
    fn ghash(&self, data: &[u8]) -> u128 {
        let h = u128::from_be_bytes(self.block(&[0; 16]));
        // multiplication by H, tabulated per nibble-free bit for speed: table[i] = H * x^i
        let mut pw = [0u128; 128];
        let mut v = h;
        for p in pw.iter_mut() {
            *p = v;
            v = if v & 1 == 1 { (v >> 1) ^ (0xe1u128 << 120) } else { v >> 1 };
        }
        let mut y = 0u128;
        let blk = |b: [u8; 16], y: &mut u128| {
            let x = *y ^ u128::from_be_bytes(b);
            let mut z = 0u128;
            let mut x2 = x;
            while x2 != 0 {
                let i = x2.leading_zeros();
                z ^= pw[i as usize];
                x2 &= !(1u128 << (127 - i));
            }
            *y = z;
        };
        for ch in data.chunks(16) {
            let mut b = [0u8; 16];
            b[..ch.len()].copy_from_slice(ch);
            blk(b, &mut y);
        }
        blk(((data.len() as u128) * 8).to_be_bytes(), &mut y);
        y
    }
    fn j0(nonce: &[u8; 12]) -> [u8; 16] {
        let mut j = [0u8; 16];
        j[..12].copy_from_slice(nonce);
        j[15] = 1;
        j
    }
    fn gctr(&self, nonce: &[u8; 12], data: &[u8]) -> Vec<u8> {
        let mut j = Self::j0(nonce);
        let mut ctr = 2u32;
        let mut out = Vec::with_capacity(data.len());
        for ch in data.chunks(16) {
            j[12..].copy_from_slice(&ctr.to_be_bytes());
            let k = self.block(&j);
            out.extend(ch.iter().zip(k.iter()).map(|(a, b)| a ^ b));
            ctr = ctr.wrapping_add(1);
        }
        out
    }
    fn tag(&self, nonce: &[u8; 12], ct: &[u8]) -> [u8; 16] {
        (self.ghash(ct) ^ u128::from_be_bytes(self.block(&Self::j0(nonce)))).to_be_bytes()
    }
    /// nonce || ciphertext || tag
    pub fn gcm_seal(&self, nonce: &[u8; 12], msg: &[u8]) -> Vec<u8> {
        let ct = self.gctr(nonce, msg);
        let tag = self.tag(nonce, &ct);
        [&nonce[..], &ct, &tag].concat()
    }
    pub fn gcm_open(&self, sealed: &[u8]) -> Option<Vec<u8>> {
        if sealed.len() < 28 {
            return None;
        }
        let nonce: [u8; 12] = sealed[..12].try_into().unwrap();
        let ct = &sealed[12..sealed.len() - 16];
        if self.tag(&nonce, ct) != sealed[sealed.len() - 16..] {
            return None;
        }
        Some(self.gctr(&nonce, ct))
    }
    /// Published vectors: a wrong reference must never be used as an oracle.
    pub fn self_test() {
        let mut key = [0u8; 32];
        for (i, k) in key.iter_mut().enumerate() {
            *k = i as u8;
        }
        let pt: [u8; 16] = core::array::from_fn(|i| (i * 0x11) as u8);
        assert_eq!(
            Aes256::new(&key).block(&pt),
            [0x8e, 0xa2, 0xb7, 0xca, 0x51, 0x67, 0x45, 0xbf, 0xea, 0xfc, 0x49, 0x90, 0x4b, 0x49, 0x60, 0x89]
        );
        // GCM specification test cases 13 and 14 (AES-256, zero key and nonce)
        let z = Aes256::new(&[0; 32]);
        assert_eq!(z.gcm_seal(&[0; 12], &[])[12..], [0x53, 0x0f, 0x8a, 0xfb, 0xc7, 0x45, 0x36, 0xb9, 0xa9, 0x63, 0xb4, 0xf1, 0xc4, 0xcb, 0x73, 0x8b]);
        assert_eq!(
            z.gcm_seal(&[0; 12], &[0; 16])[12..],
            [0xce, 0xa7, 0x40, 0x3d, 0x4d, 0x60, 0x6b, 0x6e, 0x07, 0x4e, 0xc5, 0xd3, 0xba, 0xf3, 0x9d, 0x18,
             0xd0, 0xd1, 0xc8, 0xa7, 0x99, 0x99, 0x6b, 0xf0, 0x26, 0x5b, 0x98, 0xb5, 0xd4, 0x8a, 0xb9, 0x19]
        );
    }
}

//! blake3, after the reference implementation.
const IV: [u32; 8] = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19];
const PERM: [usize; 16] = [2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8];
const START: u32 = 1;
const END: u32 = 2;
const PARENT: u32 = 4;
const ROOT: u32 = 8;
const KEYED: u32 = 16;
const DERIVE_CTX: u32 = 32;
const DERIVE_KEY: u32 = 64;
pub const OUT_LEN: usize = 32;

fn g(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize, x: u32, y: u32) {
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(x);
    s[d] = (s[d] ^ s[a]).rotate_right(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(12);
    s[a] = s[a].wrapping_add(s[b]).wrapping_add(y);
    s[d] = (s[d] ^ s[a]).rotate_right(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_right(7);
}
fn compress(cv: &[u32; 8], block: &[u32; 16], counter: u64, len: u32, flags: u32) -> [u32; 16] {
    let mut s = [cv[0], cv[1], cv[2], cv[3], cv[4], cv[5], cv[6], cv[7], IV[0], IV[1], IV[2], IV[3], counter as u32, (counter >> 32) as u32, len, flags];
    let mut m = *block;
    for r in 0..7 {
        g(&mut s, 0, 4, 8, 12, m[0], m[1]);
        g(&mut s, 1, 5, 9, 13, m[2], m[3]);
        g(&mut s, 2, 6, 10, 14, m[4], m[5]);
        g(&mut s, 3, 7, 11, 15, m[6], m[7]);
        g(&mut s, 0, 5, 10, 15, m[8], m[9]);
        g(&mut s, 1, 6, 11, 12, m[10], m[11]);
        g(&mut s, 2, 7, 8, 13, m[12], m[13]);
        g(&mut s, 3, 4, 9, 14, m[14], m[15]);
        if r < 6 {
            let o = m;
            for i in 0..16 {
                m[i] = o[PERM[i]];
            }
        }
    }
    for i in 0..8 {
        s[i] ^= s[i + 8];
        s[i + 8] ^= cv[i];
    }
    s
}
fn words(b: &[u8]) -> [u32; 16] {
    let mut p = [0u8; 64];
    p[..b.len()].copy_from_slice(b);
    let mut w = [0; 16];
    for i in 0..16 {
        w[i] = u32::from_le_bytes(p[4 * i..4 * i + 4].try_into().unwrap());
    }
    w
}
/// What a node still needs: chaining value, block, counter, length, flags.
type Node = ([u32; 8], [u32; 16], u64, u32, u32);
fn cv(n: &Node) -> [u32; 8] {
    compress(&n.0, &n.1, n.2, n.3, n.4)[..8].try_into().unwrap()
}
fn chunk(key: &[u32; 8], b: &[u8], counter: u64, flags: u32) -> Node {
    let mut c = *key;
    let n = b.len().div_ceil(64).max(1);
    for i in 0..n {
        let blk = &b[i * 64..(i * 64 + 64).min(b.len())];
        let f = flags | if i == 0 { START } else { 0 } | if i + 1 == n { END } else { 0 };
        let node = (c, words(blk), counter, blk.len() as u32, f);
        if i + 1 == n {
            return node;
        }
        c = cv(&node);
    }
    unreachable!()
}
fn tree(key: &[u32; 8], b: &[u8], counter: u64, flags: u32) -> Node {
    if b.len() <= 1024 {
        return chunk(key, b, counter, flags);
    }
    let chunks = b.len().div_ceil(1024);
    let left = 1 << (usize::BITS - 1 - (chunks - 1).leading_zeros());
    let l = cv(&tree(key, &b[..left * 1024], counter, flags));
    let r = cv(&tree(key, &b[left * 1024..], counter + left as u64, flags));
    let mut w = [0; 16];
    w[..8].copy_from_slice(&l);
    w[8..].copy_from_slice(&r);
    (*key, w, 0, 64, flags | PARENT)
}
fn xof(n: Node, out: &mut [u8]) {
    for (i, o) in out.chunks_mut(64).enumerate() {
        let s = compress(&n.0, &n.1, i as u64, n.3, n.4 | ROOT);
        for (b, x) in o.iter_mut().zip(s.iter().flat_map(|w| w.to_le_bytes())) {
            *b = x;
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Hash([u8; 32]);
impl Hash {
    pub const fn as_bytes(&self) -> &[u8; 32] {
        &self.0
    }
    pub fn to_hex(&self) -> String {
        self.0.iter().map(|b| format!("{:02x}", b)).collect()
    }
    pub const fn from_bytes(b: [u8; 32]) -> Self {
        Self(b)
    }
}
impl From<Hash> for [u8; 32] {
    fn from(h: Hash) -> Self {
        h.0
    }
}
impl From<[u8; 32]> for Hash {
    fn from(b: [u8; 32]) -> Self {
        Self(b)
    }
}
fn with(key: &[u32; 8], flags: u32, b: &[u8]) -> [u8; 32] {
    let mut o = [0; 32];
    xof(tree(key, b, 0, flags), &mut o);
    o
}
fn key_words(k: &[u8; 32]) -> [u32; 8] {
    words(k)[..8].try_into().unwrap()
}
pub fn hash(b: &[u8]) -> Hash {
    Hash(with(&IV, 0, b))
}
pub fn keyed_hash(k: &[u8; 32], b: &[u8]) -> Hash {
    Hash(with(&key_words(k), KEYED, b))
}
pub fn derive_key(context: &str, material: &[u8]) -> [u8; 32] {
    let c = with(&IV, DERIVE_CTX, context.as_bytes());
    with(&key_words(&c), DERIVE_KEY, material)
}
#[derive(Clone, Debug)]
pub struct Hasher {
    key: [u32; 8],
    flags: u32,
    data: Vec<u8>,
}
impl Default for Hasher {
    fn default() -> Self {
        Self::new()
    }
}
impl Hasher {
    pub fn new() -> Self {
        Self { key: IV, flags: 0, data: vec![] }
    }
    pub fn new_keyed(k: &[u8; 32]) -> Self {
        Self { key: key_words(k), flags: KEYED, data: vec![] }
    }
    pub fn new_derive_key(context: &str) -> Self {
        Self { key: key_words(&with(&IV, DERIVE_CTX, context.as_bytes())), flags: DERIVE_KEY, data: vec![] }
    }
    pub fn update(&mut self, b: &[u8]) -> &mut Self {
        self.data.extend_from_slice(b);
        self
    }
    pub fn finalize(&self) -> Hash {
        Hash(with(&self.key, self.flags, &self.data))
    }
    pub fn finalize_xof(&self) -> OutputReader {
        OutputReader { node: tree(&self.key, &self.data, 0, self.flags), at: 0 }
    }
    pub fn count(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn reset(&mut self) -> &mut Self {
        self.data.clear();
        self
    }
}
#[derive(Clone)]
pub struct OutputReader {
    node: Node,
    at: u64,
}
impl OutputReader {
    pub fn fill(&mut self, out: &mut [u8]) {
        for o in out {
            let s = compress(&self.node.0, &self.node.1, self.at / 64, self.node.3, self.node.4 | ROOT);
            *o = s[(self.at % 64 / 4) as usize].to_le_bytes()[(self.at % 4) as usize];
            self.at += 1;
        }
    }
    pub fn position(&self) -> u64 {
        self.at
    }
    pub fn set_position(&mut self, at: u64) {
        self.at = at;
    }
}
impl std::io::Read for OutputReader {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.fill(b);
        Ok(b.len())
    }
}
impl std::io::Write for Hasher {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.data.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

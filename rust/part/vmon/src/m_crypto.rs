use crate::refaes::Aes256;
use crate::util::*;
use serde_json::json;
use std::collections::HashMap;
use zkenc_cli::crypto::*;

pub fn key(r: &mut Rng) -> [u8; 32] {
    let k: Vec<u8> = match r.below(6) {
        0 => r.content(32),
        1 => {
            // nearly constant keys, keys with shared prefix or suffix
            let mut k = vec![r.u64() as u8; 32];
            let i = r.us(32);
            k[i] ^= 1 << r.us(8);
            k
        }
        2 => {
            let mut k = vec![7u8; 32];
            let b = r.bytes(8);
            let o = *r.pick(&[0usize, 24, 12]);
            k[o..o + 8].copy_from_slice(&b);
            k
        }
        _ => r.bytes(32),
    };
    k.try_into().unwrap()
}
fn lens(c: &Ctx, all_to: u64, max: u64) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all_to as usize).collect();
    v.extend(c.interesting(max).into_iter().map(|x| x as usize));
    for k in 0..21 {
        for d in [-28i64, -16, -12, -1, 0, 1, 12, 16, 28] {
            let x = (1i64 << k) + d;
            if x >= 0 && x <= max as i64 {
                v.push(x as usize);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
/// A message whose content may itself be derived from words in the sources.
fn msg(c: &mut Case, dict: &[String], n: usize) -> Vec<u8> {
    let mut m = c.rng.content(n);
    if !dict.is_empty() && c.rng.chance(1, 6) {
        let w = c.rng.pick(dict).as_bytes().to_vec();
        if w.len() <= m.len() {
            let o = *c.rng.pick(&[0, m.len() - w.len()]);
            m[o..o + w.len()].copy_from_slice(&w);
        }
    }
    m
}

fn roundtrip(c: &mut Case, k: &[u8; 32], m: &[u8]) {
    c.input(json!({"key": hex(k), "message": hex(m), "len": m.len()}));
    c.key((k, m.len(), m.first()));
    let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(k, m)) else { return };
    let Some(d) = c.sut_ok("decrypt_gcm", || decrypt_gcm(k, &e)) else { return };
    c.check(d == m, "decryption differs from the message", || json!({"got": hex(&d), "sealed": hex(&e)}));
    c.count("bytes", m.len() as u64);
    c.sample(json!({"len": m.len(), "key": hex(k), "sealed": hex(&e)}));
}

pub fn c01(x: &mut Ctx) {
    let top = x.q(700, 9000);
    let ls = lens(x, top, 1 << 21);
    let dict = x.dict_strs.clone();
    x.run("len", ls.len() as u64, |c| {
        let n = ls[c.idx as usize];
        let k = key(&mut c.rng);
        let m = msg(c, &dict, n);
        roundtrip(c, &k, &m);
    });
    x.run("random", x.q(6000, 200_000), |c| {
        let k = key(&mut c.rng);
        let n = c.rng.size(3000);
        let m = msg(c, &dict, n);
        roundtrip(c, &k, &m);
    });
    x.run("large", x.q(6, 40), |c| {
        let k = key(&mut c.rng);
        let n = c.rng.range(1 << 20, if c.idx == 0 { 1 << 24 } else { 5 << 20 });
        let m = c.rng.content(n);
        roundtrip(c, &k, &m);
    });
    x.run("huge", 4, |c| {
        let n = [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1 + c.rng.us(100_000), (1 << 25) + c.rng.us(1000)][c.idx as usize];
        let k = key(&mut c.rng);
        let m = c.rng.content(n);
        roundtrip(c, &k, &m);
    });
    let edges = edge_messages();
    x.run("edges", edges.len() as u64, |c| {
        let k = key(&mut c.rng);
        roundtrip(c, &k, &edges[c.idx as usize]);
    });
    // every word of the sources as a message and as a key-shaped value
    x.run("words", dict.len() as u64, |c| {
        let w = dict[c.idx as usize].clone().into_bytes();
        let mut k = [0u8; 32];
        for (i, b) in w.iter().take(32).enumerate() {
            k[i] = *b;
        }
        roundtrip(c, &k, &w);
    });
    // Histories: several related keys, interleaved seals and opens in any order, with failing opens in between.
    x.run("history", x.q(250, 6000), |c| {
        let base = key(&mut c.rng);
        let mut keys = vec![base];
        for _ in 0..c.rng.range(1, 5) {
            let mut k = base;
            k[c.rng.us(32)] ^= 1 << c.rng.us(8);
            keys.push(k);
        }
        let mut log: Vec<(usize, Vec<u8>, Vec<u8>)> = vec![];
        for step in 0..c.rng.range(10, 60) {
            match c.rng.below(5) {
                0 | 1 => {
                    let ki = c.rng.us(keys.len());
                    let n = *c.rng.pick(&[0usize, 1, 16, 28, 32, 64]) + c.rng.us(3);
                    let m = c.rng.content(n);
                    let k = keys[ki];
                    let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m)) else { return };
                    log.push((ki, m, e));
                }
                2 if !log.is_empty() => {
                    let (ki, _, e) = log[c.rng.us(log.len())].clone();
                    let k = keys[(ki + 1) % keys.len()];
                    let _ = c.sut("decrypt_gcm", || decrypt_gcm(&k, &e));
                }
                _ if !log.is_empty() => {
                    let (ki, m, e) = log[c.rng.us(log.len())].clone();
                    let k = keys[ki];
                    let Some(d) = c.sut_ok("decrypt_gcm", || decrypt_gcm(&k, &e)) else { return };
                    c.check(d == m, "decryption differs from the message in a history", || json!({"step": step, "key": hex(&k), "message": hex(&m), "got": hex(&d)}));
                }
                _ => {}
            }
        }
        let salt = c.rng.below(1000);
        c.key(log.len() as u64 * 1000 + salt);
        c.count("history_seals", log.len() as u64);
    });
    x.run("threads", x.q(4, 40), |c| {
        let seed = c.rng.u64();
        let res: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..8u64)
                .map(|t| {
                    s.spawn(move || {
                        let mut r = Rng::new(seed ^ t);
                        for _ in 0..150 {
                            let k = key(&mut r);
                            let n = r.size(2000);
                            let m = r.content(n);
                            let res = guard(|| encrypt_gcm(&k, &m).and_then(|e| decrypt_gcm(&k, &e)));
                            match res {
                                Ok(Ok(d)) if d == m => {}
                                o => return Some(format!("thread {} len {}: {:?}", t, n, o.map(|r| r.map(|_| "wrong plaintext").map_err(|e| e.to_string())))),
                            }
                        }
                        None
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        c.key(seed);
        c.count("threaded_roundtrips", 1200);
        for r in res.into_iter().flatten() {
            c.fail("concurrent round trip failed", json!(r));
        }
    });
}

fn must_reject(c: &mut Case, what: &str, k: &[u8], data: &[u8], ctx: impl Fn() -> serde_json::Value) {
    c.ops += 1;
    match guard(|| decrypt_gcm(k, data)) {
        Ok(Err(_)) => {}
        Ok(Ok(p)) => c.fail(format!("accepted: {}", what), json!({"key": hex(k), "data": hex(data), "plaintext": hex(&p), "case": ctx()})),
        Err(p) => c.fail(format!("panicked on {}: {}", what, p), json!({"key": hex(k), "data": hex(data)})),
    }
}

pub fn c02(x: &mut Ctx) {
    let dict = x.dict_strs.clone();
    let mut small: Vec<usize> = (0..=70).collect();
    small.extend([95, 96, 100, 127, 128, 129, 200, 255, 256, 257, 500]);
    x.run("every_bit", small.len() as u64, |c| {
        let n = small[c.idx as usize];
        let k = key(&mut c.rng);
        let m = msg(c, &dict, n);
        let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m)) else { return };
        c.input(json!({"len": n, "sealed": hex(&e), "key": hex(&k)}));
        c.key(n);
        for bit in 0..e.len() * 8 {
            let mut t = e.clone();
            t[bit / 8] ^= 1 << (bit % 8);
            must_reject(c, "single bit flip", &k, &t, || json!({"bit": bit, "len": n}));
        }
        for byte in 0..e.len() {
            for v in [0u8, 0xff, e[byte].wrapping_add(1), !e[byte]] {
                if v != e[byte] {
                    let mut t = e.clone();
                    t[byte] = v;
                    must_reject(c, "byte replaced", &k, &t, || json!({"byte": byte, "len": n}));
                }
            }
        }
        c.count("bits_flipped", e.len() as u64 * 8);
        c.sample(json!({"len": n, "bit_positions": e.len() * 8}));
    });
    x.run("every_key_bit", x.q(12, 300), |c| {
        let k = key(&mut c.rng);
        let n = *c.rng.pick(&[0usize, 1, 16, 40, 1000]);
        let m = msg(c, &dict, n);
        let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m)) else { return };
        c.key((k, n));
        for warm in [false, true] {
            for bit in 0..256 {
                let mut q = k;
                q[bit / 8] ^= 1 << (bit % 8);
                if warm {
                    let _ = guard(|| decrypt_gcm(&k, &e));
                }
                must_reject(c, "key differing in one bit", &q, &e, || json!({"bit": bit, "right_key_used_just_before": warm}));
            }
        }
        for _ in 0..20 {
            let q = key(&mut c.rng);
            if q != k {
                must_reject(c, "another key", &q, &e, || json!(null));
            }
        }
        let mut rk = k;
        rk.reverse();
        for q in [[0u8; 32], [0xff; 32], rk] {
            if q != k {
                must_reject(c, "special key", &q, &e, || json!(null));
            }
        }
        c.count("keys_tried", 532);
    });
    // Sealing under related keys in turn: what one sealed no other opens.
    x.run("related_keys", x.q(60, 2000), |c| {
        let base = key(&mut c.rng);
        let at = c.rng.us(32);
        let mut keys = vec![base];
        for i in 0..4 {
            let mut k = base;
            k[(at + i * 9) % 32] ^= 1 << c.rng.us(8);
            keys.push(k);
        }
        let n = c.rng.us(70);
        let m = c.rng.content(n);
        let mut sealed = vec![];
        for i in 0..8usize {
            let j = if i < 5 { i } else { c.rng.us(5) };
            let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&keys[j], &m)) else { return };
            sealed.push((j, e));
        }
        c.key((base, n));
        for (j, e) in &sealed {
            for q in 0..5 {
                if q != *j && keys[q] != keys[*j] {
                    must_reject(c, "related key", &keys[q], e, || json!({"sealed_with": j, "opened_with": q}));
                }
            }
        }
        c.count("keys_tried", 32);
    });
    x.run("shape", x.q(400, 20_000), |c| {
        let k = key(&mut c.rng);
        let n = if c.idx < 64 { c.idx as usize } else { c.rng.size(2000) };
        let m = msg(c, &dict, n);
        let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m)) else { return };
        c.input(json!({"len": n, "sealed": hex(&e), "key": hex(&k)}));
        c.key((n, c.idx));
        let step = 1 + e.len() / 200;
        for t in (0..e.len()).step_by(step) {
            must_reject(c, "truncated at the end", &k, &e[..t], || json!({"kept": t}));
            if t > 0 {
                must_reject(c, "truncated at the start", &k, &e[t..], || json!({"dropped": t}));
            }
        }
        for a in (1..=40).chain([64, 255, 256, 1024]) {
            let pad = c.rng.content(a);
            must_reject(c, "bytes appended", &k, &[&e[..], &pad].concat(), || json!({"added": a}));
            must_reject(c, "bytes prepended", &k, &[&pad[..], &e].concat(), || json!({"added": a}));
        }
        must_reject(c, "sealed message doubled", &k, &[&e[..], &e].concat(), || json!(null));
        for _ in 0..10 {
            // deletion, insertion, swap, block swap, multi-byte change
            let i = c.rng.us(e.len());
            let l = 1 + c.rng.us((e.len() - i).min(32));
            let mut t = e.clone();
            t.drain(i..i + l);
            must_reject(c, "bytes deleted", &k, &t, || json!({"at": i, "n": l}));
            let mut t = e.clone();
            let b = c.rng.bytes(l);
            t.splice(i..i, b);
            must_reject(c, "bytes inserted", &k, &t, || json!({"at": i, "n": l}));
            let j = c.rng.us(e.len());
            if e[i] != e[j] {
                let mut t = e.clone();
                t.swap(i, j);
                must_reject(c, "bytes swapped", &k, &t, || json!({"i": i, "j": j}));
            }
            let mut t = e.clone();
            for q in t.iter_mut().skip(i).take(l) {
                *q = 0;
            }
            if t != e {
                must_reject(c, "bytes zeroed", &k, &t, || json!({"at": i, "n": l}));
            }
            // differences that cancel under XOR or sum, in the tag and across parts
            let mut t = e.clone();
            let d = 1u8 << c.rng.us(8);
            let len = t.len();
            let (p, q) = (len - 1 - c.rng.us(16), c.rng.us(len));
            if p != q {
                t[p] ^= d;
                t[q] ^= d;
                must_reject(c, "two bytes changed by the same difference", &k, &t, || json!({"p": p, "q": q}));
            }
        }
        let len = e.len();
        for (what, t) in [
            ("tag zeroed", [&e[..len - 16], &[0u8; 16]].concat()),
            ("tag ones", [&e[..len - 16], &[0xffu8; 16]].concat()),
            ("tag reversed", [&e[..len - 16], &e[len - 16..].iter().rev().copied().collect::<Vec<_>>()].concat()),
            ("nonce zeroed", [&[0u8; 12], &e[12..]].concat()),
            ("nonce moved to the end", [&e[12..], &e[..12]].concat()),
            ("tag moved before the body", [&e[..12], &e[len - 16..], &e[12..len - 16]].concat()),
        ] {
            if t != e {
                must_reject(c, what, &k, &t, || json!(null));
            }
        }
        // splices of two sealed messages under one key
        let m2 = c.rng.content(n);
        if let Some(f) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m2)) {
            must_reject(c, "nonce of another message", &k, &[&f[..12], &e[12..]].concat(), || json!(null));
            must_reject(c, "tag of another message", &k, &[&e[..len - 16], &f[len - 16..]].concat(), || json!(null));
            if n > 0 && e[12..len - 16] != f[12..len - 16] {
                must_reject(c, "body of another message", &k, &[&e[..12], &f[12..len - 16], &e[len - 16..]].concat(), || json!(null));
            }
        }
        let Some(d) = c.sut_ok("decrypt_gcm", || decrypt_gcm(&k, &e)) else { return };
        c.check(d == m, "original no longer opens", || json!(null));
    });
    x.run("forged", x.q(2500, 100_000), |c| {
        let k = key(&mut c.rng);
        let n = match c.rng.below(4) {
            0 => c.rng.us(80),
            1 => 28,
            _ => 28 + c.rng.size(600),
        };
        let aes = Aes256::new(&k);
        let nonce: [u8; 12] = c.rng.content(12).try_into().unwrap();
        let m = c.rng.content(n);
        let good = aes.gcm_seal(&nonce, &m);
        let l = good.len();
        let kind = c.rng.below(7);
        let t = match kind {
            0 => c.rng.content(n),
            1 => {
                // valid prefix of the tag, rest wrong
                let mut t = good.clone();
                let keep = c.rng.us(16);
                for i in keep..16 {
                    t[l - 16 + i] ^= 0x55;
                }
                t
            }
            2 => {
                // valid suffix of the tag only
                let mut t = good.clone();
                let brk = 1 + c.rng.us(15);
                for i in 0..brk {
                    t[l - 16 + i] ^= 0xa3;
                }
                t
            }
            3 => {
                let mut t = nonce.to_vec();
                t.extend_from_slice(&m);
                t.extend_from_slice(&[0; 16]);
                t
            }
            4 => {
                // tag with a short length, as other GCM profiles use
                let cut = *c.rng.pick(&[1usize, 4, 8, 12, 15]);
                good[..l - cut].to_vec()
            }
            5 => {
                let mut t = good.clone();
                let i = c.rng.us(l);
                t[i] ^= 1 << c.rng.us(8);
                t
            }
            _ => {
                let mut t = good.clone();
                t[l - 16..].rotate_left(1);
                t
            }
        };
        if t == good {
            return;
        }
        c.key((kind, n, t.len()));
        must_reject(c, "forged message", &k, &t, || json!({"kind": kind}));
        // after the right one was opened, too
        match guard(|| decrypt_gcm(&k, &good)) {
            Ok(Ok(d)) if d == m => {}
            o => c.fail("a standard sealed message was not opened", json!({"key": hex(&k), "data": hex(&good), "outcome": format!("{:?}", o.map(|r| r.map(|v| hex(&v)).map_err(|e| e.to_string())))})),
        }
        must_reject(c, "forged message after a good one", &k, &t, || json!({"kind": kind}));
    });
    x.run("large", x.q(8, 60), |c| {
        let k = key(&mut c.rng);
        let n = c.rng.range(60_000, 3_000_000);
        let m = c.rng.bytes(n);
        let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m)) else { return };
        c.key(n);
        let l = e.len();
        for i in [0, 11, 12, l / 2, l - 17, l - 16, l - 1, 65536 + 12, 65535].into_iter().chain((0..6).map(|_| c.rng.us(l)).collect::<Vec<_>>()) {
            if i < l {
                let mut t = e.clone();
                t[i] ^= 0x10;
                must_reject(c, "bit flip in a large message", &k, &t, || json!({"byte": i, "len": n}));
            }
        }
        must_reject(c, "large message cut", &k, &e[..l - 1], || json!(null));
        must_reject(c, "large message cut to half", &k, &e[..l / 2], || json!(null));
    });
}

pub fn c03(x: &mut Ctx) {
    Aes256::self_test();
    let ls = lens(x, 600, 300_000);
    let dict = x.dict_strs.clone();
    let each = |c: &mut Case, n: usize| {
        let k = key(&mut c.rng);
        let m = msg(c, &dict, n);
        let aes = Aes256::new(&k);
        c.input(json!({"key": hex(&k), "message": hex(&m), "len": n}));
        c.key((n, k));
        if let Some(e) = c.sut_ok("encrypt_gcm", || encrypt_gcm(&k, &m)) {
            c.check(e.len() == n + 28, "sealed length is not message + 28", || json!({"len": n, "got": e.len()}));
            let p = aes.gcm_open(&e);
            c.check(p.as_deref() == Some(&m[..]), "the reference AES-256-GCM does not open it", || json!({"sealed": hex(&e), "reference_got": p.as_ref().map(|v| hex(v))}));
            c.sample(json!({"len": n, "key": hex(&k), "sealed": hex(&e)}));
        }
        let nonce: [u8; 12] = c.rng.content(12).try_into().unwrap();
        let s = aes.gcm_seal(&nonce, &m);
        if let Some(d) = c.sut_ok("decrypt_gcm", || decrypt_gcm(&k, &s)) {
            c.check(d == m, "opens a reference-sealed message wrongly", || json!({"sealed": hex(&s), "got": hex(&d)}));
        }
        c.count("reference_bytes", 2 * n as u64);
    };
    x.run("len", ls.len() as u64, |c| each(c, ls[c.idx as usize]));
    x.run("random", x.q(2500, 60_000), |c| {
        let n = c.rng.size(2000);
        each(c, n)
    });
    x.run("large", x.q(3, 20), |c| {
        let n = c.rng.range(300_000, 2_000_000);
        each(c, n)
    });
}

// ------------------------------------------------------------------ freshness
#[derive(Default)]
struct Fresh {
    seen: HashMap<Vec<u8>, String>,
    bits: Vec<[u64; 4]>, // ones, xor-with-previous ones, and-with-previous, n
    prev: Vec<u8>,
    order: Vec<Vec<u8>>,
}
impl Fresh {
    fn add(&mut self, n: &[u8], label: impl FnOnce() -> String) -> Option<String> {
        if self.bits.is_empty() {
            self.bits = vec![[0; 4]; n.len() * 8];
        }
        for i in 0..n.len() * 8 {
            let b = (n[i / 8] >> (i % 8)) & 1;
            self.bits[i][0] += b as u64;
            if !self.prev.is_empty() {
                let p = (self.prev[i / 8] >> (i % 8)) & 1;
                self.bits[i][1] += (b ^ p) as u64;
            }
            self.bits[i][3] += 1;
        }
        self.prev = n.to_vec();
        if let Some(old) = self.seen.get(n) {
            return Some(old.clone());
        }
        self.seen.insert(n.to_vec(), label());
        self.order.push(n.to_vec());
        None
    }
    /// No eight bytes in a row occur twice anywhere: neither a part drawn twice nor padding.
    fn parts(&self, c: &mut Case, name: &str) {
        let mut w: Vec<(u64, u32, u8)> = vec![];
        for (i, v) in self.order.iter().enumerate() {
            for o in 0..v.len().saturating_sub(7) {
                w.push((u64::from_be_bytes(v[o..o + 8].try_into().unwrap()), i as u32, o as u8));
            }
        }
        w.sort_unstable();
        let hit = w.windows(2).find(|p| p[0].0 == p[1].0);
        c.count("parts_compared", w.len() as u64);
        c.check(hit.is_none(), &format!("{}: eight bytes occur twice", name), || {
            let (a, b) = (hit.unwrap()[0], hit.unwrap()[1]);
            json!([{"value": hex(&self.order[a.1 as usize]), "at": a.2, "call": self.seen.get(&self.order[a.1 as usize])}, {"value": hex(&self.order[b.1 as usize]), "at": b.2, "call": self.seen.get(&self.order[b.1 as usize])}])
        });
    }
    /// Each bit, and its change from one value to the next, is a fair coin within 7 standard deviations;
    /// so is each byte's agreement with each other byte, and no 32-bit or 48-bit part repeats too often.
    fn stats(&self, c: &mut Case, name: &str) {
        let n = self.bits.first().map(|b| b[3]).unwrap_or(0);
        if n < 5000 {
            return;
        }
        let tol = 7.0 * (n as f64 * 0.25).sqrt();
        for (i, b) in self.bits.iter().enumerate() {
            c.check((b[0] as f64 - n as f64 / 2.0).abs() <= tol, &format!("{}: bit is predictable", name), || json!({"bit": i, "ones": b[0], "of": n}));
            c.check((b[1] as f64 - n as f64 / 2.0).abs() <= tol, &format!("{}: bit change is predictable", name), || json!({"bit": i, "changes": b[1], "of": n}));
        }
        let l = self.order[0].len();
        let m = self.order.len() as f64;
        // pairs of bits inside one value
        let nb = l * 8;
        let mut pair = vec![0u32; nb * nb];
        let take = self.order.len().min(20_000);
        for v in &self.order[..take] {
            let x = v.iter().rev().fold(0u128, |a, b| (a << 8) | *b as u128);
            for s in 1..nb {
                let mut d = x ^ (x >> s);
                d &= if nb - s >= 128 { u128::MAX } else { (1u128 << (nb - s)) - 1 };
                while d != 0 {
                    let i = d.trailing_zeros() as usize;
                    pair[s * nb + i] += 1;
                    d &= d - 1;
                }
            }
        }
        let tol = 8.0 * (take as f64 * 0.25).sqrt();
        for s in 1..nb {
            for i in 0..nb - s {
                let o = pair[s * nb + i] as f64;
                c.check((o - take as f64 / 2.0).abs() <= tol, &format!("{}: two bits are correlated", name), || json!({"bits": [i, i + s], "differ": o, "of": take}));
            }
        }
        // windows: a 6-byte part of fresh random values repeats about m^2/2^49 times
        for o in 0..=l - 6 {
            let mut h: HashMap<&[u8], u32> = HashMap::new();
            let mut rep = 0;
            for v in &self.order {
                let e = h.entry(&v[o..o + 6]).or_insert(0);
                *e += 1;
                if *e > 1 {
                    rep += 1;
                }
            }
            let exp = m * m / 2f64.powi(49);
            c.check((rep as f64) < 12.0 + 6.0 * exp, &format!("{}: a 48-bit part repeats", name), || json!({"offset": o, "repeats": rep, "of": m}));
        }
    }
}
type Enc = fn(&[u8], &[u8]) -> Option<Vec<u8>>;
fn gcm_nonce(k: &[u8], m: &[u8]) -> Option<Vec<u8>> {
    guard(|| encrypt_gcm(k, m)).ok()?.ok().map(|e| e[..12].to_vec())
}
fn ctr_iv(k: &[u8], m: &[u8]) -> Option<Vec<u8>> {
    guard(|| encrypt_ctr(k, m)).ok()?.ok().map(|e| e[..16].to_vec())
}

/// Child process for c04: prints the nonces of a fixed series of encryptions, then forks and both halves go on.
pub fn nonce_child() {
    let mut out = String::new();
    let emit = |tag: &str, out: &mut String| {
        for i in 0..6 {
            let m = vec![0u8; i % 3];
            out.push_str(&format!("{} g {}\n", tag, hex(&gcm_nonce(&[9; 32], &m).unwrap_or_default())));
            out.push_str(&format!("{} c {}\n", tag, hex(&ctr_iv(&[9; 32], &m).unwrap_or_default())));
        }
    };
    emit("before-fork", &mut out);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let mut o = String::new();
        emit("fork-child", &mut o);
        unsafe {
            libc::write(1, o.as_ptr() as *const _, o.len());
            libc::_exit(0)
        }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    emit("fork-parent", &mut out);
    print!("{}", out);
}

pub fn c04(x: &mut Ctx) {
    for (name, enc) in [("gcm", gcm_nonce as Enc), ("ctr", ctr_iv as Enc)] {
        let mut f = Fresh::default();
        let mut rep: Vec<(String, String, String)> = vec![];
        let n1 = x.q(150_000, 1_500_000);
        let lens: Vec<usize> = x.interesting(1 << 20).into_iter().map(|v| v as usize).collect();
        macro_rules! add {
            ($k:expr, $m:expr, $lab:expr) => {{
                match enc($k, $m) {
                    None => rep.push(("encryption failed".into(), $lab, String::new())),
                    Some(n) => {
                        let h = hex(&n);
                        if let Some(o) = f.add(&n, || $lab) {
                            rep.push((format!("repeated {}", h), $lab, o));
                        }
                    }
                }
            }};
        }
        x.run(&format!("{}_sequence", name), 1, |c| {
            let k = [0x42u8; 32];
            for i in 0..n1 {
                add!(&k, b"same message", format!("same key, same message, call {}", i));
                if rep.len() > 3 {
                    break;
                }
            }
            c.count("encryptions", n1);
            f.stats(c, name);
            for v in rep.drain(..) {
                c.fail("nonce or IV is not fresh", json!(v));
            }
            c.key(name);
            c.sample(json!({"kind": name, "distinct": f.seen.len(), "calls": n1, "ones_per_bit_first_8": f.bits.iter().take(8).map(|b| b[0]).collect::<Vec<_>>()}));
        });
        x.run(&format!("{}_mixed", name), 1, |c| {
            // every interesting length several times, same and different keys, interleaved with decryptions
            let mut cnt = 0u64;
            for (li, l) in lens.iter().enumerate() {
                if *l > 70_000 && li % 4 != 0 {
                    continue;
                }
                let m = c.rng.content(*l);
                for rep_i in 0..3 {
                    let k: [u8; 32] = if rep_i < 2 { [1; 32] } else { key(&mut c.rng) };
                    add!(&k, &m, format!("len {} rep {}", l, rep_i));
                    cnt += 1;
                }
                c.key((name, l));
            }
            for i in 0..40_000u64 {
                let k = key(&mut c.rng);
                let l = c.rng.us(64);
                let m = c.rng.content(l);
                if i % 16 == 0 {
                    // a decryption, good or bad, must not influence the next nonce
                    let g = c.rng.bytes(60);
                    let _ = guard(|| decrypt_gcm(&k, &g));
                    let _ = guard(|| decrypt_ctr(&k, &g));
                    if let Ok(Ok(e)) = guard(|| encrypt_gcm(&k, &m)) {
                        let _ = guard(|| decrypt_gcm(&k, &e));
                        if name == "gcm" {
                            if let Some(o) = f.add(&e[..12], || "before a decryption".into()) {
                                rep.push(("repeated".into(), "after decryption".into(), o));
                            }
                        }
                    }
                    add!(&k, &m, format!("right after a decryption {}", i));
                }
                add!(&k, &m, format!("random key and message {}", i));
                cnt += 1;
            }
            c.count("encryptions", cnt);
            c.ops += cnt;
            for v in rep.drain(..).take(3) {
                c.fail("nonce or IV is not fresh", json!(v));
            }
        });
        // relation to key and message: the nonce xored with their first bytes is still balanced
        x.run(&format!("{}_independence", name), 1, |c| {
            let n = 20_000u64;
            let mut g = Fresh::default();
            let mut g2 = Fresh::default();
            for _ in 0..n {
                let k = c.rng.bytes(32);
                let m = c.rng.bytes(32);
                if let Some(v) = enc(&k, &m) {
                    let a: Vec<u8> = v.iter().zip(&k).map(|(a, b)| a ^ b).collect();
                    let b: Vec<u8> = v.iter().zip(&m).map(|(a, b)| a ^ b).collect();
                    g.add(&a, String::new);
                    g2.add(&b, String::new);
                }
            }
            c.count("encryptions", n);
            c.key((name, "ind"));
            g.stats(c, "nonce xor key");
            g2.stats(c, "nonce xor message");
        });
        x.run(&format!("{}_threads", name), 1, |c| {
            // short-lived threads (fresh thread-local state) and long-lived ones, all with the same key and message
            let all: Vec<(String, Vec<u8>)> = std::thread::scope(|s| {
                let mut hs = vec![];
                for t in 0..8 {
                    hs.push(s.spawn(move || (0..4000).filter_map(|i| enc(&[5; 32], b"m").map(|n| (format!("thread {} call {}", t, i), n))).collect::<Vec<_>>()));
                }
                let mut v: Vec<_> = hs.into_iter().flat_map(|h| h.join().unwrap()).collect();
                for t in 0..300 {
                    let h = s.spawn(move || (0..3).filter_map(|i| enc(&[5; 32], b"m").map(|n| (format!("short thread {} call {}", t, i), n))).collect::<Vec<_>>());
                    v.extend(h.join().unwrap());
                }
                v
            });
            c.check(all.len() == 8 * 4000 + 900, "an encryption in a thread failed", || json!(all.len()));
            c.count("encryptions", all.len() as u64);
            c.count("threads", 308);
            c.key((name, "threads"));
            for (l, n) in all {
                if let Some(o) = f.add(&n, || l.clone()) {
                    c.fail("nonce or IV repeated across threads", json!([l, o]));
                }
            }
        });
        x.run(&format!("{}_parts", name), 1, |c| {
            c.key((name, "parts"));
            f.parts(c, name);
        });
    }
    // processes, each also forking
    let procs = x.q(60, 600);
    x.run("processes", 1, |c| {
        let exe = std::env::current_exe().unwrap();
        let mut seen: HashMap<String, String> = HashMap::new();
        let mut cnt = 0;
        let mut kids = vec![];
        for p in 0..procs {
            kids.push((p, std::process::Command::new(&exe).arg("nonce-child").stdout(std::process::Stdio::piped()).spawn()));
            if kids.len() == 8 || p + 1 == procs {
                for (p, k) in kids.drain(..) {
                    let Ok(k) = k else { continue };
                    let Ok(o) = k.wait_with_output() else { continue };
                    for (i, l) in String::from_utf8_lossy(&o.stdout).lines().enumerate() {
                        let f: Vec<&str> = l.split(' ').collect();
                        if f.len() != 3 || f[2].is_empty() {
                            c.fail("an encryption in a child process failed", json!(l));
                            continue;
                        }
                        cnt += 1;
                        let lab = format!("process {} {} line {}", p, f[0], i);
                        if let Some(old) = seen.insert(format!("{}{}", f[1], f[2]), lab.clone()) {
                            c.fail("nonce or IV repeated across processes", json!([lab, old, f[2]]));
                        }
                    }
                }
            }
        }
        c.check(cnt as u64 == procs * 36, "missing output of child processes", || json!({"got": cnt, "want": procs * 36}));
        c.count("process_encryptions", cnt as u64);
        c.count("processes", procs);
        c.key("processes");
        c.ops += cnt as u64;
    });
}

pub fn c05(x: &mut Ctx) {
    Aes256::self_test();
    let ls = lens(x, 600, 300_000);
    let dict = x.dict_strs.clone();
    let iv_of = |r: &mut Rng| -> [u8; 16] {
        let mut iv: [u8; 16] = r.content(16).try_into().unwrap();
        // stay clear of the 64-bit counter wrap, but cross every lower carry
        match r.below(4) {
            0 => iv[8..].copy_from_slice(&(u32::MAX as u64 - r.below(3)).to_be_bytes()),
            1 => iv[8..].copy_from_slice(&((1u64 << (8 * (1 + r.below(7)))) - 1 - r.below(4)).to_be_bytes()),
            _ => {}
        }
        if iv[8] == 0xff {
            iv[8] = 0x7f;
        }
        iv
    };
    let on = |c: &mut Case, m: Vec<u8>| {
        let n = m.len();
        let k = key(&mut c.rng);
        let aes = Aes256::new(&k);
        c.input(json!({"key": hex(&k), "message": hex(&m), "len": n}));
        c.key((n, k));
        if let Some(e) = c.sut_ok("encrypt_ctr", || encrypt_ctr(&k, &m)) {
            if c.check(e.len() == n + 16, "length is not message + 16", || json!({"len": n, "got": e.len()})) {
                let iv: [u8; 16] = e[..16].try_into().unwrap();
                if u64::from_be_bytes(e[8..16].try_into().unwrap()) < u64::MAX - (1 << 30) {
                    let p = aes.ctr(&iv, &e[16..]);
                    c.check(p == m, "the reference AES-256-CTR does not open it", || json!({"ct": hex(&e), "reference": hex(&p)}));
                }
                if let Some(d) = c.sut_ok("decrypt_ctr", || decrypt_ctr(&k, &e)) {
                    c.check(d == m, "decryption differs from the message", || json!({"ct": hex(&e), "got": hex(&d)}));
                }
                c.sample(json!({"len": n, "key": hex(&k), "ct": hex(&e)}));
            }
        }
        let iv = iv_of(&mut c.rng);
        let s = [&iv[..], &aes.ctr(&iv, &m)].concat();
        if let Some(d) = c.sut_ok("decrypt_ctr", || decrypt_ctr(&k, &s)) {
            c.check(d == m, "opens a reference ciphertext wrongly", || json!({"ct": hex(&s), "got": hex(&d)}));
        }
        c.count("reference_bytes", 2 * n as u64);
    };
    let each = |c: &mut Case, n: usize| {
        let m = msg(c, &dict, n);
        on(c, m)
    };
    let edges = edge_messages();
    x.run("edges", edges.len() as u64, |c| on(c, edges[c.idx as usize].clone()));
    x.run("len", ls.len() as u64, |c| each(c, ls[c.idx as usize]));
    x.run("random", x.q(3000, 60_000), |c| {
        let n = c.rng.size(2000);
        each(c, n)
    });
    x.run("large", x.q(3, 20), |c| {
        let n = c.rng.range(300_000, 2_500_000);
        each(c, n)
    });
    // the counter wrap itself: encryption and decryption still invert each other
    x.run("wrap", x.q(300, 3000), |c| {
        let k = key(&mut c.rng);
        let mut iv = c.rng.bytes(16);
        for b in iv.iter_mut().skip(8) {
            *b = 0xff;
        }
        iv[15] -= c.rng.us(4) as u8;
        let n = c.rng.us(200);
        let body = c.rng.bytes(n);
        let s = [&iv[..], &body].concat();
        if let Some(d) = c.sut_ok("decrypt_ctr", || decrypt_ctr(&k, &s)) {
            let s2 = [&iv[..], &d].concat();
            if let Some(b) = c.sut_ok("decrypt_ctr", || decrypt_ctr(&k, &s2)) {
                c.check(b == body && d.len() == n, "keystream differs between two runs with one IV", || json!({"iv": hex(&iv)}));
            }
        }
        c.key((c.idx, n));
    });
    x.run("history", x.q(200, 3000), |c| {
        let base = key(&mut c.rng);
        let mut log = vec![];
        for _ in 0..30 {
            let mut k = base;
            k[c.rng.us(32)] ^= 1 << c.rng.us(8);
            let n = c.rng.us(80);
            let m = c.rng.content(n);
            let Some(e) = c.sut_ok("encrypt_ctr", || encrypt_ctr(&k, &m)) else { return };
            log.push((k, m, e));
            let (k, m, e) = log[c.rng.us(log.len())].clone();
            let Some(d) = c.sut_ok("decrypt_ctr", || decrypt_ctr(&k, &e)) else { return };
            c.check(d == m, "decryption differs in a history", || json!({"key": hex(&k), "message": hex(&m), "got": hex(&d)}));
        }
        c.key(c.idx);
    });
}

/// Other byte strings that stand for this key.
fn spelled(k: &[u8]) -> Vec<Vec<u8>> {
    let lower = hex(k).into_bytes();
    let upper = lower.to_ascii_uppercase();
    let b64 = |alphabet: &[u8], pad: bool| {
        let mut o = vec![];
        for ch in k.chunks(3) {
            let v = ch.iter().fold(0u32, |a, b| a << 8 | *b as u32) << (8 * (3 - ch.len()));
            for i in 0..4 {
                if i <= ch.len() {
                    o.push(alphabet[(v >> (18 - 6 * i)) as usize & 63]);
                } else if pad {
                    o.push(b'=');
                }
            }
        }
        o
    };
    let std = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let url = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = vec![lower.clone(), upper, [b"0x", &lower[..]].concat(), b64(std, true), b64(std, false), b64(url, true), b64(url, false)];
    o.extend([format!("{:?}", k).into_bytes(), k.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(":").into_bytes(), k.iter().map(|b| format!("{b:02x}")).collect::<Vec<_>>().join(" ").into_bytes()]);
    o.push(k.iter().flat_map(|b| char::from(*b).to_string().into_bytes()).collect());
    for base in [k.to_vec(), lower, b64(std, true)] {
        for (pre, post) in [(&b""[..], &b"\n"[..]), (b"", b"\r\n"), (b" ", b""), (b"", b" "), (b"", b"\0"), (b"\0", b""), (b"\"", b"\""), (b"\xef\xbb\xbf", b""), (&32u64.to_le_bytes(), b""), (&32u32.to_le_bytes(), b""), (&32u32.to_be_bytes(), b""), (b"", b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0")] {
            o.push([pre, &base, post].concat());
        }
    }
    o.push([k, k].concat());
    o.push([k, k, k].concat());
    o.push(k.iter().rev().copied().chain(k.iter().copied()).collect());
    o.push(k.iter().copied().skip_while(|b| *b == 0).collect());
    let mut t = k.to_vec();
    while t.last() == Some(&0) { t.pop(); }
    o.push(t);
    o.push(k[..16].to_vec());
    o.push(k[..24].to_vec());
    o
}
pub fn c06(x: &mut Ctx) {
    let mut kl: Vec<usize> = (0..=300).collect();
    kl.extend(x.interesting(70_000).into_iter().map(|v| v as usize));
    kl.sort();
    kl.dedup();
    type F = fn(&[u8], &[u8]) -> Result<Vec<u8>, String>;
    let fs: [(&str, F); 4] = [
        ("encrypt_gcm", |k, d| encrypt_gcm(k, d).map_err(|e| e.to_string())),
        ("decrypt_gcm", |k, d| decrypt_gcm(k, d).map_err(|e| e.to_string())),
        ("encrypt_ctr", |k, d| encrypt_ctr(k, d).map_err(|e| e.to_string())),
        ("decrypt_ctr", |k, d| decrypt_ctr(k, d).map_err(|e| e.to_string())),
    ];
    x.run("key_length", kl.len() as u64, |c| {
        let n = kl[c.idx as usize];
        let k32 = key(&mut c.rng);
        let m = c.rng.content(40);
        let g = Aes256::new(&k32).gcm_seal(&[3; 12], &m);
        // keys that begin or end with the right key, are the right key twice, or anything
        let tail = c.rng.content(n);
        let mut keys = vec![c.rng.content(n), vec![0; n]];
        keys.push(k32.iter().copied().chain(tail.iter().copied()).take(n).collect());
        if n > 32 {
            keys.push(tail[..n - 32].iter().copied().chain(k32.iter().copied()).collect());
            keys.push(k32.iter().copied().cycle().take(n).collect());
            keys.push(k32.iter().copied().chain(std::iter::repeat(0)).take(n).collect());
        } else if n < 32 {
            keys.push(k32[32 - n..].to_vec());
        }
        c.key(n);
        for k in keys {
            for (name, f) in fs.iter() {
                for d in [&g[..], &[][..], &m[..]] {
                    if *name == "decrypt_gcm" && n == 32 {
                        let _ = c.sut(name, || f(&k, d));
                        continue;
                    }
                    let r = c.sut(name, || f(&k, d));
                    let Some(r) = r else { continue };
                    if n != 32 {
                        c.check(r.is_err(), "a key of the wrong length was accepted", || json!({"function": name, "key_len": n, "data_len": d.len()}));
                    } else if d.len() >= 16 || name.starts_with("enc") {
                        c.check(r.is_ok(), "a 32-byte key was refused", || json!({"function": name, "err": r.clone().err()}));
                    }
                }
            }
        }
        c.count("key_lengths", 1);
        c.sample(json!({"key_len": n}));
    });
    // A right key in other clothes: text encodings, line ends, padding, repetition.
    x.run("spelled_keys", x.q(120, 2000), |c| {
        let k32 = if c.rng.chance(1, 3) { c.rng.content(32) } else { key(&mut c.rng).to_vec() };
        let m = c.rng.content(40);
        let mut k = [0; 32];
        k.copy_from_slice(&k32);
        let g = Aes256::new(&k).gcm_seal(&[3; 12], &m);
        let ct: Vec<u8> = [&[9u8; 16][..], &m].concat();
        c.key(&k32);
        c.sample(json!({"key": hex(&k32)}));
        for s in spelled(&k32) {
            if s.len() == 32 {
                continue;
            }
            c.input(json!({"key": hex(&s), "of": hex(&k32)}));
            for (name, f) in fs.iter() {
                let d = if name.ends_with("gcm") { &g } else { &ct };
                if let Some(r) = c.sut(name, || f(&s, d)) {
                    c.check(r.is_err(), "a key of the wrong length was accepted", || json!({"function": name, "key_len": s.len()}));
                }
            }
            c.count("spelled_keys", 1);
        }
    });
    x.run("data_length", x.q(600, 5000), |c| {
        let n = (c.idx as usize) % 120;
        let k = key(&mut c.rng);
        let d = if c.rng.chance(1, 3) { vec![0; n] } else { c.rng.content(n) };
        c.key((n, c.idx / 120));
        if let Some(r) = c.sut("decrypt_gcm", || decrypt_gcm(&k, &d)) {
            if n < 28 {
                c.check(r.is_err(), "a GCM message shorter than 28 bytes was accepted", || json!({"len": n}));
            }
        }
        if let Some(r) = c.sut("decrypt_ctr", || decrypt_ctr(&k, &d)) {
            c.check(r.is_ok() == (n >= 16), "CTR minimum length is not 16", || json!({"len": n, "ok": r.is_ok()}));
        }
        // shortest well-formed ones
        let s = Aes256::new(&k).gcm_seal(&[n as u8; 12], &[]);
        if let Some(r) = c.sut_ok("decrypt_gcm of the empty message", || decrypt_gcm(&k, &s)) {
            c.check(r.is_empty(), "the sealed empty message opens to something", || json!(hex(&r)));
        }
        // prefixes of a good message with the right key
        let m = c.rng.content(8);
        let g = Aes256::new(&k).gcm_seal(&[1; 12], &m);
        for l in 0..g.len() {
            if let Some(r) = c.sut("decrypt_gcm", || decrypt_gcm(&k, &g[..l])) {
                c.check(r.is_err(), "a truncated message was accepted", || json!({"len": l}));
            }
        }
    });
    x.run("random", x.q(20_000, 500_000), |c| {
        let kn = *c.rng.pick(&[0usize, 1, 16, 24, 31, 32, 32, 32, 33, 64]);
        let k = c.rng.content(kn);
        let n = c.rng.size(400);
        let d = c.rng.content(n);
        for (name, f) in fs.iter() {
            if let Some(r) = c.sut(name, || f(&k, &d)) {
                if kn != 32 {
                    c.check(r.is_err(), "a key of the wrong length was accepted", || json!({"function": name, "key_len": kn}));
                }
            }
        }
        c.key((kn, n));
    });
}

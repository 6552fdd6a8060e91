//! Witness file monitors: C19 and C20. The oracle is an independent writer of the format.
use crate::circ::*;
use crate::m_r1cs::{assemble, mem_limit, Sec};
use crate::util::*;
use ark_bn254::Fr;
use serde_json::json;
use std::path::PathBuf;
use zkenc_cli::witness::WitnessFile;

fn foreign(r: &mut Rng, max: usize) -> Vec<Sec> {
    let n = if r.chance(1, 2) { 0 } else { r.us(4) };
    (0..n)
        .map(|_| {
            let ty = match r.below(4) {
                0 => 0,
                1 => 3 + r.below(20) as u32,
                // Types that look like known ones in fewer bits.
                2 => (1 + r.below(2) as u32) | 1 << r.range(8, 31),
                _ => r.u32_edge().max(3),
            };
            let n = r.size(max);
            Sec { ty, data: r.content(n), slack: vec![], f32s: vec![], f64s: vec![] }
        })
        .collect()
}
fn save(x: &std::path::Path, b: &[u8]) -> (PathBuf, String) {
    let p = x.join("w.wtns");
    std::fs::write(&p, b).unwrap();
    let s = p.to_str().unwrap().to_string();
    (p, s)
}
pub fn repo() -> PathBuf {
    std::env::var("VERIF_REPO").unwrap_or("/repo".into()).into()
}

pub fn c19(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let mut sizes = x.interesting(70000);
    sizes.retain(|n| *n >= 1);
    let big = x.q(40, 400);
    let one = |c: &mut Case, n: usize, fs: usize, max: usize| {
        let r = &mut c.rng;
        let vals: Vec<Vec<u8>> = (0..n).map(|_| if fs == 32 { le(&fr(r)) } else { r.content(fs) }).collect();
        let p = if fs == 32 { prime() } else { r.bytes(fs) };
        let extra = [foreign(r, max), foreign(r, max), foreign(r, max)];
        let shapes: Vec<_> = extra.iter().flatten().map(|s| (s.ty, s.data.len())).collect();
        let swap = r.chance(1, 6);
        let f = wtns_order(&vals, &p, extra, swap);
        let (_, path) = save(&dir, &f.bytes);
        let d = json!({"elements": n, "values_first": swap, "field_size": fs, "foreign_sections": shapes, "bytes": f.bytes.len()});
        c.input(d.clone());
        c.key(&f.bytes);
        c.sample(d);
        let Some(w) = c.sut_ok("WitnessFile::from_file", || WitnessFile::from_file(&path)) else { return };
        c.check(w.prime == p, "the prime read is not the prime stored", || json!({"read": hex(&w.prime)}));
        c.check(w.n_witness as usize == n && w.n_wires() as usize == n, "the element count read is not the one stored", || json!({"read": w.n_witness}));
        c.check(w.assignments.len() == n, "the number of assignments is not the number of elements", || json!({"read": w.assignments.len()}));
        let bad = (0..n).find(|i| w.assignments.get(&(*i as u32)) != Some(&vals[*i]));
        c.check(bad.is_none(), "a wire's value is not the one stored", || json!({"wire": bad, "stored": hex(&vals[bad.unwrap()]), "read": w.assignments.get(&(bad.unwrap() as u32)).map(|v| hex(v))}));
        c.count("wires_compared", n as u64);
        if fs == 32 {
            let Some(m) = c.sut_ok("to_field_elements", || w.to_field_elements::<Fr>()) else { return };
            let bad = (0..n).find(|i| m.get(&(*i as u32)).map(le).as_ref() != Some(&vals[*i]));
            c.check(bad.is_none() && m.len() == n, "a wire's field element is not the one encoded", || json!({"wire": bad, "elements": m.len()}));
        }
    };
    x.run("random", x.q(1200, 60000), |c| {
        let n = 1 + c.rng.size(600);
        let fs = if c.rng.chance(4, 5) { 32 } else { 1 + c.rng.us(80) };
        one(c, n, fs, 4000);
    });
    let s2 = sizes.clone();
    x.run("sizes", s2.len() as u64, |c| {
        let n = s2[c.idx as usize] as usize;
        one(c, n, 32, 300);
    });
    x.run("field-sizes", 200, |c| {
        let fs = 1 + c.idx as usize;
        let n = 1 + c.rng.us(9);
        one(c, n, fs, 300);
    });
    // Foreign sections of every interesting length, so that what follows them straddles every buffer.
    let s3: Vec<u64> = x.interesting(70000);
    x.run("foreign", s3.len() as u64 * 2, |c| {
        let n = s3[c.idx as usize / 2] as usize;
        let vals: Vec<Vec<u8>> = (0..5).map(|_| le(&fr(&mut c.rng))).collect();
        let sec = Sec { ty: 9, data: c.rng.content(n), slack: vec![], f32s: vec![], f64s: vec![] };
        let e = if c.idx % 2 == 0 { [vec![sec], vec![], vec![]] } else { [vec![], vec![sec], vec![]] };
        let f = wtns_with(&vals, &prime(), e);
        let (_, path) = save(&dir, &f.bytes);
        c.key(&f.bytes);
        c.input(json!({"foreign_section": n}));
        let Some(w) = c.sut_ok("WitnessFile::from_file", || WitnessFile::from_file(&path)) else { return };
        c.check((0..5).all(|i| w.assignments.get(&(i as u32)) == Some(&vals[i])) && w.prime == prime(), "values after a foreign section are not the ones stored", || json!(n));
    });
    x.run("large", big / 40, |c| {
        let n = 300_000 + c.rng.us(200_000);
        one(c, n, 32, 300);
    });
    // The committed witnesses.
    let base = repo().join("packages/zkenc-cli/tests");
    let mut all: Vec<(String, String)> = vec![];
    if let Ok(d) = std::fs::read_dir(base.join("inputs")) {
        for e in d.flatten() {
            let p = e.path().to_str().unwrap().to_string();
            if p.ends_with(".wtns") {
                let circuit = if p.contains("sudoku") { "sudoku" } else { "signature" };
                all.push((p, base.join(format!("r1cs/{}.r1cs", circuit)).to_str().unwrap().into()));
            }
        }
    }
    all.sort();
    x.run("committed", all.len() as u64, |c| {
        let (p, rc) = &all[c.idx as usize];
        c.input(json!(p));
        c.key(p);
        let raw = std::fs::read(p).unwrap();
        let want = read_wtns(&raw);
        let Some(w) = c.sut_ok("WitnessFile::from_file", || WitnessFile::from_file(p)) else { return };
        let Some(m) = c.sut_ok("to_field_elements", || w.to_field_elements::<Fr>()) else { return };
        let model = read_r1cs(&std::fs::read(rc).unwrap());
        c.check(w.n_witness == model.n_wires && m.len() == want.len(), "a committed witness is not read in full", || json!({"read": m.len(), "stored": want.len()}));
        c.check(want.iter().enumerate().all(|(i, v)| m.get(&(i as u32)) == Some(v)), "a committed witness is read with other values", || json!(null));
        let got: Vec<Fr> = (0..model.n_wires).map(|i| m.get(&i).copied().unwrap_or(Fr::from(0u64))).collect();
        c.check(broken(&model, &got).is_none(), "a committed witness as read does not satisfy its circuit", || json!(broken(&model, &got)));
        c.count("committed_wires", want.len() as u64);
    });
}

/// Whether a reader that follows the declared sizes must refuse these bytes.
fn must_fail(b: &[u8]) -> Option<&'static str> {
    let u = |i: usize| b.get(i..i + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()));
    if b.len() < 12 || &b[..4] != b"wtns" || u(4) != Some(2) {
        return Some("bad magic or version");
    }
    let n = u(8).unwrap();
    let mut at = 12usize;
    let (mut h, mut v) = (vec![], vec![]);
    for _ in 0..n {
        // What is cut off is an error if it is, or may hide, one of the two sections.
        let needed = h.is_empty() || v.is_empty();
        let (Some(ty), Some(len)) = (u(at), b.get(at + 4..at + 12).map(|x| u64::from_le_bytes(x.try_into().unwrap()))) else {
            return needed.then_some("a section is missing");
        };
        at += 12;
        // A header whose declared size disagrees with its own fields can be read by either.
        if ty == 1 && u(at).is_some_and(|fs| fs as u64 + 8 != len) {
            return None;
        }
        if len > (b.len() - at) as u64 {
            return (needed || ty == 1 || ty == 2).then_some("truncated inside declared data");
        }
        match ty {
            1 => h.push(&b[at..at + len as usize]),
            2 => v.push(&b[at..at + len as usize]),
            _ => {}
        }
        at += len as usize;
    }
    if h.is_empty() || v.is_empty() {
        return Some("a section is missing");
    }
    if h.len() == 1 && v.len() == 1 {
        let h = h[0];
        if h.len() < 8 {
            // The header's own fields run past it: only one reading is a value, and no oracle judges it.
            return None;
        }
        let fs = u32::from_le_bytes(h[..4].try_into().unwrap()) as u64;
        if fs + 8 == h.len() as u64 {
            let k = u32::from_le_bytes(h[h.len() - 4..].try_into().unwrap()) as u64;
            if fs > 0 && fs * k != v[0].len() as u64 {
                return Some("the data size disagrees with the count");
            }
        }
    }
    None
}
/// The binding's reader takes n8 from the header and values from the data.
fn must_fail_js(b: &[u8]) -> Option<&'static str> {
    must_fail(b).filter(|w| !w.starts_with("the data size"))
}

pub fn c20(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let mut r0 = Rng::new(x.seed);
    let circ = Circ::generate(&mut r0, &Shape { outs: 1, ins: 3, prv: 3, mid: 3, lc: 2 });
    let r1cs = circ.bytes();
    let wit = circ.solve(&circ.inputs(&mut r0));
    let ct = zkenc_js::wasm_encap(&r1cs, &wtns(&wit)).map(|r| r.ciphertext()).unwrap_or_default();
    let judge = |c: &mut Case, b: &[u8], what: &str| {
        let (_, path) = save(&dir, b);
        c.input(json!({"what": what, "bytes": b.len(), "head": hex(&b[..b.len().min(80)])}));
        let limit = mem_limit(b.len());
        let why = must_fail(b);
        if let Some(((res, fields), peak)) = c.sut("WitnessFile::from_file", || {
            metered(limit, || {
                let r = WitnessFile::from_file(&path);
                let f = r.as_ref().ok().map(|w| w.to_field_elements::<Fr>().map(|m| m.len()));
                (r.map(|w| (w.n_witness, w.assignments.len())), f)
            })
        }) {
            c.max("peak_bytes", peak as u64);
            c.count(if res.is_ok() { "cli_values" } else { "cli_errors" }, 1);
            if let Some(w) = why {
                c.check(res.is_err(), "a malformed witness file was accepted", || json!({"why_malformed": w, "read": format!("{:?}", res.as_ref().ok())}));
                c.count("malformed", 1);
            }
            if let (Ok((n, k)), Some(f)) = (&res, fields) {
                c.check(*n as usize == *k, "the accepted file's count and assignments disagree", || json!({"count": n, "assignments": k}));
                if let Ok(f) = f {
                    c.check(f == *k, "some wires were lost in the conversion", || json!({"assignments": k, "elements": f}));
                }
            }
        }
        for enc in [true, false] {
            let name = if enc { "wasm_encap" } else { "wasm_decap" };
            if let Some((ok, _)) = c.sut(name, || metered(limit + (8 << 20), || if enc { zkenc_js::wasm_encap(&r1cs, b).is_ok() } else { zkenc_js::wasm_decap(&r1cs, b, &ct).is_ok() })) {
                c.count(if ok { "binding_values" } else { "binding_errors" }, 1);
                if let Some(w) = must_fail_js(b) {
                    c.check(!ok, "the bindings accepted a malformed witness", || json!({"entry": name, "why_malformed": w}));
                }
            }
        }
    };
    let base = |r: &mut Rng| {
        let n = if r.chance(1, 2) { wit.len() } else { 1 + r.size(40) };
        let vals: Vec<Vec<u8>> = (0..n).map(|i| if n == wit.len() { le(&wit[i]) } else { le(&fr(r)) }).collect();
        let e = [foreign(r, 60), foreign(r, 60), foreign(r, 60)];
        wtns_with(&vals, &prime(), e)
    };
    x.run("truncations", x.q(10, 120), |c| {
        let f = base(&mut c.rng);
        c.key(&f.bytes);
        let step = 1 + f.bytes.len() / 700;
        for n in (0..f.bytes.len()).step_by(step) {
            judge(c, &f.bytes[..n], "truncated");
        }
        c.sample(json!({"base_bytes": f.bytes.len(), "truncations": f.bytes.len() / step}));
    });
    x.run("fields", x.q(24, 500), |c| {
        let f = base(&mut c.rng);
        c.key(&f.bytes);
        let n = f.bytes.len() as u64;
        for &o in &f.f32s {
            for v in [0u32, 1, 2, 3, 31, 33, 0x7fffffff, 0x80000000, 0x80000001, u32::MAX, u32::MAX - 1, u32::MAX / 32, n as u32, 1 << 24, 1 << 27, 1 << 28, c.rng.u32_edge()] {
                let mut b = f.bytes.clone();
                b[o..o + 4].copy_from_slice(&v.to_le_bytes());
                judge(c, &b, &format!("u32 at {} set to {}", o, v));
            }
        }
        for &o in &f.f64s {
            let cur = u64::from_le_bytes(f.bytes[o..o + 8].try_into().unwrap());
            for v in [0, 1, cur.wrapping_sub(1), cur + 1, cur | 1 << 32, cur | 1 << 63, 1 << 20, 1 << 26, 1 << 31, 1 << 32, 1 << 40, i64::MAX as u64, u64::MAX, u64::MAX - n, n, c.rng.u64_edge()] {
                let mut b = f.bytes.clone();
                b[o..o + 8].copy_from_slice(&v.to_le_bytes());
                judge(c, &b, &format!("u64 at {} set to {}", o, v));
            }
        }
    });
    // Counts whose product with the element size wraps at 32 bits.
    x.run("products", x.q(60, 400), |c| {
        let fs = [1u32, 2, 4, 8, 16, 32, 64, 128][c.rng.us(8)];
        let k = c.rng.us(20) as u32;
        let wrap = ((1u64 << 32) / fs as u64) as u32;
        let n = k.wrapping_add(wrap.wrapping_mul(1 + c.rng.below(3) as u32));
        let f = wtns_with(&(0..k).map(|_| c.rng.bytes(fs as usize)).collect::<Vec<_>>(), &c.rng.bytes(fs as usize), [vec![], vec![], vec![]]);
        let at = f.f32s[4];
        let mut b = f.bytes.clone();
        b[at..at + 4].copy_from_slice(&n.to_le_bytes());
        c.key(&b);
        judge(c, &b, &format!("count {} of {}-byte elements over {} bytes", n, fs, k * fs));
    });
    x.run("sections", x.q(600, 20000), |c| {
        let r = &mut c.rng;
        let f = base(r);
        let mut h = (32u32).to_le_bytes().to_vec();
        h.extend(prime());
        h.extend((wit.len() as u32).to_le_bytes());
        let hs = Sec { ty: 1, data: h, slack: vec![], f32s: vec![], f64s: vec![] };
        let vs = Sec { ty: 2, data: wit.iter().flat_map(le).collect(), slack: vec![], f32s: vec![], f64s: vec![] };
        let mut s = match r.below(8) {
            0 => vec![vs.clone(), hs.clone()],
            1 => vec![hs.clone()],
            2 => vec![vs.clone()],
            3 => vec![],
            4 => vec![hs.clone(), vs.clone(), hs.clone()],
            5 => vec![hs.clone(), hs.clone(), vs.clone(), vs.clone()],
            6 => vec![Sec { data: hs.data[..r.us(hs.data.len())].to_vec(), ..hs.clone() }, vs.clone()],
            _ => vec![hs.clone(), Sec { data: vs.data[..r.us(vs.data.len())].to_vec(), ..vs.clone() }],
        };
        if r.chance(1, 3) {
            let k = r.us(s.len() + 1);
            s.splice(k..k, foreign(r, 30));
        }
        let mut b = assemble(if r.chance(1, 12) { b"r1cs" } else { b"wtns" }, if r.chance(1, 10) { r.u32_edge() } else { 2 }, &s).bytes;
        if r.chance(1, 4) {
            b.extend(&f.bytes[..r.us(f.bytes.len())]);
        }
        c.key(&b);
        judge(c, &b, "sections");
    });
    x.run("flips", x.q(300, 20000), |c| {
        let f = base(&mut c.rng);
        let mut b = f.bytes;
        for _ in 0..1 + c.rng.us(4) {
            let i = c.rng.us(b.len() * 8);
            b[i / 8] ^= 1 << (i % 8);
        }
        c.key(&b);
        judge(c, &b, "bit flips");
    });
    x.run("bytes", x.q(400, 20000), |c| {
        let n = c.rng.size(300);
        let mut b = c.rng.content(n);
        if c.rng.chance(2, 3) {
            let mut h = b"wtns\x02\0\0\0".to_vec();
            h.extend(((c.rng.us(5)) as u32).to_le_bytes());
            h.extend(b);
            b = h;
        }
        c.key(&b);
        judge(c, &b, "arbitrary bytes");
    });
    // The bindings' own circuit reader.
    let file = assemble(b"r1cs", 1, &circ.m.secs());
    let w = wtns(&wit);
    let rj = |c: &mut Case, b: &[u8], what: &str, must: bool| {
        c.input(json!({"what": what, "bytes": b.len()}));
        let limit = mem_limit(b.len()) + (8 << 20);
        for enc in [true, false] {
            let name = if enc { "wasm_encap" } else { "wasm_decap" };
            if let Some((ok, peak)) = c.sut(name, || metered(limit, || if enc { zkenc_js::wasm_encap(b, &w).is_ok() } else { zkenc_js::wasm_decap(b, &w, &ct).is_ok() })) {
                c.max("peak_bytes", peak as u64);
                c.count(if ok { "circuit_values" } else { "circuit_errors" }, 1);
                if must {
                    c.check(!ok, "the bindings accepted a malformed circuit", || json!({"entry": name}));
                }
            }
        }
    };
    x.run("circuit-truncations", 1, |c| {
        for n in 0..file.bytes.len() {
            rj(c, &file.bytes[..n], "truncated circuit", n < file.needed[4].1);
        }
    });
    x.run("circuit-fields", x.q(4, 60), |c| {
        for &o in &file.f32s {
            for v in [0u32, 1, 2, 4, 31, 33, 0x7fffffff, 0x80000000, u32::MAX, u32::MAX - 1, u32::MAX - 3, file.bytes.len() as u32, 1 << 24, 1 << 28, c.rng.u32_edge()] {
                let mut b = file.bytes.clone();
                b[o..o + 4].copy_from_slice(&v.to_le_bytes());
                // Two fields at once: sums of counts may wrap.
                if c.idx > 0 {
                    let p = *c.rng.pick(&file.f32s);
                    b[p..p + 4].copy_from_slice(&c.rng.u32_edge().to_le_bytes());
                }
                rj(c, &b, &format!("circuit: u32 at {} set to {}", o, v), false);
            }
        }
        for &o in &file.f64s {
            for v in [0, 1, 1 << 20, 1 << 31, 1 << 32, 1 << 40, i64::MAX as u64, u64::MAX, u64::MAX - 11, u64::MAX - file.bytes.len() as u64, c.rng.u64_edge()] {
                let mut b = file.bytes.clone();
                b[o..o + 8].copy_from_slice(&v.to_le_bytes());
                rj(c, &b, &format!("circuit: u64 at {} set to {}", o, v), false);
            }
        }
    });
    x.run("circuit-bytes", x.q(600, 20000), |c| {
        let mut b = file.bytes.clone();
        for _ in 0..1 + c.rng.us(6) {
            let i = c.rng.us(b.len() * 8);
            b[i / 8] ^= 1 << (i % 8);
        }
        if c.rng.chance(1, 3) {
            let n = c.rng.us(b.len());
            b.truncate(n);
        }
        c.key(&b);
        rj(c, &b, "damaged circuit", false);
    });
}

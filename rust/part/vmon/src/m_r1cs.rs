//! R1CS reader monitors: C07, C08, C09, C10. The oracle is an independent encoder of the iden3 binary format.
use crate::util::*;
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use zkenc_cli::r1cs::R1csFile;

pub type Lc = Vec<(u32, Vec<u8>)>;
#[derive(Clone, Debug, Default)]
pub struct Model {
    pub prime: Vec<u8>,
    pub n_wires: u32,
    pub n_pub_out: u32,
    pub n_pub_in: u32,
    pub n_prv_in: u32,
    pub n_labels: u64,
    pub cons: Vec<[Lc; 3]>,
    pub labels: Option<Vec<u64>>,
}
/// One section of a file being assembled.
#[derive(Clone)]
pub struct Sec {
    pub ty: u32,
    pub data: Vec<u8>,
    pub slack: Vec<u8>,
    /// Offsets (in data) of u32 and u64 fields.
    pub f32s: Vec<usize>,
    pub f64s: Vec<usize>,
}
pub struct File {
    pub bytes: Vec<u8>,
    pub f32s: Vec<usize>,
    pub f64s: Vec<usize>,
    /// Byte ranges the parser cannot do without.
    pub needed: Vec<(usize, usize)>,
}
impl Model {
    pub fn header(&self) -> Sec {
        let mut d = vec![];
        d.extend_from_slice(&(self.prime.len() as u32).to_le_bytes());
        d.extend_from_slice(&self.prime);
        let mut f32s = vec![0];
        for v in [self.n_wires, self.n_pub_out, self.n_pub_in, self.n_prv_in] {
            f32s.push(d.len());
            d.extend_from_slice(&v.to_le_bytes());
        }
        let f64s = vec![d.len()];
        d.extend_from_slice(&self.n_labels.to_le_bytes());
        f32s.push(d.len());
        d.extend_from_slice(&(self.cons.len() as u32).to_le_bytes());
        Sec { ty: 1, data: d, slack: vec![], f32s, f64s }
    }
    pub fn constraints(&self) -> Sec {
        let mut d = vec![];
        let mut f32s = vec![];
        for c in &self.cons {
            for lc in c {
                f32s.push(d.len());
                d.extend_from_slice(&(lc.len() as u32).to_le_bytes());
                for (w, v) in lc {
                    f32s.push(d.len());
                    d.extend_from_slice(&w.to_le_bytes());
                    d.extend_from_slice(v);
                }
            }
        }
        Sec { ty: 2, data: d, slack: vec![], f32s, f64s: vec![] }
    }
    pub fn label_sec(&self) -> Option<Sec> {
        self.labels.as_ref().map(|l| {
            let mut d = Vec::with_capacity(l.len() * 8);
            for v in l {
                d.extend_from_slice(&v.to_le_bytes());
            }
            Sec { ty: 3, f64s: (0..l.len()).map(|i| i * 8).collect(), data: d, slack: vec![], f32s: vec![] }
        })
    }
    pub fn secs(&self) -> Vec<Sec> {
        let mut v = vec![self.header(), self.constraints()];
        v.extend(self.label_sec());
        v
    }
    pub fn plain(&self) -> File {
        assemble(b"r1cs", 1, &self.secs())
    }
    pub fn describe(&self) -> Value {
        json!({"field_size": self.prime.len(), "n_wires": self.n_wires, "n_pub_out": self.n_pub_out, "n_pub_in": self.n_pub_in, "n_prv_in": self.n_prv_in,
            "n_labels": self.n_labels, "n_constraints": self.cons.len(), "labels": self.labels.as_ref().map(|l| l.len()),
            "factors": self.cons.iter().take(12).map(|c| [c[0].len(), c[1].len(), c[2].len()]).collect::<Vec<_>>()})
    }
}
pub fn assemble(magic: &[u8], version: u32, secs: &[Sec]) -> File {
    let mut f = File { bytes: magic.to_vec(), f32s: vec![4, 8], f64s: vec![], needed: vec![(0, 12)] };
    f.bytes.extend_from_slice(&version.to_le_bytes());
    f.bytes.extend_from_slice(&(secs.len() as u32).to_le_bytes());
    for s in secs {
        let at = f.bytes.len();
        f.needed.push((at, at + 12));
        f.f32s.push(at);
        f.f64s.push(at + 4);
        f.bytes.extend_from_slice(&s.ty.to_le_bytes());
        f.bytes.extend_from_slice(&((s.data.len() + s.slack.len()) as u64).to_le_bytes());
        let at = f.bytes.len();
        if (1..=3).contains(&s.ty) {
            f.needed.push((at, at + s.data.len()));
        }
        f.f32s.extend(s.f32s.iter().map(|o| o + at));
        f.f64s.extend(s.f64s.iter().map(|o| o + at));
        f.bytes.extend_from_slice(&s.data);
        f.bytes.extend_from_slice(&s.slack);
    }
    f
}

/// First difference between what was stored and what was read.
pub fn diff(m: &Model, r: &R1csFile) -> Option<Value> {
    macro_rules! eq {
        ($n:expr, $got:expr, $want:expr) => {
            if $got != $want {
                return Some(json!({"field": $n, "stored": format!("{:.200?}", $want), "read": format!("{:.200?}", $got)}));
            }
        };
    }
    eq!("field_size", r.field_size as usize, m.prime.len());
    eq!("prime", r.prime, m.prime);
    eq!("n_wires", r.n_wires, m.n_wires);
    eq!("n_pub_out", r.n_pub_out, m.n_pub_out);
    eq!("n_pub_in", r.n_pub_in, m.n_pub_in);
    eq!("n_prv_in", r.n_prv_in, m.n_prv_in);
    eq!("n_labels", r.n_labels, m.n_labels);
    eq!("n_constraints", r.n_constraints as usize, m.cons.len());
    eq!("number of constraints", r.constraints.len(), m.cons.len());
    for (i, (c, e)) in r.constraints.iter().zip(&m.cons).enumerate() {
        for (k, (got, want)) in [&c.a, &c.b, &c.c].iter().zip(e).enumerate() {
            if got.factors != *want {
                let at = got.factors.iter().zip(want).position(|(g, w)| g != w);
                return Some(json!({"field": format!("constraint {} side {}", i, ["a", "b", "c"][k]), "stored_factors": want.len(), "read_factors": got.factors.len(),
                    "first_difference": at, "stored": at.map(|a| format!("{:?}", want[a])), "read": at.map(|a| format!("{:?}", got.factors[a]))}));
            }
        }
    }
    match &m.labels {
        Some(l) => eq!("wire2label", r.wire2label, *l),
        None => eq!("wire2label (identity)", r.wire2label, (0..m.n_wires as u64).collect::<Vec<_>>()),
    }
    eq!("number of public inputs", r.n_public_inputs() as u64, m.n_pub_out as u64 + m.n_pub_in as u64);
    None
}

fn gen_lc(r: &mut Rng, fs: usize, n: usize, n_wires: u32, wild: bool) -> Lc {
    (0..n)
        .map(|_| {
            let w = if wild || r.chance(1, 12) { r.u32_edge() } else { r.below(n_wires.max(1) as u64) as u32 };
            (w, r.content(fs))
        })
        .collect()
}
pub fn gen(r: &mut Rng) -> Model {
    let fs = match r.below(8) {
        0 => r.us(4),
        1 => r.us(100),
        2 => *r.pick(&[8usize, 16, 48, 64, 255, 256, 257]),
        _ => 32,
    };
    let consistent = r.chance(2, 3);
    let mut m = Model { prime: r.content(fs), ..Default::default() };
    let nw = r.size(400) as u32 + 1;
    m.n_wires = nw;
    if consistent {
        m.n_pub_out = r.below(nw as u64) as u32;
        m.n_pub_in = r.below((nw - m.n_pub_out) as u64) as u32;
        m.n_prv_in = r.below((nw - m.n_pub_out - m.n_pub_in) as u64) as u32;
        m.n_labels = r.u64_edge().max(nw as u64);
    } else {
        m.n_pub_out = r.u32_edge() / 2;
        m.n_pub_in = r.u32_edge() / 2;
        m.n_prv_in = r.u32_edge();
        m.n_labels = r.u64_edge();
    }
    let nc = r.size(120);
    let wild = r.chance(1, 4);
    for _ in 0..nc {
        let k = [r.size(12), r.size(12), r.size(12)];
        let mut c = [gen_lc(r, fs, k[0], nw, wild), gen_lc(r, fs, k[1], nw, wild), gen_lc(r, fs, k[2], nw, wild)];
        if r.chance(1, 6) && !c[0].is_empty() {
            let f = c[0][0].clone();
            c[0].push(f); // a repeated wire
        }
        m.cons.push(c);
    }
    // Without a label table nothing backs the number of wires: only moderate ones have to be believed.
    m.labels = if r.chance(1, 5) && nw <= 1 << 16 { None } else { Some((0..nw).map(|i| if r.chance(1, 2) { i as u64 } else { r.u64_edge() }).collect()) };
    m
}
pub fn put(p: &Path, b: &[u8]) {
    let mut f = std::fs::File::create(p).unwrap();
    f.write_all(b).unwrap();
}
/// Memory allowed for a file of this many bytes.
pub fn mem_limit(n: usize) -> usize {
    (16 << 20) + n.saturating_mul(64)
}
fn read(c: &mut Case, p: &Path, n: usize) -> Option<Result<R1csFile, String>> {
    let p: PathBuf = p.to_path_buf();
    let r = c.sut("reading an R1CS file", || metered(mem_limit(n), || R1csFile::from_file(&p).map_err(|e| format!("{:#}", e))));
    let (r, peak) = r?;
    c.max("peak_bytes_of_one_read", peak as u64);
    Some(r)
}
fn expect(c: &mut Case, p: &Path, f: &File, m: &Model) -> Option<R1csFile> {
    put(p, &f.bytes);
    c.count("bytes_read", f.bytes.len() as u64);
    match read(c, p, f.bytes.len())? {
        Err(e) => {
            c.fail(format!("a well-formed R1CS file was refused: {:.200}", e), m.describe());
            None
        }
        Ok(r) => {
            let mm = m.clone();
            let d = c.sut("reading back the parsed values", || diff(&mm, &r))?;
            c.check(d.is_none(), "the parsed circuit differs from the file", || json!({"difference": d, "circuit": m.describe()}));
            c.count("constraints_compared", m.cons.len() as u64);
            c.count("factors_compared", m.cons.iter().flatten().map(|l| l.len() as u64).sum());
            Some(r)
        }
    }
}
fn keyed(c: &mut Case, f: &File) {
    c.key(h64(&f.bytes));
    c.input(json!({"file": hex(&f.bytes), "size": f.bytes.len()}));
}

pub fn c07(x: &mut Ctx) {
    let p = x.scratch.join("c07.r1cs");
    x.run("random", x.q(2500, 60000), |c| {
        let m = gen(&mut c.rng);
        let f = m.plain();
        keyed(c, &f);
        c.sample(m.describe());
        expect(c, &p, &f, &m);
    });
    // Same path, same size, different content: nothing may be remembered between calls.
    x.run("rewritten", x.q(60, 600), |c| {
        let mut m = gen(&mut c.rng);
        for _ in 0..6 {
            let f = m.plain();
            keyed(c, &f);
            expect(c, &p, &f, &m);
            for l in m.cons.iter_mut().flatten() {
                for (w, v) in l.iter_mut() {
                    *w ^= c.rng.u32();
                    for b in v.iter_mut() {
                        *b ^= c.rng.u64() as u8;
                    }
                }
            }
            m.n_prv_in ^= 1;
        }
    });
    let ints = x.interesting(70000);
    let prog = x.q(1, 4);
    // Counts taken from the sources: number of constraints, factors of one side, wires, field bytes.
    x.run("counts", (ints.len() * 3) as u64 * prog, |c| {
        let n = ints[(c.idx as usize / 3) % ints.len()] as usize;
        let mut m = Model { prime: c.rng.bytes(if c.idx / 3 < ints.len() as u64 { 8 } else { 32 }), n_wires: 5, n_pub_out: 1, n_pub_in: 2, n_prv_in: 1, n_labels: 9, ..Default::default() };
        let fs = m.prime.len();
        match c.idx % 3 {
            0 => {
                for i in 0..n {
                    let mut k: [Lc; 3] = Default::default();
                    k[i % 3] = vec![(i as u32, c.rng.bytes(fs))];
                    m.cons.push(k);
                }
            }
            1 => {
                let side = c.rng.us(3);
                let mut k: [Lc; 3] = Default::default();
                k[side] = (0..n).map(|i| (i as u32, c.rng.bytes(fs))).collect();
                m.cons.push(k);
                m.cons.push([vec![], vec![(1, c.rng.bytes(fs))], vec![]]);
            }
            _ => {
                m.n_wires = n.max(1) as u32;
                m.cons.push([gen_lc(&mut c.rng, fs, 3, n as u32, false), vec![(n as u32, c.rng.bytes(fs))], vec![]]);
            }
        }
        m.labels = Some((0..m.n_wires as u64).map(|i| i * 3 + 1).collect());
        let f = m.plain();
        c.key((n, c.idx % 3));
        c.input(json!({"count": n, "of": (["constraints", "factors", "wires"][(c.idx % 3) as usize])}));
        expect(c, &p, &f, &m);
    });
    // The field size itself.
    let fsz: Vec<u64> = x.interesting(5000);
    x.run("field_size", fsz.len() as u64, |c| {
        let fs = fsz[c.idx as usize] as usize;
        let m = Model { prime: c.rng.bytes(fs), n_wires: 3, n_pub_out: 1, n_pub_in: 1, n_prv_in: 0, n_labels: 3, cons: vec![[vec![(1, c.rng.bytes(fs))], vec![(2, c.rng.bytes(fs)), (0, c.rng.bytes(fs))], vec![]]], labels: Some(vec![0, 1, 2]) };
        let f = m.plain();
        keyed(c, &f);
        expect(c, &p, &f, &m);
    });
    // Every distance of the end of the file, and of a value, from a read-buffer boundary.
    x.run("buffer_edges", x.q(220, 1200), |c| {
        let pad = (c.idx * 37 % 8300) as usize;
        let mut m = Model { prime: c.rng.bytes(32), n_wires: 40, n_pub_out: 2, n_pub_in: 3, n_prv_in: 4, n_labels: 50, ..Default::default() };
        let k = 8192 / 108 + 4;
        for i in 0..k {
            m.cons.push([vec![(i as u32, c.rng.bytes(32))], vec![(i as u32 + 1, c.rng.bytes(32))], vec![(i as u32 + 2, c.rng.bytes(32))]]);
        }
        m.labels = Some((0..40).map(|i| i * 0x0101010101010101).collect());
        let mut s = m.secs();
        s.insert(0, Sec { ty: 9, data: c.rng.bytes(pad), slack: vec![], f32s: vec![], f64s: vec![] });
        let f = assemble(b"r1cs", 1, &s);
        c.key(pad);
        c.input(json!({"padding": pad}));
        expect(c, &p, &f, &m);
    });
    x.run("large", x.q(3, 12), |c| {
        let mut m = Model { prime: c.rng.bytes(32), n_wires: 66000, n_pub_out: 300, n_pub_in: 70000, n_prv_in: 70001, n_labels: 1 << 40, ..Default::default() };
        for i in 0..70000usize {
            m.cons.push([vec![(i as u32, vec![i as u8; 32])], vec![(i as u32 + 7, vec![3; 32])], if i % 5 == 0 { vec![] } else { vec![(i as u32 ^ 0x5555, vec![(i >> 8) as u8; 32])] }]);
        }
        m.labels = Some((0..66000u64).map(|i| i.wrapping_mul(0x9e3779b97f4a7c15)).collect());
        let f = m.plain();
        c.key(c.idx);
        c.input(json!({"size": f.bytes.len()}));
        expect(c, &p, &f, &m);
    });
    // The committed circuits, against an independent decoder.
    let fixtures = fixtures();
    x.run("fixture", fixtures.len() as u64, |c| {
        let path = &fixtures[c.idx as usize];
        let b = std::fs::read(path).unwrap();
        c.key(h64(&b));
        c.input(json!({"file": path}));
        let Some(m) = decode(&b) else { return };
        c.sample(json!({"file": path, "circuit": m.describe()}));
        let f = File { bytes: b, f32s: vec![], f64s: vec![], needed: vec![] };
        expect(c, &p, &f, &m);
    });
}
pub fn fixtures() -> Vec<PathBuf> {
    let mut v = vec![];
    for d in ["/repo/packages/zkenc-cli/tests/r1cs", "/repo/packages/zkenc-js/tests/fixtures", "/repo/docs/static/circuits", "/repo/packages/zkenc-cli/tests/circuits", "/repo/packages/playground/public/circuits"] {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                if e.path().extension().map_or(false, |x| x == "r1cs") {
                    v.push(e.path());
                }
            }
        }
    }
    v.sort();
    v
}
/// Independent decoder, for the committed files.
pub fn decode(b: &[u8]) -> Option<Model> {
    let u32a = |o: usize| b.get(o..o + 4).map(|s| u32::from_le_bytes(s.try_into().unwrap()));
    let u64a = |o: usize| b.get(o..o + 8).map(|s| u64::from_le_bytes(s.try_into().unwrap()));
    let n = u32a(8)?;
    let (mut o, mut at) = (12usize, std::collections::HashMap::new());
    for _ in 0..n {
        at.entry(u32a(o)?).or_insert(o + 12);
        o += 12 + u64a(o + 4)? as usize;
    }
    let h = *at.get(&1)?;
    let fs = u32a(h)? as usize;
    let q = h + 4 + fs;
    let mut m = Model { prime: b.get(h + 4..q)?.to_vec(), n_wires: u32a(q)?, n_pub_out: u32a(q + 4)?, n_pub_in: u32a(q + 8)?, n_prv_in: u32a(q + 12)?, n_labels: u64a(q + 16)?, ..Default::default() };
    let nc = u32a(q + 24)?;
    let mut o = *at.get(&2)?;
    for _ in 0..nc {
        let mut k: [Lc; 3] = Default::default();
        for lc in k.iter_mut() {
            let n = u32a(o)?;
            o += 4;
            for _ in 0..n {
                lc.push((u32a(o)?, b.get(o + 4..o + 4 + fs)?.to_vec()));
                o += 4 + fs;
            }
        }
        m.cons.push(k);
    }
    if let Some(&l) = at.get(&3) {
        m.labels = Some((0..m.n_wires as usize).map(|i| u64a(l + 8 * i)).collect::<Option<Vec<_>>>()?);
    }
    Some(m)
}

fn unknown_sec(r: &mut Rng, big: bool) -> Sec {
    let ty = match r.below(4) {
        0 => 4 + r.us(4) as u32,
        1 => *r.pick(&[0u32, 5, 0x100, 0x101, 0x102, 0x103, 0x10000, 0x10001, 0x10002, 0x1000001, 0x2000000, 0x3000000, 255, u32::MAX, 0x80000001]),
        2 => r.u32().max(4),
        _ => r.range(4, 300) as u32,
    };
    let n = if big { *r.pick(&[8191usize, 8192, 8193, 20000, 65536, 70000]) } else { r.size(200) };
    let data = if r.chance(1, 3) {
        // Looks like the sections around it.
        let mut d = vec![];
        while d.len() < n {
            d.extend_from_slice(&(r.range(1, 3) as u32).to_le_bytes());
            d.extend_from_slice(&r.below(40).to_le_bytes());
        }
        d.truncate(n);
        d
    } else {
        r.content(n)
    };
    Sec { ty, data, slack: vec![], f32s: vec![], f64s: vec![] }
}
pub fn c08(x: &mut Ctx) {
    let p = x.scratch.join("c08.r1cs");
    x.run("layout", x.q(3500, 60000), |c| {
        let m = gen(&mut c.rng);
        let mut s = m.secs();
        for sec in s.iter_mut() {
            if c.rng.chance(1, 3) {
                let n = c.rng.size(100);
                sec.slack = c.rng.content(n);
            }
        }
        for _ in 0..c.rng.size(6) {
            let big = c.rng.chance(1, 30);
            let u = unknown_sec(&mut c.rng, big);
            s.push(u);
        }
        c.rng.shuffle(&mut s);
        let f = assemble(b"r1cs", 1, &s);
        c.key(h64(&f.bytes));
        let tys: Vec<(u32, usize, usize)> = s.iter().map(|q| (q.ty, q.data.len(), q.slack.len())).collect();
        c.input(json!({"sections": tys, "size": f.bytes.len(), "file": hex(&f.bytes)}));
        c.sample(json!({"sections": tys}));
        expect(c, &p, &f, &m);
    });
    x.run("many_sections", x.q(30, 300), |c| {
        let m = gen(&mut c.rng);
        let mut s = m.secs();
        let n = *c.rng.pick(&[10usize, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000]);
        for i in 0..n {
            s.push(Sec { ty: 4 + i as u32, data: if n < 2000 { c.rng.bytes(i % 7) } else { vec![] }, slack: vec![], f32s: vec![], f64s: vec![] });
        }
        c.rng.shuffle(&mut s);
        let f = assemble(b"r1cs", 1, &s);
        c.key((n, h64(&f.bytes)));
        c.input(json!({"sections": n, "size": f.bytes.len()}));
        expect(c, &p, &f, &m);
    });
    // A section larger than 4 GiB (sparse) has to be skipped by its 64-bit length.
    x.run("sparse", x.q(2, 4), |c| {
        let m = gen(&mut c.rng);
        let big: u64 = if c.idx % 2 == 0 { (1 << 32) + 64 } else { (1 << 31) + 17 };
        let pos = c.rng.us(3);
        let s = m.secs();
        let (a, b) = s.split_at(pos.min(s.len()));
        let fa = assemble(b"r1cs", 1, a).bytes;
        let fb = assemble(b"r1cs", 1, b).bytes;
        let mut fl = std::fs::File::create(&p).unwrap();
        let mut h = fa.clone();
        h[8..12].copy_from_slice(&(s.len() as u32 + 1).to_le_bytes());
        h.extend_from_slice(&77u32.to_le_bytes());
        h.extend_from_slice(&big.to_le_bytes());
        fl.write_all(&h).unwrap();
        use std::io::Seek;
        if fl.set_len(h.len() as u64 + big).is_err() || fl.seek(std::io::SeekFrom::End(0)).is_err() {
            c.count("sparse_files_unsupported", 1);
            return;
        }
        fl.write_all(&fb[12..]).unwrap();
        drop(fl);
        c.key((big, pos));
        c.input(json!({"unknown_section_size": big, "position": pos}));
        if let Some(r) = read(c, &p, (h.len() + fb.len()) + big as usize) {
            match r {
                Err(e) => c.fail(format!("a file with a large unknown section was refused: {:.200}", e), json!({"size": big})),
                Ok(r) => {
                    let d = diff(&m, &r);
                    c.check(d.is_none(), "a large unknown section is not skipped exactly", || json!({"difference": d, "size": big}));
                }
            }
        }
        let _ = std::fs::remove_file(&p);
    });
    // Wrong identity: magic, version; missing sections.
    let ints = x.interesting(u32::MAX as u64);
    let n_bad = 32 + 32 + ints.len() as u64 + x.q(600, 6000);
    x.run("identity", n_bad, |c| {
        let m = gen(&mut c.rng);
        let mut magic = *b"r1cs";
        let mut version = 1u32;
        let i = c.idx;
        if i < 32 {
            magic[i as usize / 8] ^= 1 << (i % 8);
        } else if i < 64 {
            version ^= 1 << (i - 32);
        } else if i < 64 + ints.len() as u64 {
            version = ints[i as usize - 64] as u32;
        } else {
            match c.rng.below(4) {
                0 => magic.copy_from_slice(c.rng.pick(&[*b"R1CS", *b"wtns", *b"zkey", *b"r1c\0", *b"1rcs", *b"sc1r", *b"\0\0\0\0", *b"r1cS"])),
                1 => version = c.rng.u32_edge(),
                2 => magic = c.rng.u32().to_le_bytes(),
                _ => version = *c.rng.pick(&[0, 2, 3, 0x100, 0x01000000, u32::MAX]),
            }
        }
        let f = assemble(&magic, version, &m.secs());
        c.key((magic, version));
        c.input(json!({"magic": hex(&magic), "version": version}));
        c.sample(json!({"magic": hex(&magic), "version": version}));
        if &magic == b"r1cs" && version == 1 {
            expect(c, &p, &f, &m);
            return;
        }
        put(&p, &f.bytes);
        if let Some(r) = read(c, &p, f.bytes.len()) {
            c.check(r.is_err(), "a file with a wrong magic number or version was accepted", || json!({"magic": hex(&magic), "version": version}));
        }
    });
    x.run("missing", x.q(600, 6000), |c| {
        let m = gen(&mut c.rng);
        let mut s = m.secs();
        let gone = 1 + c.idx as u32 % 2;
        let how = c.rng.below(3);
        if how == 0 {
            s.retain(|q| q.ty != gone);
        } else {
            for q in s.iter_mut().filter(|q| q.ty == gone) {
                q.ty = if how == 1 { c.rng.range(4, 600) as u32 } else { *c.rng.pick(&[0x101u32, 0x102, 0x10001, 0x10002, 0x1000001, 0x2000000, 0x1000000, 0, 0x80000001, 0x80000002]) };
            }
        }
        for _ in 0..c.rng.size(3) {
            let u = unknown_sec(&mut c.rng, false);
            s.push(u);
        }
        c.rng.shuffle(&mut s);
        let f = assemble(b"r1cs", 1, &s);
        c.key(h64(&f.bytes));
        c.input(json!({"missing": gone, "how": how, "file": hex(&f.bytes)}));
        put(&p, &f.bytes);
        if let Some(r) = read(c, &p, f.bytes.len()) {
            c.check(r.is_err(), "a file without its header or constraints section was accepted", || json!({"missing_section": gone}));
        }
    });
    x.run("no_labels", x.q(300, 3000), |c| {
        let mut m = gen(&mut c.rng);
        m.n_wires = m.n_wires.min(*c.rng.pick(&[90, 1000, 1 << 16]));
        m.labels = None;
        let mut s = m.secs();
        if c.rng.chance(1, 2) {
            let u = unknown_sec(&mut c.rng, false);
            s.push(u);
        }
        c.rng.shuffle(&mut s);
        let f = assemble(b"r1cs", 1, &s);
        keyed(c, &f);
        expect(c, &p, &f, &m);
    });
}

fn small(r: &mut Rng) -> Model {
    let fs = *r.pick(&[0usize, 1, 4, 8, 32]);
    let nw = r.range(1, 9) as u32;
    let mut m = Model { prime: r.bytes(fs), n_wires: nw, n_pub_out: r.us(3) as u32, n_pub_in: r.us(3) as u32, n_prv_in: r.us(3) as u32, n_labels: nw as u64, ..Default::default() };
    for _ in 0..r.range(0, 4) {
        let k = [r.us(4), r.us(4), r.us(4)];
        m.cons.push([gen_lc(r, fs, k[0], nw, false), gen_lc(r, fs, k[1], nw, false), gen_lc(r, fs, k[2], nw, false)]);
    }
    m.labels = if r.chance(3, 4) { Some((0..nw as u64).collect()) } else { None };
    m
}
/// Any outcome but a crash; a returned circuit has to be usable.
fn survive(c: &mut Case, p: &Path, b: &[u8]) -> Option<bool> {
    put(p, b);
    let r = read(c, p, b.len())?;
    c.ops += 1;
    match r {
        Ok(r) => {
            c.count("accepted", 1);
            c.sut("using a parsed circuit", || {
                let _ = r.n_public_inputs();
                let _ = metered(mem_limit(b.len()), || r.to_serializable());
            })?;
            Some(true)
        }
        Err(_) => {
            c.count("refused", 1);
            Some(false)
        }
    }
}
fn l_ty(s: &[Sec]) -> u32 {
    s.last().map_or(0, |l| l.ty)
}

pub fn c09(x: &mut Ctx) {
    let p = x.scratch.join("c09.r1cs");
    x.run("every_truncation", x.q(60, 800), |c| {
        let m = small(&mut c.rng);
        let mut s = m.secs();
        if c.rng.chance(1, 2) {
            let u = unknown_sec(&mut c.rng, false);
            s.push(u);
        }
        if c.rng.chance(1, 2) {
            c.rng.shuffle(&mut s);
        }
        let f = assemble(b"r1cs", 1, &s);
        let last = f.needed.iter().map(|r| r.1).max().unwrap();
        keyed(c, &f);
        c.sample(json!({"circuit": m.describe(), "cuts": f.bytes.len()}));
        for cut in 0..f.bytes.len() {
            let Some(ok) = survive(c, &p, &f.bytes[..cut]) else { return };
            if cut < last && !c.check(!ok, "a truncated R1CS file was accepted", || json!({"cut_at": cut, "needed_up_to": last, "size": f.bytes.len(), "circuit": m.describe()})) {
                return;
            }
            c.count("truncations", 1);
        }
    });
    x.run("large_truncation", x.q(25, 250), |c| {
        let mut m = gen(&mut c.rng);
        for i in 0..300 {
            m.cons.push([vec![(i, c.rng.bytes(m.prime.len()))], vec![], vec![(i, c.rng.bytes(m.prime.len()))]]);
        }
        let mut s = m.secs();
        c.rng.shuffle(&mut s);
        let f = assemble(b"r1cs", 1, &s);
        let last = f.needed.iter().map(|r| r.1).max().unwrap();
        c.key(h64(&f.bytes));
        c.input(m.describe());
        for _ in 0..12 {
            let cut = if c.rng.chance(1, 2) { last - 1 - c.rng.us(60.min(last)) } else { c.rng.us(last) };
            let Some(ok) = survive(c, &p, &f.bytes[..cut]) else { return };
            if !c.check(!ok, "a truncated R1CS file was accepted", || json!({"cut_at": cut, "needed_up_to": last})) {
                return;
            }
        }
    });
    // Bytes missing from the end of the data of the last section, the section's size telling so.
    x.run("short_section", x.q(60, 800), |c| {
        let m = small(&mut c.rng);
        let mut s = m.secs();
        if c.rng.chance(1, 2) {
            let u = unknown_sec(&mut c.rng, false);
            s.push(u);
        }
        c.rng.shuffle(&mut s);
        // The last section is one that is read.
        let i = c.rng.us(s.len());
        let Some(i) = (0..s.len()).map(|k| (i + k) % s.len()).find(|&k| (1..=3).contains(&s[k].ty)) else { return };
        let last = s.remove(i);
        s.retain(|t| t.ty != last.ty);
        s.push(last);
        let f = assemble(b"r1cs", 1, &s);
        keyed(c, &f);
        c.sample(json!({"circuit": m.describe(), "section": s.last().unwrap().ty}));
        let n = s.last().unwrap().data.len();
        for keep in 0..n {
            let mut t = s.clone();
            let l = t.last_mut().unwrap();
            l.data.truncate(keep);
            l.slack.clear();
            l.f32s.clear();
            l.f64s.clear();
            let g = assemble(b"r1cs", 1, &t);
            c.input(json!({"file": hex(&g.bytes), "section": l_ty(&t), "kept": keep, "of": n}));
            let Some(ok) = survive(c, &p, &g.bytes) else { return };
            if !c.check(!ok, "an R1CS file whose last section lacks some of its data was accepted", || json!({"section": l_ty(&t), "kept": keep, "of": n, "circuit": m.describe()})) {
                return;
            }
            c.count("short_sections", 1);
        }
    });
    // Every count, size and index field set to boundary values, one or two at a time.
    x.run("fields", x.q(350, 6000), |c| {
        let m = small(&mut c.rng);
        let mut s = m.secs();
        if c.rng.chance(1, 3) {
            let u = unknown_sec(&mut c.rng, false);
            s.push(u);
        }
        if c.rng.chance(1, 2) {
            c.rng.shuffle(&mut s);
        }
        let f = assemble(b"r1cs", 1, &s);
        keyed(c, &f);
        let n = f.bytes.len() as u64;
        let mut tries = 0;
        for pass in 0..2 {
            for (o, w) in f.f32s.iter().map(|&o| (o, 4)).chain(f.f64s.iter().map(|&o| (o, 8))) {
                let old = if w == 4 { u32::from_le_bytes(f.bytes[o..o + 4].try_into().unwrap()) as u64 } else { u64::from_le_bytes(f.bytes[o..o + 8].try_into().unwrap()) };
                let mut vals = vec![0, 1, old.wrapping_add(1), old.wrapping_sub(1), n, n - o as u64, u32::MAX as u64, 0x7fffffff, 0x80000000, 0x10000, 100_000_000];
                if w == 8 {
                    vals.extend([u64::MAX, u64::MAX / 2, u64::MAX / 2 + 1, 0u64.wrapping_sub(12), 0u64.wrapping_sub(o as u64 + 8), 0u64.wrapping_sub(o as u64 + 9), u64::MAX - n, 0x100000000, (old | 1 << 32), 0u64.wrapping_sub(old), 0x4000000000000000]);
                }
                if pass == 1 {
                    c.rng.shuffle(&mut vals);
                    vals.truncate(2);
                }
                for v in vals {
                    let mut b = f.bytes.clone();
                    b[o..o + w].copy_from_slice(&v.to_le_bytes()[..w]);
                    if pass == 1 {
                        let (o2, w2) = if f.f64s.is_empty() || c.rng.chance(1, 2) { (*c.rng.pick(&f.f32s), 4) } else { (*c.rng.pick(&f.f64s), 8) };
                        let v2 = if w2 == 4 { c.rng.u32_edge() as u64 } else if c.rng.chance(1, 3) { 0u64.wrapping_sub(c.rng.below(n)) } else { c.rng.u64_edge() };
                        b[o2..o2 + w2].copy_from_slice(&v2.to_le_bytes()[..w2]);
                    }
                    tries += 1;
                    c.input(json!({"field_at": o, "width": w, "value": v, "was": old, "pass": pass, "file": hex(&b), "circuit": m.describe()}));
                    if survive(c, &p, &b).is_none() {
                        return;
                    }
                }
            }
        }
        c.count("field_values_tried", tries);
        c.sample(json!({"fields": f.f32s.len() + f.f64s.len(), "values_tried": tries}));
    });
    x.run("flips", x.q(40, 600), |c| {
        let m = small(&mut c.rng);
        let f = m.plain();
        keyed(c, &f);
        for i in 0..f.bytes.len() {
            let mut b = f.bytes.clone();
            b[i] ^= 1 << c.rng.us(8);
            if c.rng.chance(1, 3) {
                let j = c.rng.us(b.len());
                b[j] = c.rng.u64() as u8;
            }
            c.input(json!({"file": hex(&b), "at": i}));
            if survive(c, &p, &b).is_none() {
                return;
            }
            c.count("flips", 1);
        }
    });
    x.run("random", x.q(4000, 80000), |c| {
        let n = c.rng.size(600);
        let mut b = c.rng.content(n);
        match c.rng.below(4) {
            0 => {}
            1 => {
                let mut h = b"r1cs\x01\0\0\0".to_vec();
                h.extend_from_slice(&c.rng.u32_edge().to_le_bytes());
                h.append(&mut b);
                b = h;
            }
            _ => {
                // A file of random small sections.
                let mut s = vec![];
                for _ in 0..c.rng.us(6) {
                    let n = c.rng.us(80);
                    let data = if c.rng.chance(1, 2) { (0..n).map(|_| if c.rng.chance(4, 5) { 0 } else { c.rng.us(40) as u8 }).collect() } else { c.rng.content(n) };
                    s.push(Sec { ty: c.rng.us(5) as u32, data, slack: vec![], f32s: vec![], f64s: vec![] });
                }
                b = assemble(b"r1cs", 1, &s).bytes;
            }
        }
        c.key(h64(&b));
        c.input(json!({"file": hex(&b), "size": b.len()}));
        survive(c, &p, &b);
    });
    // Large files with one hostile count: proportion is measured against a real size.
    x.run("hostile_large", x.q(30, 300), |c| {
        let mut m = gen(&mut c.rng);
        for i in 0..2000 {
            m.cons.push([vec![(i, c.rng.bytes(m.prime.len()))], vec![], vec![]]);
        }
        let f = m.plain();
        c.key(h64(&f.bytes));
        c.input(m.describe());
        for _ in 0..6 {
            let mut b = f.bytes.clone();
            for _ in 0..c.rng.range(1, 3) {
                if c.rng.chance(1, 2) {
                    let o = *c.rng.pick(&f.f32s);
                    b[o..o + 4].copy_from_slice(&c.rng.u32_edge().to_le_bytes());
                } else {
                    let o = *c.rng.pick(&f.f64s);
                    b[o..o + 8].copy_from_slice(&c.rng.u64_edge().to_le_bytes());
                }
            }
            if survive(c, &p, &b).is_none() {
                return;
            }
        }
    });
}

pub fn c10(x: &mut Ctx) {
    let p = x.scratch.join("c10.r1cs");
    let go = |c: &mut Case, f: &File, m: &Model| {
        let Some(r) = expect(c, &p, f, m) else { return };
        let Some(s) = c.sut("to_serializable", || r.to_serializable()) else { return };
        let head = s.field_size as usize == m.prime.len() && s.prime_bytes == m.prime && s.n_wires == m.n_wires && s.n_pub_out == m.n_pub_out && s.n_pub_in == m.n_pub_in && s.n_prv_in == m.n_prv_in && s.n_constraints as usize == m.cons.len();
        c.check(head, "a header value changed in export", || json!({"stored": m.describe(), "exported": format!("{} {} {} {} {} {}", s.field_size, s.n_wires, s.n_pub_out, s.n_pub_in, s.n_prv_in, s.n_constraints)}));
        if !c.check(s.constraints.len() == m.cons.len(), "constraints lost or added in export", || json!({"stored": m.cons.len(), "exported": s.constraints.len()})) {
            return;
        }
        for (i, (e, w)) in s.constraints.iter().zip(&m.cons).enumerate() {
            for (k, (l, want)) in [&e.a, &e.b, &e.c].iter().zip(w).enumerate() {
                let same = l.factors.len() == want.len() && l.factors.iter().zip(want).all(|(g, w)| g.wire_id == w.0 && g.coefficient_bytes == w.1);
                if !c.check(same, "a linear combination changed in export", || {
                    json!({"constraint": i, "side": (["a", "b", "c"][k]), "stored": format!("{:.300?}", want), "exported": format!("{:.300?}", l.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect::<Vec<_>>())})
                }) {
                    return;
                }
            }
        }
        c.count("constraints_exported", m.cons.len() as u64);
        // The circuit itself is unchanged, so exporting twice gives the same.
        let Some(s2) = c.sut("to_serializable", || r.to_serializable()) else { return };
        c.check(format!("{:?}", s.constraints.len()) == format!("{:?}", s2.constraints.len()) && diff(m, &r).is_none(), "exporting changed the circuit", || Value::Null);
    };
    x.run("random", x.q(2500, 50000), |c| {
        let m = gen(&mut c.rng);
        let f = m.plain();
        keyed(c, &f);
        c.sample(m.describe());
        go(c, &f, &m);
    });
    x.run("shapes", x.q(512, 4096), |c| {
        // Every small combination of side sizes, with shared and distinct wires.
        let k = [(c.idx % 4) as usize, (c.idx / 4 % 4) as usize, (c.idx / 16 % 4) as usize];
        let share = c.idx / 64 % 2 == 0;
        let mut m = Model { prime: c.rng.bytes(32), n_wires: 8, n_pub_out: 1, n_pub_in: 2, n_prv_in: 3, n_labels: 8, labels: Some((0..8).collect()), ..Default::default() };
        for _ in 0..c.rng.range(1, 4) {
            let mut q: [Lc; 3] = Default::default();
            for s in 0..3 {
                for j in 0..k[s] {
                    let coef = if c.rng.chance(1, 3) { vec![0; 32] } else { c.rng.content(32) };
                    q[s].push((if share { 5 } else { (7 - j) as u32 }, coef));
                }
            }
            m.cons.push(q);
        }
        let f = m.plain();
        c.key((k, share, h64(&f.bytes)));
        c.input(m.describe());
        go(c, &f, &m);
    });
    let ints = x.interesting(70000);
    x.run("counts", ints.len() as u64 * 2, |c| {
        let n = ints[c.idx as usize / 2] as usize;
        let mut m = Model { prime: vec![7; 4], n_wires: 4, n_pub_out: 0, n_pub_in: 1, n_prv_in: 1, n_labels: 4, labels: Some(vec![0, 1, 2, 3]), ..Default::default() };
        if c.idx % 2 == 0 {
            for i in 0..n {
                m.cons.push([vec![(i as u32, vec![i as u8; 4])], vec![], vec![(1, vec![(i >> 8) as u8; 4])]]);
            }
        } else {
            let side = c.rng.us(3);
            let mut k: [Lc; 3] = Default::default();
            k[side] = (0..n).map(|i| (i as u32, (i as u32).to_le_bytes().to_vec())).collect();
            m.cons.push(k);
        }
        let f = m.plain();
        c.key((n, c.idx % 2));
        c.input(json!({"count": n}));
        go(c, &f, &m);
    });
    let fx = fixtures();
    x.run("fixture", fx.len() as u64, |c| {
        let b = std::fs::read(&fx[c.idx as usize]).unwrap();
        let Some(m) = decode(&b) else { return };
        c.key(h64(&b));
        c.input(json!({"file": fx[c.idx as usize]}));
        let f = File { bytes: b, f32s: vec![], f64s: vec![], needed: vec![] };
        go(c, &f, &m);
    });
}

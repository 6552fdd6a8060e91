//! Exchange-format monitors: C11 (round trips), C12 (the two packages agree, the format is stable), C13 (corrupt data).
use crate::m_r1cs::Lc;
use crate::util::*;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::Path;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Circ {
    pub fs: u32,
    pub prime: Vec<u8>,
    pub nw: u32,
    pub po: u32,
    pub pi: u32,
    pub pv: u32,
    pub nc: u32,
    pub cons: Vec<[Lc; 3]>,
    pub labels: Option<BTreeMap<u32, String>>,
}
pub type Wit = BTreeMap<u32, Vec<u8>>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Tc {
    pub circ: Circ,
    pub wit: Wit,
    pub name: String,
    pub desc: Option<String>,
}

macro_rules! side {
    ($m:ident, $c:ident) => {
        pub mod $m {
            use super::*;
            use $c::serializable as s;
            pub use s::{SerializableCircuit as C, SerializableTestCase as T, SerializableWitness as W};
            fn lc(l: &Lc) -> s::SerializableLC {
                s::SerializableLC { factors: l.iter().map(|(w, v)| s::SerializableFactor { wire_id: *w, coefficient_bytes: v.clone() }).collect() }
            }
            fn lb(l: &s::SerializableLC) -> Lc {
                l.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect()
            }
            pub fn c(m: &Circ) -> C {
                C {
                    field_size: m.fs, prime_bytes: m.prime.clone(), n_wires: m.nw, n_pub_out: m.po, n_pub_in: m.pi, n_prv_in: m.pv, n_constraints: m.nc,
                    constraints: m.cons.iter().map(|k| s::SerializableConstraint { a: lc(&k[0]), b: lc(&k[1]), c: lc(&k[2]) }).collect(),
                    wire_labels: m.labels.as_ref().map(|l| l.iter().map(|(k, v)| (*k, v.clone())).collect()),
                }
            }
            pub fn cb(x: &C) -> Circ {
                Circ {
                    fs: x.field_size, prime: x.prime_bytes.clone(), nw: x.n_wires, po: x.n_pub_out, pi: x.n_pub_in, pv: x.n_prv_in, nc: x.n_constraints,
                    cons: x.constraints.iter().map(|k| [lb(&k.a), lb(&k.b), lb(&k.c)]).collect(),
                    labels: x.wire_labels.as_ref().map(|l| l.iter().map(|(k, v)| (*k, v.clone())).collect()),
                }
            }
            pub fn w(m: &Wit) -> W {
                W { assignments: m.iter().map(|(k, v)| (*k, v.clone())).collect() }
            }
            pub fn wb(x: &W) -> Wit {
                x.assignments.iter().map(|(k, v)| (*k, v.clone())).collect()
            }
            pub fn t(m: &Tc) -> T {
                T { circuit: c(&m.circ), witness: w(&m.wit), name: m.name.clone(), description: m.desc.clone() }
            }
            pub fn tb(x: &T) -> Tc {
                Tc { circ: cb(&x.circuit), wit: wb(&x.witness), name: x.name.clone(), desc: x.description.clone() }
            }
        }
    };
}
side!(cli, zkenc_cli);
side!(core, zkenc_core);

// ---------------------------------------------------------------- independent encodings
fn j_lc(l: &Lc) -> Value {
    json!({"factors": l.iter().map(|(w, v)| json!({"wire_id": w, "coefficient_bytes": v})).collect::<Vec<_>>()})
}
pub fn j_circ(m: &Circ) -> Value {
    json!({
        "field_size": m.fs, "prime_bytes": m.prime, "n_wires": m.nw, "n_pub_out": m.po, "n_pub_in": m.pi, "n_prv_in": m.pv, "n_constraints": m.nc,
        "constraints": m.cons.iter().map(|k| json!({"a": j_lc(&k[0]), "b": j_lc(&k[1]), "c": j_lc(&k[2])})).collect::<Vec<_>>(),
        "wire_labels": m.labels.as_ref().map(|l| Value::Object(l.iter().map(|(k, v)| (k.to_string(), Value::String(v.clone()))).collect::<Map<_, _>>())),
    })
}
pub fn j_wit(w: &Wit) -> Value {
    json!({"assignments": Value::Object(w.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<Map<_, _>>())})
}
pub fn j_tc(t: &Tc) -> Value {
    json!({"circuit": j_circ(&t.circ), "witness": j_wit(&t.wit), "name": t.name, "description": t.desc})
}
#[derive(Default)]
struct Enc(Vec<u8>, Vec<usize>);
impl Enc {
    fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn len(&mut self, v: usize) {
        self.1.push(self.0.len());
        self.0.extend_from_slice(&(v as u64).to_le_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        self.len(b.len());
        self.0.extend_from_slice(b);
    }
    fn circ(&mut self, m: &Circ) {
        self.u32(m.fs);
        self.bytes(&m.prime);
        for v in [m.nw, m.po, m.pi, m.pv, m.nc] {
            self.u32(v);
        }
        self.len(m.cons.len());
        for l in m.cons.iter().flatten() {
            self.len(l.len());
            for (w, v) in l {
                self.u32(*w);
                self.bytes(v);
            }
        }
        match &m.labels {
            None => self.0.push(0),
            Some(l) => {
                self.0.push(1);
                self.len(l.len());
                for (k, v) in l {
                    self.u32(*k);
                    self.bytes(v.as_bytes());
                }
            }
        }
    }
    fn tc(&mut self, t: &Tc) {
        self.circ(&t.circ);
        self.len(t.wit.len());
        for (k, v) in &t.wit {
            self.u32(*k);
            self.bytes(v);
        }
        self.bytes(t.name.as_bytes());
        match &t.desc {
            None => self.0.push(0),
            Some(d) => {
                self.0.push(1);
                self.bytes(d.as_bytes());
            }
        }
    }
}
pub fn b_circ(m: &Circ) -> (Vec<u8>, Vec<usize>) {
    let mut e = Enc::default();
    e.circ(m);
    (e.0, e.1)
}
pub fn b_tc(t: &Tc) -> Vec<u8> {
    let mut e = Enc::default();
    e.tc(t);
    e.0
}
struct Dec<'a>(&'a [u8]);
impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u32(&mut self) -> Option<u32> {
        Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn len(&mut self) -> Option<usize> {
        Some(u64::from_le_bytes(self.take(8)?.try_into().unwrap()) as usize)
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.len()?;
        Some(self.take(n)?.to_vec())
    }
    fn string(&mut self) -> Option<String> {
        String::from_utf8(self.bytes()?).ok()
    }
    fn circ(&mut self) -> Option<Circ> {
        let mut m = Circ { fs: self.u32()?, prime: self.bytes()?, nw: self.u32()?, po: self.u32()?, pi: self.u32()?, pv: self.u32()?, nc: self.u32()?, ..Default::default() };
        for _ in 0..self.len()? {
            let mut k: [Lc; 3] = Default::default();
            for l in k.iter_mut() {
                for _ in 0..self.len()? {
                    l.push((self.u32()?, self.bytes()?));
                }
            }
            m.cons.push(k);
        }
        if self.take(1)?[0] == 1 {
            let mut l = BTreeMap::new();
            for _ in 0..self.len()? {
                l.insert(self.u32()?, self.string()?);
            }
            m.labels = Some(l);
        }
        Some(m)
    }
    fn tc(&mut self) -> Option<Tc> {
        let circ = self.circ()?;
        let mut wit = Wit::new();
        for _ in 0..self.len()? {
            wit.insert(self.u32()?, self.bytes()?);
        }
        let name = self.string()?;
        let desc = if self.take(1)?[0] == 1 { Some(self.string()?) } else { None };
        Some(Tc { circ, wit, name, desc })
    }
}

// ---------------------------------------------------------------- generators
pub fn text(r: &mut Rng, max: usize) -> String {
    if r.chance(1, 16) {
        // Texts that a reader or writer might take for something else.
        return r.pick(&["null", "true", "false", "undefined", "NaN", "None", "Some", "{}", "[]", "\"\"", "0", "-0", "1e5", "\r\n", "a\r\nb", "a\nb\n", "\r", " ", " padded ", "\ttab\t", "\\n", "\\r\\n", "\\u0041", "a\\", "//", "#", "\u{feff}a", "e\u{301}", "\u{e9}", "&amp;", "%41", "<b>", "$1", "${a}", "~"]).to_string();
    }
    let n = r.size(max);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(12) {
            0 => *r.pick(&['"', '\\', '/', '\n', '\r', '\t', '\u{8}', '\u{c}', '\0', '\u{1}', '\u{1f}', '\u{7f}', '\u{80}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10ffff}', '\u{d7ff}', '\u{e000}']),
            1 => *r.pick(&['電', '路', 'é', 'ß', 'İ', '😀', '𝔘', '\u{301}', 'я', '中']),
            2 => char::from_u32(r.below(0x110000) as u32).unwrap_or('x'),
            3 => *r.pick(&['{', '}', '[', ']', ',', ':', '\'', '.', '$', '%', ' ', '_']),
            _ => (b'a' + r.us(26) as u8) as char,
        };
        s.push(c);
    }
    s
}
pub fn gen_circ(r: &mut Rng, max_c: usize) -> Circ {
    let fs = if r.chance(1, 4) { r.us(70) } else { 32 };
    let mut m = Circ { fs: r.u32_edge(), prime: r.content(fs), nw: r.u32_edge(), po: r.u32_edge(), pi: r.u32_edge(), pv: r.u32_edge(), nc: r.u32_edge(), ..Default::default() };
    for _ in 0..r.size(max_c) {
        let mut k: [Lc; 3] = Default::default();
        for l in k.iter_mut() {
            for _ in 0..r.size(8) {
                let n = if r.chance(1, 8) { r.us(40) } else { fs };
                l.push((r.u32_edge(), r.content(n)));
            }
        }
        m.cons.push(k);
    }
    if r.chance(1, 2) {
        m.labels = Some((0..r.size(30)).map(|i| (if r.chance(1, 2) { i as u32 } else { r.u32_edge() }, text(r, 30))).collect());
    }
    m
}
pub fn gen_wit(r: &mut Rng, max: usize) -> Wit {
    (0..r.size(max)).map(|i| { let n = r.size(60); (if r.chance(2, 3) { i as u32 } else { r.u32_edge() }, r.content(n)) }).collect()
}
pub fn gen_tc(r: &mut Rng) -> Tc {
    Tc { circ: gen_circ(r, 20), wit: gen_wit(r, 60), name: text(r, 60), desc: if r.chance(2, 3) { Some(text(r, 80)) } else { None } }
}
fn brief(m: &Circ) -> Value {
    json!({"constraints": m.cons.len(), "prime_bytes": m.prime.len(), "n_wires": m.nw, "labels": m.labels.as_ref().map(|l| l.iter().take(4).collect::<Vec<_>>())})
}

// ---------------------------------------------------------------- C11
macro_rules! same {
    ($c:expr, $what:expr, $got:expr, $want:expr) => {
        let g = $got;
        if !$c.check(&g == $want, concat!("the value read back differs: ", $what), || json!({"written": format!("{:.600?}", $want), "read": format!("{:.600?}", g)})) {
            return;
        }
    };
}
macro_rules! ok {
    ($c:expr, $what:expr, $e:expr) => {
        match $c.sut_ok($what, || $e.map_err(|e| e.to_string())) {
            Some(v) => v,
            None => return,
        }
    };
}
macro_rules! c11_side {
    ($f:ident, $s:ident) => {
        fn $f(c: &mut Case, dir: &Path, m: &Circ, w: &Wit, t: &Tc) {
            let p = dir.join(concat!("c11-", stringify!($s))).to_str().unwrap().to_string();
            let v = $s::c(m);
            let j = ok!(c, "SerializableCircuit::to_json", v.to_json());
            same!(c, "circuit JSON", $s::cb(&ok!(c, "SerializableCircuit::from_json", $s::C::from_json(&j))), m);
            let b = ok!(c, "SerializableCircuit::to_bincode", v.to_bincode());
            same!(c, "circuit binary", $s::cb(&ok!(c, "SerializableCircuit::from_bincode", $s::C::from_bincode(&b))), m);
            ok!(c, "SerializableCircuit::save_json", v.save_json(&p));
            same!(c, "circuit JSON file", $s::cb(&ok!(c, "SerializableCircuit::load_json", $s::C::load_json(&p))), m);
            // The binary file replaces the JSON one on the same path.
            ok!(c, "SerializableCircuit::save_bincode", v.save_bincode(&p));
            same!(c, "circuit binary file", $s::cb(&ok!(c, "SerializableCircuit::load_bincode", $s::C::load_bincode(&p))), m);
            let v = $s::w(w);
            let j = ok!(c, "SerializableWitness::to_json", v.to_json());
            same!(c, "witness JSON", $s::wb(&ok!(c, "SerializableWitness::from_json", $s::W::from_json(&j))), w);
            ok!(c, "SerializableWitness::save_json", v.save_json(&p));
            same!(c, "witness JSON file", $s::wb(&ok!(c, "SerializableWitness::load_json", $s::W::load_json(&p))), w);
            let v = $s::t(t);
            ok!(c, "SerializableTestCase::save_json", v.save_json(&p));
            same!(c, "test case JSON file", $s::tb(&ok!(c, "SerializableTestCase::load_json", $s::T::load_json(&p))), t);
            c.count("round_trips", 7);
            c.count("bytes_encoded", (j.len() + b.len()) as u64);
        }
    };
}
c11_side!(c11_cli, cli);
c11_side!(c11_core, core);

macro_rules! history {
    ($f:ident, $s:ident) => {
        /// Saves and loads on a few paths; the expected content of every path is tracked.
        fn $f(c: &mut Case, dir: &Path) {
            enum K { C(Circ), B(Circ), W(Wit), T(Tc) }
            let mut at: Vec<Option<K>> = (0..3).map(|_| None).collect();
            // In every other history the paths differ in their extension only, or one is another with something added.
            let tails = *c.rng.pick(&[["-0", "-1", "-2"], [".json", ".bin", ".tmp"], ["", ".tmp", ".json"], [".bincode", ".bak", ".json"], [".json", ".json.tmp", ".json~"], [".r1cs.json", ".r1cs", ".new"], [".JSON", ".json", ""]]);
            for t in tails {
                let _ = std::fs::remove_file(dir.join(format!("{}{}", concat!("h-", stringify!($s)), t)));
            }
            let path = |i: usize| dir.join(format!("{}{}", concat!("h-", stringify!($s)), tails[i])).to_str().unwrap().to_string();
            for step in 0..c.rng.range(8, 30) {
                let i = c.rng.us(3);
                let p = path(i);
                if c.rng.chance(1, 2) || at[i].is_none() {
                    let cap = *c.rng.pick(&[0usize, 3, 60]);
                    match c.rng.below(4) {
                        0 => { let m = gen_circ(&mut c.rng, cap); ok!(c, "SerializableCircuit::save_json", $s::c(&m).save_json(&p)); at[i] = Some(K::C(m)); }
                        1 => { let m = gen_circ(&mut c.rng, cap); ok!(c, "SerializableCircuit::save_bincode", $s::c(&m).save_bincode(&p)); at[i] = Some(K::B(m)); }
                        2 => { let m = gen_wit(&mut c.rng, cap); ok!(c, "SerializableWitness::save_json", $s::w(&m).save_json(&p)); at[i] = Some(K::W(m)); }
                        _ => { let m = gen_tc(&mut c.rng); ok!(c, "SerializableTestCase::save_json", $s::t(&m).save_json(&p)); at[i] = Some(K::T(m)); }
                    }
                    // Exactly the new content: a file with old bytes left behind would be longer than its re-encoding.
                    let size = std::fs::metadata(&p).map(|m| m.len()).unwrap_or(0);
                    let fresh = p.clone() + ".fresh";
                    let _ = std::fs::remove_file(&fresh);
                    match at[i].as_ref().unwrap() {
                        K::C(m) => { ok!(c, "SerializableCircuit::save_json", $s::c(m).save_json(&fresh)); }
                        K::B(m) => { ok!(c, "SerializableCircuit::save_bincode", $s::c(m).save_bincode(&fresh)); }
                        K::W(m) => { ok!(c, "SerializableWitness::save_json", $s::w(m).save_json(&fresh)); }
                        K::T(m) => { ok!(c, "SerializableTestCase::save_json", $s::t(m).save_json(&fresh)); }
                    }
                    let want = std::fs::metadata(&fresh).map(|m| m.len()).unwrap_or(0);
                    if !c.check(size == want, "saving over an existing file does not leave exactly the new content", || json!({"step": step, "size": size, "size_when_new": want})) {
                        return;
                    }
                }
                match at[i].as_ref().unwrap() {
                    K::C(m) => { same!(c, "circuit JSON file in a history", $s::cb(&ok!(c, "SerializableCircuit::load_json", $s::C::load_json(&p))), m); }
                    K::B(m) => { same!(c, "circuit binary file in a history", $s::cb(&ok!(c, "SerializableCircuit::load_bincode", $s::C::load_bincode(&p))), m); }
                    K::W(m) => { same!(c, "witness file in a history", $s::wb(&ok!(c, "SerializableWitness::load_json", $s::W::load_json(&p))), m); }
                    K::T(m) => { same!(c, "test case file in a history", $s::tb(&ok!(c, "SerializableTestCase::load_json", $s::T::load_json(&p))), m); }
                }
                c.count("history_steps", 1);
            }
        }
    };
}
history!(hist_cli, cli);
history!(hist_core, core);

pub fn c11(x: &mut Ctx) {
    let dir = x.scratch.clone();
    x.run("random", x.q(1500, 30000), |c| {
        let m = gen_circ(&mut c.rng, 40);
        let w = gen_wit(&mut c.rng, 200);
        let t = gen_tc(&mut c.rng);
        c.key(format!("{:?}{:?}", m, t));
        c.input(json!({"circuit": brief(&m), "witness_entries": w.len(), "name": t.name}));
        c.sample(json!({"circuit": brief(&m), "witness_entries": w.len(), "name": t.name, "description": t.desc}));
        c11_cli(c, &dir, &m, &w, &t);
        c11_core(c, &dir, &m, &w, &t);
    });
    x.run("history", x.q(120, 3000), |c| {
        c.key(c.idx);
        hist_cli(c, &dir);
        hist_core(c, &dir);
    });
    // Many megabytes, in numbers and in text.
    x.run("large", 4, |c| {
        let (mut m, mut t, mut w) = (gen_circ(&mut c.rng, 2), Tc::default(), Wit::new());
        match c.idx {
            0 => m.prime = c.rng.bytes(3_300_000),
            1 => t.desc = Some("large text ".repeat(3_200_000)),
            2 => {
                let v = c.rng.bytes(32);
                m.cons = (0..40_000u32).map(|i| [vec![(i, v.clone())], vec![(0, v.clone()), (i, v.clone())], vec![]]).collect();
            }
            _ => {
                w = (0..60_000).map(|i| (i, vec![i as u8; 32])).collect();
                m.labels = Some(BTreeMap::from([(5, "label ".repeat(6_000_000))]));
            }
        }
        c.key(c.idx);
        c.input(json!({"large": c.idx}));
        c11_cli(c, &dir, &m, &w, &t);
        c11_core(c, &dir, &m, &w, &t);
    });
    // Every byte value, every wire number shape, every code point block.
    x.run("alphabet", x.q(40, 300), |c| {
        let mut m = gen_circ(&mut c.rng, 1);
        m.prime = (0..=255).collect();
        m.cons.push([(0..32).map(|i| (1u32 << i, vec![i as u8])).collect(), (0..32).map(|i| (u32::MAX >> i, vec![255 - i as u8])).collect(), vec![]]);
        let mut t = gen_tc(&mut c.rng);
        let base = c.idx as u32 * 0x6f00 % 0x110000;
        t.name = (base..base + 0x1000).filter_map(char::from_u32).collect();
        t.desc = Some((0..0x3000).filter_map(char::from_u32).collect());
        m.labels = Some((0..200u32).filter_map(|i| char::from_u32(i * 5600 + c.idx as u32).map(|ch| (i, format!("main.{}", ch)))).collect());
        let w = (0..32).map(|i| (1u32 << i, vec![i as u8; i as usize])).collect();
        c.key(c.idx);
        c.input(json!({"code_points_from": base}));
        c11_cli(c, &dir, &m, &w, &t);
        c11_core(c, &dir, &m, &w, &t);
    });
    // Lengths taken from the sources, for every repeated part and for strings.
    let ints = x.interesting(70000);
    x.run("lengths", ints.len() as u64 * 2, |c| {
        let n = ints[c.idx as usize / 2] as usize;
        let mut m = gen_circ(&mut c.rng, 2);
        let mut t = gen_tc(&mut c.rng);
        let mut w = Wit::new();
        if c.idx % 2 == 0 {
            m.cons = (0..n).map(|i| [vec![(i as u32, vec![])], vec![], vec![]]).collect();
            m.labels = Some((0..n as u32).map(|i| (i, if i % 3 == 0 { String::new() } else { format!("s{}", i) })).collect());
            w = (0..n as u32).map(|i| (i.wrapping_mul(65537), vec![i as u8])).collect();
        } else {
            m.prime = c.rng.bytes(n);
            m.cons.push([vec![], (0..n).map(|i| (i as u32, vec![i as u8, 255])).collect(), vec![(3, c.rng.bytes(n))]]);
            t.name = "é".repeat(n);
            t.desc = Some("\u{1}\"".repeat(n.min(9000)));
            w.insert(9, c.rng.bytes(n));
        }
        c.key((n, c.idx % 2));
        c.input(json!({"length": n}));
        c11_cli(c, &dir, &m, &w, &t);
        c11_core(c, &dir, &m, &w, &t);
    });
}

// ---------------------------------------------------------------- C12
pub fn c12(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let go = |c: &mut Case, m: &Circ, w: &Wit, t: &Tc| {
        let pa = dir.join("c12-a").to_str().unwrap().to_string();
        let pb = dir.join("c12-b").to_str().unwrap().to_string();
        let (a, b) = (cli::c(m), core::c(m));
        // JSON: each side's text has the documented structure and is read by the other side.
        let ja = ok!(c, "cli to_json", a.to_json());
        let jb = ok!(c, "core to_json", b.to_json());
        let want = j_circ(m);
        for (who, j) in [("cli", &ja), ("core", &jb)] {
            let v: Option<Value> = serde_json::from_str(j).ok();
            if !c.check(v.as_ref() == Some(&want), "exported circuit JSON does not have the documented structure", || json!({"by": who, "json": format!("{:.800}", j), "expected": format!("{:.800}", want.to_string())})) {
                return;
            }
        }
        same!(c, "circuit JSON from cli in core", core::cb(&ok!(c, "core from_json", core::C::from_json(&ja))), m);
        same!(c, "circuit JSON from core in cli", cli::cb(&ok!(c, "cli from_json", cli::C::from_json(&jb))), m);
        let one = m.labels.as_ref().map_or(0, |l| l.len()) <= 1;
        let ba = ok!(c, "cli to_bincode", a.to_bincode());
        let bb = ok!(c, "core to_bincode", b.to_bincode());
        same!(c, "circuit binary from cli in core", core::cb(&ok!(c, "core from_bincode", core::C::from_bincode(&ba))), m);
        same!(c, "circuit binary from core in cli", cli::cb(&ok!(c, "cli from_bincode", cli::C::from_bincode(&bb))), m);
        let enc = b_circ(m).0;
        if one {
            c.check(ja == jb, "the two packages write different JSON for the same circuit", || json!({"cli": format!("{:.400}", ja), "core": format!("{:.400}", jb)}));
            c.check(ba == bb, "the two packages write different binary for the same circuit", || json!({"cli": hex(&ba), "core": hex(&bb)}));
            c.check(ba == enc, "the binary form is not the established one", || json!({"got": hex(&ba), "expected": hex(&enc)}));
        }
        // Data in the established format written by somebody else is read by both.
        let text = if c.rng.chance(1, 2) { want.to_string() } else { serde_json::to_string_pretty(&want).unwrap() };
        same!(c, "established JSON in cli", cli::cb(&ok!(c, "cli from_json", cli::C::from_json(&text))), m);
        same!(c, "established JSON in core", core::cb(&ok!(c, "core from_json", core::C::from_json(&text))), m);
        same!(c, "established binary in cli", cli::cb(&ok!(c, "cli from_bincode", cli::C::from_bincode(&enc))), m);
        same!(c, "established binary in core", core::cb(&ok!(c, "core from_bincode", core::C::from_bincode(&enc))), m);
        // Witness.
        let (a, b) = (ok!(c, "cli witness to_json", cli::w(w).to_json()), ok!(c, "core witness to_json", core::w(w).to_json()));
        for (who, j) in [("cli", &a), ("core", &b)] {
            let v: Option<Value> = serde_json::from_str(j).ok();
            if !c.check(v == Some(j_wit(w)), "exported witness JSON does not have the documented structure", || json!({"by": who, "json": format!("{:.400}", j)})) {
                return;
            }
        }
        same!(c, "witness JSON from cli in core", core::wb(&ok!(c, "core witness from_json", core::W::from_json(&a))), w);
        same!(c, "witness JSON from core in cli", cli::wb(&ok!(c, "cli witness from_json", cli::W::from_json(&b))), w);
        // Test case, through files and through the serde form the fixtures use.
        ok!(c, "cli test case save", cli::t(t).save_json(&pa));
        ok!(c, "core test case save", core::t(t).save_json(&pb));
        for p in [&pa, &pb] {
            let v: Option<Value> = std::fs::read_to_string(p).ok().and_then(|s| serde_json::from_str(&s).ok());
            if !c.check(v == Some(j_tc(t)), "exported test case JSON does not have the documented structure", || json!({"expected": format!("{:.400}", j_tc(t).to_string())})) {
                return;
            }
        }
        same!(c, "test case from cli in core", core::tb(&ok!(c, "core test case load", core::T::load_json(&pa))), t);
        same!(c, "test case from core in cli", cli::tb(&ok!(c, "cli test case load", cli::T::load_json(&pb))), t);
        let ba = ok!(c, "cli test case binary", bincode::serialize(&cli::t(t)));
        let bb = ok!(c, "core test case binary", bincode::serialize(&core::t(t)));
        same!(c, "test case binary from cli in core", core::tb(&ok!(c, "core test case binary", bincode::deserialize::<core::T>(&ba))), t);
        same!(c, "test case binary from core in cli", cli::tb(&ok!(c, "cli test case binary", bincode::deserialize::<cli::T>(&bb))), t);
        let enc = b_tc(t);
        same!(c, "established test case binary in core", core::tb(&ok!(c, "core test case binary", bincode::deserialize::<core::T>(&enc))), t);
        same!(c, "established test case binary in cli", cli::tb(&ok!(c, "cli test case binary", bincode::deserialize::<cli::T>(&enc))), t);
        c.count("cross_reads", 12);
        // Files across packages.
        ok!(c, "cli save_bincode", cli::c(m).save_bincode(&pa));
        same!(c, "binary file from cli in core", core::cb(&ok!(c, "core load_bincode", core::C::load_bincode(&pa))), m);
        ok!(c, "core save_json", core::c(m).save_json(&pa));
        same!(c, "JSON file from core in cli", cli::cb(&ok!(c, "cli load_json", cli::C::load_json(&pa))), m);
        ok!(c, "core save_bincode", core::c(m).save_bincode(&pa));
        same!(c, "binary file from core in cli", cli::cb(&ok!(c, "cli load_bincode", cli::C::load_bincode(&pa))), m);
        ok!(c, "cli save_json", cli::c(m).save_json(&pa));
        same!(c, "JSON file from cli in core", core::cb(&ok!(c, "core load_json", core::C::load_json(&pa))), m);
        ok!(c, "cli witness save_json", cli::w(w).save_json(&pa));
        same!(c, "witness file from cli in core", core::wb(&ok!(c, "core witness load_json", core::W::load_json(&pa))), w);
        ok!(c, "core witness save_json", core::w(w).save_json(&pa));
        same!(c, "witness file from core in cli", cli::wb(&ok!(c, "cli witness load_json", cli::W::load_json(&pa))), w);
    };
    x.run("large", 3, |c| {
        let (mut m, mut t) = (gen_circ(&mut c.rng, 2), Tc::default());
        m.labels = None;
        match c.idx {
            0 => m.prime = c.rng.bytes(2_200_000),
            1 => m.cons = (0..30_000u32).map(|i| [vec![(i, vec![7; 32])], vec![(0, vec![i as u8; 32])], vec![]]).collect(),
            _ => {
                t.desc = Some("large text ".repeat(3_200_000));
                m.labels = Some(BTreeMap::from([(5, "label ".repeat(6_000_000))]));
            }
        }
        c.key(c.idx);
        c.input(json!({"large": c.idx}));
        go(c, &m, &Wit::new(), &t);
    });
    x.run("random", x.q(1200, 20000), |c| {
        let mut m = gen_circ(&mut c.rng, 25);
        if c.rng.chance(1, 2) {
            if let Some(l) = &mut m.labels {
                while l.len() > 1 {
                    l.pop_last();
                }
            }
        }
        let w = gen_wit(&mut c.rng, 80);
        let t = gen_tc(&mut c.rng);
        c.key(format!("{:?}{:?}", m, t));
        c.input(json!({"circuit": brief(&m), "witness_entries": w.len()}));
        c.sample(json!({"circuit": brief(&m), "witness_entries": w.len(), "name": t.name}));
        go(c, &m, &w, &t);
    });
    let ints = x.interesting(9000);
    x.run("lengths", ints.len() as u64, |c| {
        let n = ints[c.idx as usize] as usize;
        let mut m = gen_circ(&mut c.rng, 1);
        m.labels = None;
        m.prime = c.rng.bytes(n);
        m.cons = (0..n).map(|i| [vec![(i as u32, vec![1, 2])], vec![], vec![(n as u32, vec![])]]).collect();
        let w = (0..n as u32).map(|i| (i, vec![i as u8; (i % 40) as usize])).collect();
        let mut t = gen_tc(&mut c.rng);
        t.name = "n".repeat(n);
        c.key(n);
        c.input(json!({"length": n}));
        go(c, &m, &w, &t);
    });
    // Circuits exported from R1CS files cross over too.
    let fx = crate::m_r1cs::fixtures();
    x.run("exported_r1cs", fx.len() as u64, |c| {
        let p = &fx[c.idx as usize];
        c.key(p);
        c.input(json!({"file": p}));
        let r = ok!(c, "reading a committed R1CS file", zkenc_cli::r1cs::R1csFile::from_file(p));
        let s = r.to_serializable();
        let m = cli::cb(&s);
        let b = ok!(c, "cli to_bincode", s.to_bincode());
        same!(c, "exported circuit in core", core::cb(&ok!(c, "core from_bincode", core::C::from_bincode(&b))), &m);
        c.check(b == b_circ(&m).0, "the binary form is not the established one", || json!({"file": p}));
    });
    // Committed fixtures: read by both, same content as an independent decoder finds, and re-encoded to the same bytes.
    let dir = Path::new("/repo/packages/zkenc-core/tests/fixtures");
    let mut fx: Vec<_> = std::fs::read_dir(dir).map(|d| d.flatten().map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "bin")).collect()).unwrap_or_default();
    fx.sort();
    x.run("fixture", fx.len() as u64, |c| {
        let p = &fx[c.idx as usize];
        let b = std::fs::read(p).unwrap();
        c.key(h64(&b));
        c.input(json!({"file": p}));
        let Some(want) = Dec(&b).tc() else { return };
        c.sample(json!({"file": p, "name": want.name, "constraints": want.circ.cons.len(), "witness_entries": want.wit.len()}));
        same!(c, "committed fixture in core", core::tb(&ok!(c, "core reading a committed fixture", bincode::deserialize::<core::T>(&b))), &want);
        same!(c, "committed fixture in cli", cli::tb(&ok!(c, "cli reading a committed fixture", bincode::deserialize::<cli::T>(&b))), &want);
        let circ = b_circ(&want.circ).0;
        same!(c, "circuit part of a committed fixture in cli", cli::cb(&ok!(c, "cli from_bincode", cli::C::from_bincode(&circ))), &want.circ);
        c.count("fixture_bytes", b.len() as u64);
    });
}

// ---------------------------------------------------------------- C13
pub fn c13(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let lim = |n: usize| (16usize << 20) + n * 96;
    // Returns (any accepted) for (binary, json circuit, json witness); None after a crash.
    let bin = |c: &mut Case, b: &[u8]| -> Option<[bool; 2]> {
        let a = c.sut("cli from_bincode", || metered(lim(b.len()), || cli::C::from_bincode(b).is_ok()).0)?;
        let d = c.sut("core from_bincode", || metered(lim(b.len()), || core::C::from_bincode(b).is_ok()).0)?;
        c.ops += 2;
        Some([a, d])
    };
    let js = |c: &mut Case, s: &str| -> Option<[bool; 4]> {
        let r = [
            c.sut("cli circuit from_json", || metered(lim(s.len()), || cli::C::from_json(s).is_ok()).0)?,
            c.sut("core circuit from_json", || metered(lim(s.len()), || core::C::from_json(s).is_ok()).0)?,
            c.sut("cli witness from_json", || metered(lim(s.len()), || cli::W::from_json(s).is_ok()).0)?,
            c.sut("core witness from_json", || metered(lim(s.len()), || core::W::from_json(s).is_ok()).0)?,
        ];
        c.ops += 4;
        Some(r)
    };
    let p = dir.join("c13").to_str().unwrap().to_string();
    let file = |c: &mut Case, b: &[u8]| -> Option<[bool; 8]> {
        crate::m_r1cs::put(Path::new(&p), b);
        let l = lim(b.len());
        let r = [
            c.sut("cli circuit load_json", || metered(l, || cli::C::load_json(&p).is_ok()).0)?,
            c.sut("core circuit load_json", || metered(l, || core::C::load_json(&p).is_ok()).0)?,
            c.sut("cli circuit load_bincode", || metered(l, || cli::C::load_bincode(&p).is_ok()).0)?,
            c.sut("core circuit load_bincode", || metered(l, || core::C::load_bincode(&p).is_ok()).0)?,
            c.sut("cli witness load_json", || metered(l, || cli::W::load_json(&p).is_ok()).0)?,
            c.sut("core witness load_json", || metered(l, || core::W::load_json(&p).is_ok()).0)?,
            c.sut("cli test case load_json", || metered(l, || cli::T::load_json(&p).is_ok()).0)?,
            c.sut("core test case load_json", || metered(l, || core::T::load_json(&p).is_ok()).0)?,
        ];
        c.ops += 8;
        Some(r)
    };
    x.run("every_prefix", x.q(40, 500), |c| {
        let m = gen_circ(&mut c.rng, 3);
        let w = gen_wit(&mut c.rng, 4);
        let t = Tc { circ: gen_circ(&mut c.rng, 1), wit: w.clone(), name: text(&mut c.rng, 9), desc: None };
        c.key(format!("{:?}", m));
        c.input(json!({"circuit": brief(&m)}));
        c.sample(json!({"circuit": brief(&m)}));
        let Some(b) = c.sut_ok("to_bincode", || cli::c(&m).to_bincode()) else { return };
        for cut in 0..b.len() {
            let Some(r) = bin(c, &b[..cut]) else { return };
            if !c.check(r == [false; 2], "a truncated binary circuit was accepted", || json!({"cut_at": cut, "of": b.len(), "accepted": r})) {
                return;
            }
        }
        let Some(j) = c.sut_ok("to_json", || core::c(&m).to_json()) else { return };
        let step = (j.len() / 600).max(1);
        let Some(wj) = c.sut_ok("to_json", || cli::w(&w).to_json()) else { return };
        for (s, step) in [(&j, step), (&wj, 1)] {
            let mut cut = 0;
            while cut < s.len() {
                if s.is_char_boundary(cut) {
                    let Some(r) = js(c, &s[..cut]) else { return };
                    if !c.check(r == [false; 4], "truncated JSON was accepted", || json!({"cut_at": cut, "of": s.len(), "accepted": r})) {
                        return;
                    }
                    c.count("prefixes", 1);
                }
                cut += if cut + 40 > s.len() { 1 } else { step };
            }
        }
        let Some(()) = c.sut_ok("save_json", || core::t(&t).save_json(&p).map_err(|e| e.to_string())) else { return };
        let tj = std::fs::read(&p).unwrap();
        for k in 0..30 {
            let cut = if k < 5 { tj.len() - 1 - k } else { c.rng.us(tj.len()) };
            let Some(r) = file(c, &tj[..cut]) else { return };
            // The JSON loaders; a text file is no binary circuit either, but only by luck.
            if !c.check(!(r[0] || r[1] || r[4] || r[5] || r[6] || r[7]), "a truncated test case file was accepted", || json!({"cut_at": cut, "of": tj.len(), "accepted": r})) {
                return;
            }
        }
    });
    x.run("lengths", x.q(250, 5000), |c| {
        let m = gen_circ(&mut c.rng, 3);
        let (b, at) = b_circ(&m);
        c.key(h64(&b));
        for &o in &at {
            let old = u64::from_le_bytes(b[o..o + 8].try_into().unwrap());
            for v in [0, 1, old + 1, old.wrapping_sub(1), b.len() as u64, 1 << 20, 1 << 28, 1 << 32, u32::MAX as u64, u64::MAX, u64::MAX / 2, u64::MAX / 32, u64::MAX / 48 + 1, c.rng.u64_edge()] {
                let mut t = b.clone();
                t[o..o + 8].copy_from_slice(&v.to_le_bytes());
                c.input(json!({"length_at": o, "value": v, "was": old, "bytes": hex(&t)}));
                let Some(r) = bin(c, &t) else { return };
                c.check(r[0] == r[1], "the two packages disagree on whether corrupt data is readable", || json!({"cli": r[0], "core": r[1]}));
                c.count("length_values", 1);
            }
        }
    });
    x.run("mutated", x.q(2500, 60000), |c| {
        let m = gen_circ(&mut c.rng, 4);
        let mut b = b_circ(&m).0;
        let mut j = match c.rng.below(3) {
            0 => j_circ(&m),
            1 => j_wit(&gen_wit(&mut c.rng, 6)),
            _ => j_tc(&gen_tc(&mut c.rng)),
        }
        .to_string()
        .into_bytes();
        for _ in 0..c.rng.range(1, 6) {
            for v in [&mut b, &mut j] {
                let i = c.rng.us(v.len().max(1));
                match c.rng.below(5) {
                    0 => v[i] ^= 1 << c.rng.us(8),
                    1 => v[i] = *c.rng.pick(b"0123456789-.eE\"\\{}[]:,nutf \xff\x00"),
                    2 => {
                        v.remove(i);
                    }
                    3 => v.insert(i, *c.rng.pick(b"0123456789-.eE\"\\{}[]:,")),
                    _ => {
                        let k = c.rng.us(40).min(v.len() - i);
                        let part = v[i..i + k].to_vec();
                        let at = c.rng.us(v.len());
                        v.splice(at..at, part);
                    }
                }
                if v.is_empty() {
                    v.push(0);
                }
            }
        }
        c.key(h64(&(&b, &j)));
        c.input(json!({"binary": hex(&b), "json": format!("{:.300}", String::from_utf8_lossy(&j))}));
        if bin(c, &b).is_none() {
            return;
        }
        match std::str::from_utf8(&j) {
            Ok(s) => {
                if let Some(r) = js(c, s) {
                    c.count("mutated_json_accepted", r.iter().filter(|x| **x).count() as u64);
                }
            }
            Err(_) => c.count("not_utf8", 1),
        }
        if c.idx % 8 == 0 && file(c, &j).is_some() {
            file(c, &b);
        }
    });
    x.run("random", x.q(4000, 80000), |c| {
        let n = c.rng.size(400);
        let b = c.rng.content(n);
        c.key(h64(&b));
        c.input(json!({"bytes": hex(&b)}));
        if bin(c, &b).is_none() {
            return;
        }
        if let Ok(s) = std::str::from_utf8(&b) {
            js(c, s);
        }
        if c.idx % 10 == 0 {
            file(c, &b);
        }
    });
    // Nesting bombs, huge numbers, repeated keys, wrong types.
    let hostile: Vec<String> = {
        let mut v = vec![];
        for n in [100usize, 127, 128, 129, 1000, 100_000, 1_000_000] {
            v.push("[".repeat(n));
            v.push("{\"circuit\":".repeat(n));
            v.push("{\"constraints\":[{\"a\":{\"factors\":".to_string() + &"[".repeat(n));
            v.push("{\"assignments\":".to_string() + &"{\"1\":".repeat(n));
            v.push(format!("{{\"unknown\":{}{}}}", "[".repeat(n), "]".repeat(n)));
            v.push(format!("{{\"field_size\":{}}}", "9".repeat(n)));
            v.push(format!("{{\"field_size\":1e{}}}", "9".repeat(n.min(1000))));
            v.push(format!("{{\"n_wires\":-{}}}", "0".repeat(n)));
            v.push(format!("\"{}\"", "\\ud800".repeat(n)));
        }
        for t in ["", " ", "null", "true", "0", "-", "\"", "{", "}", "[]", "{}", "\u{feff}{}", "{\"assignments\":{\"-1\":[1]}}", "{\"assignments\":{\"4294967296\":[1]}}", "{\"assignments\":{\"1\":[256]}}", "{\"assignments\":{\"1\":[-1]}}", "{\"assignments\":{\"1\":[1.5]}}", "{\"assignments\":{\"1\":\"x\"}}", "{\"assignments\":[1]}", "{\"assignments\":null}"] {
            v.push(t.into());
        }
        v
    };
    let always_bad = ["{\"assignments\":{\"-1\":[1]}}", "{\"assignments\":{\"4294967296\":[1]}}", "{\"assignments\":{\"1\":[256]}}", "{\"assignments\":{\"1\":[-1]}}", "{\"assignments\":{\"1\":[1.5]}}", "{\"assignments\":[1]}", "{\"assignments\":null}", "{}", ""];
    x.run("hostile_json", hostile.len() as u64, |c| {
        let s = &hostile[c.idx as usize];
        c.key(h64(s));
        c.input(json!({"json": format!("{:.80}", s), "length": s.len()}));
        let Some(r) = js(c, s) else { return };
        if always_bad.contains(&s.as_str()) {
            c.check(r == [false; 4], "out-of-range or mistyped JSON was read as some other value", || json!({"json": s, "accepted": r}));
        }
        file(c, s.as_bytes());
    });
    // Every 32-bit number out of range is refused, never wrapped.
    x.run("number_range", x.q(400, 4000), |c| {
        let m = gen_circ(&mut c.rng, 1);
        let mut j = j_circ(&m);
        let f = *c.rng.pick(&["field_size", "n_wires", "n_pub_out", "n_pub_in", "n_prv_in", "n_constraints"]);
        let bad: Value = match c.rng.below(4) {
            0 => json!((1u64 << 32) + c.rng.below(1 << 20)),
            1 => json!(-(1 + c.rng.below(1 << 40) as i64)),
            2 => json!(u64::MAX - c.rng.below(5)),
            _ => json!(c.rng.below(1000) as f64 + 0.5),
        };
        j[f] = bad.clone();
        c.key((f, bad.to_string()));
        c.input(json!({"field": f, "value": bad}));
        let Some(r) = js(c, &j.to_string()) else { return };
        c.check(r == [false; 4], "an out-of-range number was accepted", || json!({"field": f, "value": bad, "accepted": r}));
    });
}

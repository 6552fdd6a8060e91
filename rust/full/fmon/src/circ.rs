//! Circuits made for the monitors: random R1CS models with a known way to satisfy them, an R1CS evaluator
//! and a writer of witness files, none of which share code with /repo.
use crate::m_r1cs::{assemble, Model, Sec};
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::{BigInteger, Field, PrimeField};
use std::collections::HashMap;

pub const PRIME: &str = "010000f093f5e1439170b97948e833285d588181b64550b829a031e1724e6430";
pub fn prime() -> Vec<u8> {
    (0..32).map(|i| u8::from_str_radix(&PRIME[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn le(x: &Fr) -> Vec<u8> {
    let mut b = x.into_bigint().to_bytes_le();
    b.resize(32, 0);
    b
}
pub fn fr(r: &mut Rng) -> Fr {
    match r.below(9) {
        0 => Fr::from(0u64),
        1 => Fr::from(1u64),
        2 => -Fr::from(1u64),
        3 => Fr::from(r.below(300)),
        4 => -Fr::from(r.below(300)),
        5 => Fr::from(2u64).pow([r.below(254)]),
        6 => -Fr::from(2u64).pow([r.below(254)]) + Fr::from(r.below(3)),
        _ => Fr::from_le_bytes_mod_order(&r.bytes(40)),
    }
}
pub fn fr_nonzero(r: &mut Rng) -> Fr {
    loop {
        let x = fr(r);
        if x != Fr::from(0u64) {
            return x;
        }
    }
}

/// How one wire follows from earlier ones: (A·w)(B·w) = rest·w + c·wire.
#[derive(Clone, Debug)]
struct Step {
    out: u32,
    a: Vec<(u32, Fr)>,
    b: Vec<(u32, Fr)>,
    rest: Vec<(u32, Fr)>,
    c: Fr,
}
#[derive(Clone)]
pub struct Circ {
    pub m: Model,
    steps: Vec<Step>,
    /// Wires whose value is free.
    pub free: Vec<u32>,
    /// Free wires that are public.
    pub free_pub: Vec<u32>,
    /// Free wires no public wire depends on.
    pub harmless: Vec<u32>,
}
pub struct Shape {
    pub outs: usize,
    pub ins: usize,
    pub prv: usize,
    pub mid: usize,
    pub lc: usize,
}
pub fn shape(r: &mut Rng) -> Shape {
    Shape { outs: if r.chance(1, 2) { 0 } else { r.size(6) }, ins: r.size(12), prv: 1 + r.size(8), mid: r.size(30), lc: 1 + r.size(5) }
}
pub fn dot(lc: &[(u32, Fr)], w: &[Fr]) -> Fr {
    lc.iter().fold(Fr::from(0u64), |s, (i, c)| s + w[*i as usize] * *c)
}
fn lc(r: &mut Rng, known: &[u32], max: usize) -> Vec<(u32, Fr)> {
    let n = r.us(max + 1);
    (0..n).map(|_| (if r.chance(1, 5) { 0 } else { *r.pick(known) }, fr(r))).collect()
}
impl Circ {
    pub fn generate(r: &mut Rng, s: &Shape) -> Circ {
        let n = 1 + s.outs + s.ins + s.prv + s.mid;
        let first_prv = 1 + s.outs + s.ins;
        // Inputs come first, then outputs and inner wires in a random order.
        let mut known: Vec<u32> = vec![0];
        let free: Vec<u32> = (1 + s.outs..first_prv + s.prv).map(|x| x as u32).collect();
        known.extend(&free);
        let mut rest: Vec<u32> = (1..=s.outs).chain(first_prv + s.prv..n).map(|x| x as u32).collect();
        r.shuffle(&mut rest);
        let mut steps = vec![];
        for out in rest {
            let linear = r.chance(1, 4);
            steps.push(Step {
                out,
                a: if linear && r.chance(1, 2) { vec![] } else { lc(r, &known, s.lc) },
                b: if linear { vec![] } else { lc(r, &known, s.lc) },
                rest: lc(r, &known, s.lc),
                c: fr_nonzero(r),
            });
            known.push(out);
        }
        let mut c = Circ { m: Model::default(), steps, free_pub: free.iter().copied().filter(|w| (*w as usize) < first_prv).collect(), free, harmless: vec![] };
        c.harmless = c.free.iter().copied().filter(|w| *w as usize >= first_prv && !c.touched(*w).iter().any(|t| (*t as usize) < first_prv && t != w)).collect();
        let mut cons: Vec<[Vec<(u32, Fr)>; 3]> = vec![];
        for s in &c.steps {
            let mut k = s.rest.clone();
            let at = r.us(k.len() + 1);
            if r.chance(1, 6) {
                // The new wire's coefficient split over two factors.
                let x = fr(r);
                k.insert(at, (s.out, x));
                k.push((s.out, s.c - x));
            } else {
                k.insert(at, (s.out, s.c));
            }
            cons.push(if r.chance(1, 3) { [s.b.clone(), s.a.clone(), k] } else { [s.a.clone(), s.b.clone(), k] });
        }
        // Constraints that always hold.
        for _ in 0..r.us(4) {
            let l = lc(r, &known, s.lc);
            cons.push(match r.below(3) {
                0 => [l.clone(), vec![(0, Fr::from(1u64))], l],
                1 => [vec![], l, vec![]],
                _ => [vec![(0, Fr::from(2u64))], l.clone(), l.iter().flat_map(|(w, c)| [(*w, *c), (*w, *c)]).collect()],
            });
        }
        r.shuffle(&mut cons);
        c.m = Model {
            prime: prime(),
            n_wires: n as u32,
            n_pub_out: s.outs as u32,
            n_pub_in: s.ins as u32,
            n_prv_in: s.prv as u32,
            n_labels: n as u64,
            cons: cons.into_iter().map(|k| k.map(|l| l.into_iter().map(|(w, c)| (w, le(&c))).collect())).collect(),
            labels: Some((0..n as u64).collect()),
        };
        c
    }
    fn touched(&self, w: u32) -> Vec<u32> {
        let mut t = vec![w];
        for s in &self.steps {
            if s.a.iter().chain(&s.b).chain(&s.rest).any(|(x, _)| t.contains(x)) {
                t.push(s.out);
            }
        }
        t
    }
    pub fn n_pub(&self) -> usize {
        (self.m.n_pub_out + self.m.n_pub_in) as usize
    }
    /// The whole witness for these values of the free wires.
    pub fn solve(&self, free: &HashMap<u32, Fr>) -> Vec<Fr> {
        let mut w = vec![Fr::from(0u64); self.m.n_wires as usize];
        w[0] = Fr::from(1u64);
        for f in &self.free {
            w[*f as usize] = free[f];
        }
        for s in &self.steps {
            w[s.out as usize] = (dot(&s.a, &w) * dot(&s.b, &w) - dot(&s.rest, &w)) / s.c;
        }
        w
    }
    pub fn inputs(&self, r: &mut Rng) -> HashMap<u32, Fr> {
        self.free.iter().map(|f| (*f, fr(r))).collect()
    }
    pub fn bytes(&self) -> Vec<u8> {
        file(&self.m)
    }
}
pub fn file(m: &Model) -> Vec<u8> {
    assemble(b"r1cs", 1, &m.secs()).bytes
}
/// Index of the first constraint these values break; wire 0 counts as 1.
pub fn broken(m: &Model, w: &[Fr]) -> Option<usize> {
    let mut w = w.to_vec();
    w[0] = Fr::from(1u64);
    m.cons.iter().position(|k| {
        let v: Vec<Fr> = k.iter().map(|l| l.iter().fold(Fr::from(0u64), |s, (i, c)| s + w[*i as usize] * Fr::from_le_bytes_mod_order(c))).collect();
        v[0] * v[1] != v[2]
    })
}
/// A witness file with these sections in front of, between and after the two known ones.
pub fn wtns_with(values: &[Vec<u8>], prime: &[u8], extra: [Vec<Sec>; 3]) -> crate::m_r1cs::File {
    wtns_order(values, prime, extra, false)
}
/// With the values before the header when `swap` is set: sections come in any order.
pub fn wtns_order(values: &[Vec<u8>], prime: &[u8], extra: [Vec<Sec>; 3], swap: bool) -> crate::m_r1cs::File {
    let mut h = (prime.len() as u32).to_le_bytes().to_vec();
    h.extend_from_slice(prime);
    let at = h.len();
    h.extend_from_slice(&(values.len() as u32).to_le_bytes());
    let [x, y, z] = extra;
    let mut s = x;
    let h = Sec { ty: 1, data: h, slack: vec![], f32s: vec![0, at], f64s: vec![] };
    let v = Sec { ty: 2, data: values.concat(), slack: vec![], f32s: vec![], f64s: vec![] };
    let (a, b) = if swap { (v, h) } else { (h, v) };
    s.push(a);
    s.extend(y);
    s.push(b);
    s.extend(z);
    assemble(b"wtns", 2, &s)
}
pub fn wtns(w: &[Fr]) -> Vec<u8> {
    wtns_with(&w.iter().map(le).collect::<Vec<_>>(), &prime(), [vec![], vec![], vec![]]).bytes
}
/// An independent reader of witness files with 32-byte values.
pub fn read_wtns(b: &[u8]) -> Vec<Fr> {
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    let mut at = 12;
    let mut v = vec![];
    for _ in 0..u(8) {
        let n = u64::from_le_bytes(b[at + 4..at + 12].try_into().unwrap()) as usize;
        if u(at) == 2 {
            v = b[at + 12..at + 12 + n].chunks(32).map(Fr::from_le_bytes_mod_order).collect();
        }
        at += 12 + n;
    }
    v
}
/// An independent reader of R1CS files with 32-byte values.
pub fn read_r1cs(b: &[u8]) -> Model {
    let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let mut at = 12;
    let mut secs = HashMap::new();
    for _ in 0..u(8) {
        let n = u64::from_le_bytes(b[at + 4..at + 12].try_into().unwrap()) as usize;
        secs.insert(u(at), at + 12);
        at += 12 + n;
    }
    let h = secs[&1];
    assert_eq!(u(h), 32);
    let mut m = Model { prime: b[h + 4..h + 36].to_vec(), n_wires: u(h + 36), n_pub_out: u(h + 40), n_pub_in: u(h + 44), n_prv_in: u(h + 48), ..Model::default() };
    let mut p = secs[&2];
    for _ in 0..u(h + 60) {
        m.cons.push([0, 1, 2].map(|_| {
            let n = u(p);
            p += 4;
            (0..n)
                .map(|_| {
                    p += 36;
                    (u(p - 36), b[p - 32..p].to_vec())
                })
                .collect()
        }));
    }
    m
}

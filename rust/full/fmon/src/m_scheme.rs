//! The scheme itself: what encapsulation publishes and what decapsulation computes from it: C40.
use crate::circ::*;
use crate::kemlib::*;
use crate::m_kem::{describe, Given};
use crate::m_r1cs::Model;
use crate::util::*;
use ark_bn254::{Bn254, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::pairing::Pairing;
use ark_ec::{AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::{Field, UniformRand};
use ark_serialize::CanonicalDeserialize;
use ark_std::rand::SeedableRng;
use serde_json::{json, Value};
use std::collections::HashMap;

fn g1(s: Fr) -> G1Affine {
    (G1Projective::generator() * s).into_affine()
}
fn g2(s: Fr) -> G2Affine {
    (G2Projective::generator() * s).into_affine()
}
/// (p - 1) / 2^k as limbs.
fn order_over(k: u32) -> [u64; 4] {
    let p = prime();
    let mut l = [0u64; 4];
    for i in 0..4 {
        l[i] = u64::from_le_bytes(p[8 * i..8 * i + 8].try_into().unwrap());
    }
    l[0] -= 1;
    for _ in 0..k {
        for i in 0..4 {
            l[i] = (l[i] >> 1) | if i < 3 { l[i + 1] << 63 } else { 0 };
        }
    }
    l
}
/// The value at `x` of the polynomial that is 1 at the j-th of 2^k roots of unity and 0 at the others, for j < n.
fn lagrange(k: u32, n: usize, x: Fr) -> Vec<Fr> {
    let one = Fr::from(1u64);
    let root = Fr::from(5u64).pow(order_over(k));
    let size = Fr::from(2u64).pow([k as u64]);
    let z = x.pow([1u64 << k]) - one;
    let mut w = one;
    (0..n)
        .map(|_| {
            let v = w * z / (size * (x - w));
            w *= root;
            v
        })
        .collect()
}
/// u_i(x), v_i(x), w_i(x) of every wire.
fn qap(m: &Model, k: u32, x: Fr) -> [Vec<Fr>; 3] {
    let l = lagrange(k, m.cons.len(), x);
    [0, 1, 2].map(|side| {
        let mut v = vec![Fr::from(0u64); m.n_wires as usize];
        for (c, l) in m.cons.iter().zip(&l) {
            for (w, f) in &c[side] {
                v[*w as usize] += Fr::from_le_bytes_mod_order(f) * l;
            }
        }
        v
    })
}
use ark_ff::PrimeField;

fn hash(s: &ark_ec::pairing::PairingOutput<Bn254>) -> Vec<u8> {
    blake3::hash(&bytes(s)).as_bytes().to_vec()
}
fn sum1(q: &[G1Affine], w: &[Fr]) -> G1Projective {
    q.iter().zip(w).fold(G1Projective::generator() - G1Projective::generator(), |s, (p, a)| s + p.into_group() * *a)
}
fn sum2(q: &[G2Affine], w: &[Fr]) -> G2Projective {
    q.iter().zip(w).fold(G2Projective::generator() - G2Projective::generator(), |s, (p, a)| s + p.into_group() * *a)
}
/// The key the scheme gives to this witness.
fn opened(ct: &Ct, w: &[Fr]) -> Vec<u8> {
    let k = &ct.encap_key;
    let a = k.alpha_g1.into_group() + sum1(&k.r_u_query_g1, w);
    let b = k.beta_g2.into_group() + sum2(&k.r_v_query_g2, w);
    let c = sum1(&k.phi_delta_query_g1, w);
    hash(&(Bn254::pairing(a, b) - Bn254::pairing(c, k.delta_g2)))
}
/// The key the scheme encapsulates to these public values (1 first).
fn closed(ct: &Ct, public: &[Fr]) -> Vec<u8> {
    let k = &ct.encap_key;
    hash(&(Bn254::pairing(k.alpha_g1, k.beta_g2) + Bn254::pairing(sum1(&k.phi_delta_query_g1, public), G2Projective::generator())))
}
/// The scalars a generator that gives these bytes yields.
fn scalars(b: &[u8], n: usize) -> Vec<Fr> {
    let mut g = Given { bytes: b.to_vec(), at: 0 };
    (0..n).map(|_| Fr::rand(&mut g)).collect()
}

pub fn c40(x: &mut Ctx) {
    let dir = x.scratch.clone();
    // Encapsulation to a circuit whose constraints can be generated: everything it publishes is known from the scalars drawn.
    let published = |c: &mut Case, m: &Model, w: &[Fr], tool: Tool, all: bool| {
        let s = Setup::new(m, &dir);
        let given = c.rng.bytes(1024);
        let n = s.n_pub();
        c.input(json!({"tool": format!("{:?}", tool), "circuit": describe(m), "all_values_given": all}));
        let made = c.sut("encapsulation", || {
            getrandom::control::set(Some(given.clone()));
            let mut g = Given { bytes: given.clone(), at: 0 };
            let r = if all {
                let vals = some(w);
                match tool {
                    Tool::Core => zkenc_core::encap::<Bn254, _, _>(s.own(&vals), &mut g).map_err(|e| e.to_string()),
                    _ => s.cli(&vals).and_then(|q| zkenc_core::encap::<Bn254, _, _>(q, &mut g).map_err(|e| e.to_string())),
                }
                .map(|(ct, key)| (bytes(&ct), key.as_bytes().to_vec()))
            } else {
                s.encap_with(tool, w, &mut g)
            };
            getrandom::control::set(None);
            r
        });
        let Some(made) = made else { return };
        let (b, key) = match made {
            Ok(r) => r,
            Err(e) => return c.fail(format!("encapsulation to a circuit with all its values given failed: {}", e), Value::Null),
        };
        let Ok(ct) = Ct::deserialize_compressed(&b[..]) else { return c.fail("the ciphertext cannot be read back", Value::Null) };
        let k = &ct.encap_key;
        let wires = m.n_wires as usize;
        for (name, len) in [("r_u", k.r_u_query_g1.len()), ("r_v", k.r_v_query_g2.len()), ("phi_delta", k.phi_delta_query_g1.len())] {
            if !c.check(len == wires, "a query list has not one element for every variable", || json!({"list": name, "elements": len, "variables": wires})) {
                return;
            }
        }
        let mut known: Vec<Fr> = w.to_vec();
        known[0] = Fr::from(1u64);
        c.check(key == closed(&ct, &known[..=n]), "the key encapsulated is not the hash of e(alpha, beta) times the public values' part", || json!({"public": n}));
        // A wire that is nowhere on a side has the neutral element there; one list's relation to the others holds without knowing any scalar.
        let on = |side: usize, i: usize| m.cons.iter().any(|c| c[side].iter().any(|f| f.0 as usize == i));
        for i in 0..wires {
            let (u, v, p) = (k.r_u_query_g1[i], k.r_v_query_g2[i], k.phi_delta_query_g1[i]);
            c.check(on(0, i) || u.is_zero(), "a wire that is in no constraint's first side has an element there", || json!({"wire": i}));
            c.check(on(1, i) || v.is_zero(), "a wire that is in no constraint's second side has an element there", || json!({"wire": i}));
            if !on(2, i) && (on(0, i) || on(1, i)) && i < 12 {
                let want = Bn254::pairing(u, k.beta_g2) + Bn254::pairing(k.alpha_g1, v);
                c.check(Bn254::pairing(p, k.delta_g2) == want, "an element of the phi list does not relate to the u and v lists", || json!({"wire": i}));
                c.count("relations_without_scalars", 1);
            }
        }
        // Which of the scalars drawn are alpha, beta and delta; the others include r and x.
        let drawn = scalars(&given, 8);
        // A tool may draw a seed for a generator of its own.
        let drawn = if drawn.iter().any(|s| g1(*s) == k.alpha_g1) {
            drawn
        } else {
            let mut g = ark_std::rand::rngs::StdRng::from_seed(given[..32].try_into().unwrap());
            (0..8).map(|_| Fr::rand(&mut g)).collect()
        };
        let find1 = drawn.iter().position(|s| g1(*s) == k.alpha_g1);
        let (find2, find3) = (drawn.iter().position(|s| g2(*s) == k.beta_g2), drawn.iter().position(|s| g2(*s) == k.delta_g2));
        let (Some(ia), Some(ib), Some(id)) = (find1, find2, find3) else {
            c.count("scalars_not_recognised", 1);
            // One of them that is computed from the others is not random.
            if find1.is_some() || find2.is_some() || find3.is_some() {
                let ones = [Fr::from(1u64), Fr::from(2u64)];
                let from: Vec<Fr> = drawn.iter().take(6).chain(&ones).copied().collect();
                let mut made = vec![];
                for (i, a) in from.iter().enumerate() {
                    made.push(Fr::from(0u64) - *a);
                    made.push(Fr::from(1u64) / *a);
                    for (j, b) in from.iter().enumerate() {
                        made.push(*a / *b);
                        if j >= i {
                            made.extend([*a * *b, *a + *b, *a - *b, *b - *a]);
                        }
                    }
                }
                let is = |of: Option<usize>, eq: &dyn Fn(Fr) -> bool| of.is_none() && made.iter().any(|f| eq(*f));
                let bad = [is(find1, &|f| g1(f) == k.alpha_g1), is(find2, &|f| g2(f) == k.beta_g2), is(find3, &|f| g2(f) == k.delta_g2)];
                c.check(!bad.contains(&true), "one of alpha, beta and delta is computed from the other scalars drawn", || json!({"alpha_beta_delta": bad}));
            }
            return;
        };
        if !c.check(ia != ib && ib != id && ia != id, "two of alpha, beta and delta are the same scalar", || json!({"drawn": [ia, ib, id]})) {
            return;
        }
        let (alpha, beta, delta) = (drawn[ia], drawn[ib], drawn[id]);
        let zero = Fr::from(0u64);
        // Any domain with a point for every constraint, up to one with a point for every wire as well and twice that.
        let bits = m.cons.len().max(1).next_power_of_two().trailing_zeros();
        let most = (m.cons.len() + wires).next_power_of_two().trailing_zeros() + 1;
        let mut best: Option<Value> = None;
        let mut tried = 0;
        for bits in bits..=most {
            for (j, x) in drawn.iter().enumerate() {
                if [ia, ib, id].contains(&j) {
                    continue;
                }
                let [u, v, ww] = qap(m, bits, *x);
                let Some(probe) = (0..wires).find(|i| u[*i] != zero || v[*i] != zero || ww[*i] != zero) else {
                    // Every polynomial is zero: the elements are neutral whatever r and x are.
                    let all = k.r_u_query_g1.iter().chain(&k.phi_delta_query_g1).all(|p| p.is_zero()) && k.r_v_query_g2.iter().all(|p| p.is_zero());
                    c.check(all, "a circuit without constraints has elements that are not neutral", || Value::Null);
                    return;
                };
                for (i, r) in drawn.iter().enumerate() {
                    if i == j || [ia, ib, id].contains(&i) {
                        continue;
                    }
                    tried += 1;
                    let phi = |i: usize| (*r * beta * u[i] + *r * alpha * v[i] + *r * *r * ww[i]) / delta;
                    if g1(*r * u[probe]) != k.r_u_query_g1[probe] || (u[probe] == zero && g2(*r * v[probe]) != k.r_v_query_g2[probe]) {
                        continue;
                    }
                    if u[probe] == zero && v[probe] == zero && g1(phi(probe)) != k.phi_delta_query_g1[probe] {
                        continue;
                    }
                    let mut wrong = vec![];
                    for i in 0..wires {
                        for (list, ok) in [("r_u", g1(*r * u[i]) == k.r_u_query_g1[i]), ("r_v", g2(*r * v[i]) == k.r_v_query_g2[i]), ("phi_delta", g1(phi(i)) == k.phi_delta_query_g1[i])] {
                            if !ok {
                                wrong.push(json!({"list": list, "wire": i}));
                            }
                        }
                    }
                    if wrong.is_empty() {
                        c.count(&format!("elements_recomputed_{:?}", tool), 3 * wires as u64);
                        c.count("encapsulations_recomputed", 1);
                        return;
                    }
                    best = Some(json!({"wrong": wrong.len(), "first": wrong[0]}));
                }
            }
        }
        c.fail("the elements published are not those of the circuit's polynomials for any of the scalars drawn", json!({"closest": best, "choices_tried": tried, "circuit": describe(m)}));
    };
    let open = |c: &mut Case, m: &Model, w: &[Fr], ct: &Ct, tools: &[Tool]| {
        let s = Setup::new(m, &dir);
        let mut full = w.to_vec();
        full[0] = Fr::from(1u64);
        let want = opened(ct, &full);
        let b = bytes(ct);
        for t in tools {
            let Some(k) = c.sut_ok(&format!("decapsulation ({:?}) with a satisfying witness", t), || s.decap_all(*t, w, &b)) else { return };
            c.check(k == want, "the key decapsulated is not the hash of e(A, B) over e(C, delta)", || json!({"tool": format!("{:?}", t), "got": hex(&k), "scheme": hex(&want), "circuit": describe(m)}));
            c.count(&format!("keys_recomputed_{:?}", t), 1);
        }
    };
    let fabricate = |r: &mut Rng, m: &Model, w: &[Fr], kind: u64| -> Ct {
        let n = m.n_wires as usize;
        let nonzero = |r: &mut Rng| loop {
            let s = fr(r);
            if s != Fr::from(0u64) {
                return s;
            }
        };
        // Points that are sparse, dense, all the same, or of one scalar times each wire's own.
        let one = nonzero(r);
        let only = r.us(n);
        let s = |r: &mut Rng, i: usize| match kind % 5 {
            0 => if i == only { one } else { Fr::from(0u64) },
            1 => one,
            2 => one * Fr::from(i as u64 + 1),
            _ => fr(r),
        };
        let empty = r.below(6);
        let list = |r: &mut Rng, which: u64| -> Vec<Fr> { (0..n).map(|i| if empty == which { Fr::from(0u64) } else { s(r, i) }).collect() };
        let (a, b, d) = (list(r, 1), list(r, 2), list(r, 3));
        let pb = (m.n_pub_out + m.n_pub_in) as usize;
        zkenc_core::Ciphertext {
            encap_key: zkenc_core::EncapKey {
                alpha_g1: g1(nonzero(r)),
                beta_g2: g2(nonzero(r)),
                delta_g2: g2(nonzero(r)),
                r_u_query_g1: a.into_iter().map(g1).collect(),
                r_v_query_g2: b.into_iter().map(g2).collect(),
                phi_delta_query_g1: d.into_iter().map(g1).collect(),
                h_query_g1: vec![],
            },
            public_inputs: w[1..=pb].to_vec(),
        }
    };
    let small = |r: &mut Rng, private: bool| {
        let big = if r.chance(1, 5) { if r.chance(1, 4) { 24 } else { 8 } } else { 1 };
        let s = Shape { outs: r.us(2 * big + 1), ins: r.us(4 * big + 1), prv: if private { 1 + r.us(3 * big) } else { 0 }, mid: if private { r.us(4 * big + 4) } else { 0 }, lc: 1 + r.us(3 + big) };
        Circ::generate(r, &s)
    };
    x.run("published", x.q(60, 3000), |c| {
        let all = c.idx % 3 != 0;
        let k = loop {
            let k = small(&mut c.rng, all);
            if !k.m.cons.is_empty() || c.idx % 10 == 9 {
                break k;
            }
        };
        let w = k.solve(&k.inputs(&mut c.rng));
        let tool = if all { [Tool::Core, Tool::Cli][c.idx as usize % 2] } else { TOOLS[c.idx as usize / 3 % 3] };
        c.key((file(&k.m), c.idx));
        c.sample(describe(&k.m));
        published(c, &k.m, &w, tool, all);
    });
    // Numbers of constraints around powers of two, where the domain changes.
    let mut sizes = x.interesting(x.q(70, 1100));
    sizes.retain(|n| *n >= 1);
    x.run("sizes", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize] as usize;
        let one = le(&Fr::from(1u64));
        // The only wires: 1 and two public ones; the constraints differ in their coefficients.
        let (p, q) = (fr(&mut c.rng), fr(&mut c.rng));
        let cons = (0..n)
            .map(|i| {
                let f = le(&fr(&mut c.rng));
                let ff = |a: Fr| le(&a);
                match i % 3 {
                    0 => [vec![(1, f.clone())], vec![(0, one.clone())], vec![(1, f)]],
                    1 => [vec![(0, one.clone())], vec![(2, f.clone())], vec![(2, f)]],
                    _ => [vec![(1, one.clone()), (0, f)], vec![], vec![(0, ff(Fr::from(3u64))), (0, ff(-Fr::from(3u64)))]],
                }
            })
            .collect();
        let m = Model { prime: prime(), n_wires: 3, n_pub_out: (c.idx % 3) as u32, n_pub_in: 2 - (c.idx % 3) as u32, n_prv_in: 0, n_labels: 3, cons, labels: Some(vec![0, 1, 2]) };
        let w = vec![Fr::from(1u64), p, q];
        c.key(n);
        published(c, &m, &w, TOOLS[c.idx as usize % 3], false);
    });
    x.run("opened", x.q(120, 6000), |c| {
        let private = c.idx % 4 != 0;
        let k = small(&mut c.rng, private);
        let free = k.inputs(&mut c.rng);
        let w = k.solve(&free);
        let kind = c.idx;
        let ct = fabricate(&mut c.rng, &k.m, &w, kind);
        c.key((file(&k.m), bytes(&ct)));
        c.sample(describe(&k.m));
        c.input(json!({"circuit": describe(&k.m), "ciphertext": hex(&bytes(&ct))}));
        open(c, &k.m, &w, &ct, &TOOLS);
        // Another satisfying witness gives another key, by the same formula.
        for h in k.harmless.iter().take(2) {
            let mut f: HashMap<u32, Fr> = free.clone();
            f.insert(*h, fr(&mut c.rng));
            let v = k.solve(&f);
            if v[..=k.n_pub()] == w[..=k.n_pub()] {
                open(c, &k.m, &v, &ct, &TOOLS);
                c.count("second_witnesses", 1);
            }
        }
    });
    // Many wires: the sums run over all of them.
    let mut counts = x.interesting(x.q(300, 3000));
    counts.retain(|n| *n >= 1);
    x.run("wires", counts.len() as u64, |c| {
        let n = counts[c.idx as usize] as usize;
        let pb = c.rng.us(n + 1).min(4);
        let one = le(&Fr::from(1u64));
        let wires = n as u32 + 1;
        let m = Model { prime: prime(), n_wires: wires, n_pub_out: 0, n_pub_in: pb as u32, n_prv_in: (n - pb) as u32, n_labels: wires as u64, cons: vec![[vec![(1, one.clone())], vec![(0, one.clone())], vec![(1, one)]]], labels: Some((0..wires as u64).collect()) };
        let mut w: Vec<Fr> = (0..=n).map(|_| fr(&mut c.rng)).collect();
        w[0] = Fr::from(1u64);
        let kind = if n > 60 { c.idx % 3 } else { c.idx };
        let ct = fabricate(&mut c.rng, &m, &w, kind);
        c.key(n);
        open(c, &m, &w, &ct, &[TOOLS[c.idx as usize % 3]]);
    });
}

//! Key encapsulation through the core library, the CLI's circuit and the bindings: C28 C29 C30 C31 C32 C33 C34 C38.
use crate::circ::*;
use crate::kemlib::*;
use crate::m_r1cs::Model;
use crate::m_wtns::repo;
use crate::util::*;
use ark_bn254::{Bn254, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, PrimeGroup};
use ark_ff::Field;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use wasm_bindgen::Text;

pub fn describe(m: &Model) -> Value {
    json!({"outputs": m.n_pub_out, "inputs": m.n_pub_in, "private": m.n_prv_in, "wires": m.n_wires, "constraints": m.cons.len()})
}
fn make(r: &mut Rng) -> Circ {
    let s = shape(r);
    Circ::generate(r, &s)
}
/// Sometimes with no private wire at all.
fn make_any(r: &mut Rng) -> Circ {
    let mut s = shape(r);
    if r.chance(1, 6) {
        (s.prv, s.mid) = (0, 0);
    }
    Circ::generate(r, &s)
}
/// The committed circuits with their committed witnesses.
fn committed() -> Vec<(String, Vec<u8>, Vec<(String, Vec<Fr>)>)> {
    let d = repo().join("packages/zkenc-cli/tests");
    ["sudoku", "signature"]
        .iter()
        .map(|n| {
            let b = std::fs::read(d.join(format!("r1cs/{}.r1cs", n))).unwrap();
            let mut w: Vec<_> = std::fs::read_dir(d.join("inputs"))
                .unwrap()
                .map(|e| e.unwrap().path())
                .filter(|p| p.extension().is_some_and(|e| e == "wtns") && p.file_name().unwrap().to_string_lossy().starts_with(n))
                .map(|p| (p.file_name().unwrap().to_string_lossy().to_string(), read_wtns(&std::fs::read(&p).unwrap())))
                .collect();
            w.sort_by(|a, b| a.0.cmp(&b.0));
            (n.to_string(), b, w)
        })
        .collect()
}

/// `cons` constraints, each saying that one of `n` private wires is the square of the one public wire: the
/// wires of `alone` each by one constraint of their own, at that place.
fn squares(r: &mut Rng, n: usize, cons: usize, alone: &[(usize, usize)]) -> (Model, Vec<Fr>) {
    let one = le(&Fr::from(1u64));
    let rest: Vec<usize> = (0..n).filter(|w| !alone.iter().any(|a| a.0 == *w)).collect();
    let m = Model {
        prime: prime(),
        n_wires: 2 + n as u32,
        n_pub_out: 0,
        n_pub_in: 1,
        n_prv_in: n as u32,
        n_labels: 2 + n as u64,
        cons: (0..cons)
            .map(|i| {
                let w = alone.iter().find(|a| a.1 == i).map(|a| a.0).unwrap_or_else(|| rest[i % rest.len()]);
                [vec![(1, one.clone())], vec![(1, one.clone())], vec![(2 + w as u32, one.clone())]]
            })
            .collect(),
        labels: Some((0..2 + n as u64).collect()),
    };
    let a = fr(r);
    let mut w = vec![Fr::from(1u64), a];
    w.resize(n + 2, a * a);
    (m, w)
}
/// More constraints, then more wires, than 16 bits count. The wires named each break one constraint alone.
fn large(r: &mut Rng, wide: bool) -> (Model, Vec<Fr>, Vec<usize>) {
    let n = 66_000 + r.us(3000);
    let mid = r.us(65536);
    let (m, w, at) = if wide {
        let at = vec![n - 1, 65536, mid];
        let (m, w) = squares(r, n, 6, &[(n - 1, 5), (65536, 0), (mid, 3)]);
        (m, w, at)
    } else {
        let at = vec![7, 3, 5];
        let (m, w) = squares(r, 9, n, &[(7, n - 1), (3, 65536), (5, mid)]);
        (m, w, at)
    };
    (m, w, at.into_iter().map(|x| x + 2).collect())
}

/// More public inputs than 10, 11 or 16 bits count.
fn many_public(r: &mut Rng, i: u64) -> Circ {
    let n = match i % 3 {
        0 => 1025 + r.us(100),
        1 => 2049 + r.us(6000),
        _ => 65536 + r.us(3000),
    };
    let outs = r.us(3);
    Circ::generate(r, &Shape { outs, ins: n, prv: 1, mid: 3, lc: 2 })
}
/// Two circuits whose files differ in one byte near the end, with witnesses for the same public value: the last
/// constraint makes its wire the square, or half the square.
fn twins(r: &mut Rng, n: usize) -> [(Model, Vec<Fr>); 2] {
    let alone: Vec<_> = (0..n).map(|i| (i, i)).collect();
    let (m, w) = squares(r, n + 1, n, &alone);
    let (mut l, mut v) = (m.clone(), w.clone());
    l.cons[n - 1][2][0].1 = le(&Fr::from(2u64));
    v[n + 1] = w[n + 1] / Fr::from(2u64);
    if r.chance(1, 2) {
        [(m, w), (l, v)]
    } else {
        [(l, v), (m, w)]
    }
}

// ------------------------------------------------------------------------------------------------ C28
fn roundtrip(c: &mut Case, s: &Setup, w: &[Fr], others: &[Vec<Fr>], enc: &[Tool], dec: &[Tool]) {
    for &e in enc {
        let Some((ct, key)) = c.sut_ok(&format!("encapsulation ({:?})", e), || s.encap(e, w)) else { return };
        c.check(key.len() == 32, "the key is not 32 bytes", || json!({"tool": format!("{:?}", e), "bytes": key.len()}));
        for &d in dec {
            for (i, v) in std::iter::once(w).chain(others.iter().map(|v| &v[..])).enumerate() {
                let Some(k) = c.sut_ok(&format!("decapsulation ({:?}) with a satisfying witness", d), || s.decap_all(d, v, &ct)) else { return };
                if !c.check(k == key, "the key recovered is not the key encapsulated", || json!({"encapsulated_with": format!("{:?}", e), "recovered_with": format!("{:?}", d), "witness": i, "public": s.n_pub()})) {
                    return;
                }
                c.count(&format!("recovered_{:?}_{:?}", e, d), 1);
            }
        }
    }
}
/// Satisfying witnesses of `k` with the public values of `w`.
fn same_public(r: &mut Rng, k: &Circ, free: &HashMap<u32, Fr>, w: &[Fr], n: usize) -> Vec<Vec<Fr>> {
    let mut out: Vec<Vec<Fr>> = vec![];
    for _ in 0..4 * n {
        if out.len() == n || k.harmless.is_empty() {
            break;
        }
        let mut f = free.clone();
        for h in &k.harmless {
            if r.chance(1, 2) {
                f.insert(*h, fr(r));
            }
        }
        let v = k.solve(&f);
        if v[..=k.n_pub()] == w[..=k.n_pub()] && v != w {
            out.push(v);
        }
    }
    out
}
pub fn c28(x: &mut Ctx) {
    let dir = x.scratch.clone();
    // Every pair of tools, or each tool once on either side.
    let run = |c: &mut Case, k: &Circ, all: bool| {
        let free = k.inputs(&mut c.rng);
        let w = k.solve(&free);
        assert_eq!(broken(&k.m, &w), None);
        let others = if all { same_public(&mut c.rng, k, &free, &w, 1) } else { vec![] };
        let s = Setup::new(&k.m, &dir);
        c.key((&s.bytes, le(&w[k.n_pub().min(1)])));
        c.input(describe(&k.m));
        c.sample(describe(&k.m));
        c.count("second_witnesses", others.len() as u64);
        if all {
            roundtrip(c, &s, &w, &others, &TOOLS, &TOOLS);
        } else {
            for i in 0..3 {
                roundtrip(c, &s, &w, &others, &TOOLS[i..=i], &[TOOLS[(i + 1) % 3]]);
            }
        }
    };
    let fx = committed();
    x.run("committed", fx.len() as u64, |c| {
        let (name, b, ws) = &fx[c.idx as usize];
        let m = read_r1cs(b);
        let s = Setup::from_bytes(&m, b.clone(), &dir);
        c.input(json!({"circuit": name}));
        c.sample(json!({"circuit": name, "witnesses": ws.iter().map(|w| &w.0).collect::<Vec<_>>()}));
        for (_, w) in ws {
            assert_eq!(broken(&m, w), None);
            c.key((name, le(&w[1])));
            let big = m.n_wires > 2000;
            roundtrip(c, &s, w, &[], if big { &[Tool::Core, Tool::Js] } else { &TOOLS }, if big { &[Tool::Core, Tool::Js] } else { &TOOLS });
        }
        if m.n_wires > 2000 {
            roundtrip(c, &s, &ws[0].1, &[], &[Tool::Cli], &[Tool::Cli]);
        }
    });
    x.run("large", x.q(2, 8), |c| {
        let (m, w, _) = large(&mut c.rng, c.idx % 2 == 1);
        let s = Setup::new(&m, &dir);
        c.key((m.n_wires, m.cons.len()));
        c.input(describe(&m));
        for i in 0..3 {
            roundtrip(c, &s, &w, &[], &TOOLS[i..=i], &[TOOLS[(i + 1) % 3]]);
        }
    });
    // Circuits that look alike, used in turn by one tool.
    x.run("twins", x.q(24, 600), |c| {
        let n = 2 + c.rng.size(60);
        let k = twins(&mut c.rng, n);
        c.input(describe(&k[0].0));
        c.key((n, le(&k[0].1[1])));
        let bytes = [file(&k[0].0), file(&k[1].0)];
        assert!(bytes[0].len() == bytes[1].len() && k.iter().all(|(m, w)| broken(m, w).is_none()));
        let t = TOOLS[c.idx as usize % 3];
        let mut held = vec![];
        // A Setup keeps its file under one name, so the file changes in place too.
        for i in [0, 1, 0, 1, 1, 0] {
            let s = Setup::new(&k[i].0, &dir);
            let Some((ct, key)) = c.sut_ok(&format!("encapsulation ({:?})", t), || s.encap(t, &k[i].1)) else { return };
            held.push((i, ct, key));
        }
        let mut order: Vec<usize> = (0..held.len()).collect();
        c.rng.shuffle(&mut order);
        for h in order.into_iter().chain(0..held.len()) {
            let (i, ct, key) = &held[h];
            let s = Setup::new(&k[*i].0, &dir);
            let Some(got) = c.sut_ok(&format!("decapsulation ({:?}) after another circuit of the same length", t), || s.decap_all(t, &k[*i].1, ct)) else { return };
            c.check(&got == key, "the key recovered is not the key encapsulated", || json!({"tool": format!("{:?}", t), "constraints": n}));
            c.count("recovered_among_twins", 1);
        }
    });
    // Many ciphertexts of several circuits alive at once, recovered in any order and from several threads.
    x.run("history", x.q(6, 400), |c| {
        let ks: Vec<Circ> = (0..3).map(|_| make(&mut c.rng)).collect();
        let mut seeds = vec![];
        for _ in 0..4 {
            seeds.push(c.rng.u64());
        }
        let dir = dir.clone();
        let res: Vec<Result<usize, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = seeds
                .iter()
                .map(|sd| {
                    let (ks, dir) = (&ks, &dir);
                    sc.spawn(move || {
                        guard(|| {
                            let mut r = Rng::new(*sd);
                            let mut held: Vec<(Vec<u8>, Vec<u8>, usize, Vec<Fr>)> = vec![];
                            let mut n = 0;
                            for _ in 0..20 {
                                if held.is_empty() || r.chance(1, 2) {
                                    let i = r.us(ks.len());
                                    let s = Setup::new(&ks[i].m, dir);
                                    let w = ks[i].solve(&ks[i].inputs(&mut r));
                                    let (ct, key) = s.encap(*r.pick(&TOOLS), &w)?;
                                    held.push((ct, key, i, w));
                                } else {
                                    let h = r.us(held.len());
                                    let (ct, key, i, w) = &held[h];
                                    let s = Setup::new(&ks[*i].m, dir);
                                    if s.decap_all(*r.pick(&TOOLS), w, ct)? != *key {
                                        return Err("the key recovered is not the key encapsulated".into());
                                    }
                                    n += 1;
                                }
                            }
                            Ok(n)
                        })
                        .unwrap_or_else(|p| Err(format!("panicked: {}", p)))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for r in res {
            match r {
                Ok(n) => c.count("recovered_in_histories", n as u64),
                Err(e) => c.fail(format!("history of encapsulations and decapsulations: {}", e), json!({"circuits": ks.iter().map(|k| describe(&k.m)).collect::<Vec<_>>()})),
            }
        }
        c.ops += 1;
        c.key(seeds[0]);
    });
    // A core circuit that records a constraint before its first private variable.
    x.run("constraint-first", 1, |c| {
        struct First(Option<Fr>, Option<Fr>);
        impl ConstraintSynthesizer<Fr> for First {
            fn generate_constraints(self, cs: ark_relations::gr1cs::ConstraintSystemRef<Fr>) -> Result<(), ark_relations::gr1cs::SynthesisError> {
                use ark_relations::gr1cs::{LinearCombination, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
                let a = cs.new_input_variable(|| self.0.ok_or(SynthesisError::AssignmentMissing))?;
                let lc = |v: Variable| Box::new(move || LinearCombination::<Fr>::zero() + (Fr::from(1u64), v)) as Box<dyn FnOnce() -> LinearCombination<Fr>>;
                cs.enforce_constraint(R1CS_PREDICATE_LABEL, vec![lc(a), lc(Variable::One), lc(a)])?;
                let b = cs.new_witness_variable(|| self.1.ok_or(SynthesisError::AssignmentMissing))?;
                cs.enforce_constraint(R1CS_PREDICATE_LABEL, vec![lc(a), lc(Variable::One), lc(b)])
            }
        }
        let v = Fr::from(5u64);
        let Some((ct, key)) = c.sut_ok("encap", || zkenc_core::encap::<Bn254, _, _>(First(Some(v), None), &mut ark_std::rand::rngs::OsRng)) else { return };
        match zkenc_core::decap::<Bn254, _>(First(Some(v), Some(v)), &ct) {
            Ok(k) if k == key => c.count("constraint_first_recovered", 1),
            o => c.fail_as("constraints-first", "the key is not recovered for a circuit that records a constraint before its first private variable", json!({"decap": o.is_ok()})),
        }
        c.ops += 1;
    });
    x.run("random", x.q(110, 20000), |c| {
        let k = make(&mut c.rng);
        run(c, &k, true);
    });
    let mut shapes = vec![];
    for outs in 0..3 {
        for ins in 0..4 {
            for prv in 1..3 {
                for mid in [0, 1, 3] {
                    shapes.push((outs, ins, prv, mid));
                }
            }
        }
    }
    x.run("shapes", shapes.len() as u64, |c| {
        let (outs, ins, prv, mid) = shapes[c.idx as usize];
        let k = Circ::generate(&mut c.rng, &Shape { outs, ins, prv, mid, lc: 3 });
        run(c, &k, false);
    });
    // Counts of public wires, private wires and constraints named in the sources.
    let sizes = x.interesting(x.q(520, 4100));
    let many = sizes.len() as u64;
    x.run("public-counts", many, |c| {
        let n = sizes[c.idx as usize] as usize;
        let k = Circ::generate(&mut c.rng, &Shape { outs: 0, ins: n, prv: 1, mid: 2, lc: 2 });
        run(c, &k, false);
    });
    x.run("wire-counts", many, |c| {
        let n = sizes[c.idx as usize] as usize;
        let k = Circ::generate(&mut c.rng, &Shape { outs: 1, ins: 1, prv: 1 + n / 2, mid: n - n / 2, lc: 2 });
        run(c, &k, false);
    });
}

// ------------------------------------------------------------------------------------------------ C29
fn refuse(c: &mut Case, s: &Setup, t: Tool, w: &[Option<Fr>], ct: &[u8], why: &str, detail: Value) -> bool {
    c.ops += 1;
    match s.decap_guarded(t, w, ct) {
        Ok(Err(_)) => {
            c.count(&format!("refused_{:?}", t), 1);
            true
        }
        Ok(Ok(_)) => {
            c.fail(format!("decapsulation ({:?}) gave a key to {}", t, why), detail);
            false
        }
        Err(p) => {
            c.fail(format!("decapsulation ({:?}) of {} panicked: {}", t, why, p), detail);
            false
        }
    }
}
pub fn c29(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let corrupt = |c: &mut Case, s: &Setup, w: &[Fr], wires: &[usize], tools: &[Tool]| {
        let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Core, w)) else { return };
        let pb = s.n_pub();
        for &i in wires {
            let mut v = w.to_vec();
            v[i] = near(&mut c.rng, w[i]);
            let Some(k) = broken(&s.m, &v) else {
                c.count("corruption_kept_the_circuit_satisfied", 1);
                continue;
            };
            // A ciphertext for the corrupted public values, so that only the constraints can tell.
            let fresh;
            let ct = if i <= pb {
                let Some(f) = c.sut_ok("encapsulation", || s.encap(Tool::Core, &v)) else { return };
                fresh = f.0;
                &fresh
            } else {
                &ct
            };
            for &t in tools {
                if !refuse(c, s, t, &some(&v), ct, "a witness that breaks a constraint", json!({"wire": i, "constraint": k, "of": s.m.cons.len(), "wires": s.m.n_wires, "was": hex(&le(&w[i])), "is": hex(&le(&v[i]))})) {
                    return;
                }
            }
        }
    };
    x.run("corrupt", x.q(90, 12000), |c| {
        let k = make_any(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.sample(describe(&k.m));
        c.key(&s.bytes);
        let mut wires: Vec<usize> = (1..w.len()).collect();
        if wires.len() > 30 {
            c.rng.shuffle(&mut wires);
            wires.truncate(30);
        }
        corrupt(c, &s, &w, &wires, &TOOLS);
    });
    x.run("large", x.q(2, 8), |c| {
        let (m, w, wires) = large(&mut c.rng, c.idx % 2 == 1);
        let s = Setup::new(&m, &dir);
        c.key((m.n_wires, m.cons.len()));
        c.input(describe(&m));
        corrupt(c, &s, &w, &wires, &TOOLS);
    });
    // A witness of the circuit used just before, which differs from this one in one byte.
    x.run("twins", x.q(24, 600), |c| {
        let n = 2 + c.rng.size(60);
        let k = twins(&mut c.rng, n);
        c.input(describe(&k[0].0));
        c.key((n, le(&k[0].1[1])));
        let t = TOOLS[c.idx as usize % 3];
        for i in [0, 1, 1, 0] {
            let s = Setup::new(&k[i].0, &dir);
            let (w, v) = (&k[i].1, &k[1 - i].1);
            let Some((ct, key)) = c.sut_ok(&format!("encapsulation ({:?})", t), || s.encap(t, w)) else { return };
            if c.rng.chance(2, 3) {
                let Some(got) = c.sut_ok(&format!("decapsulation ({:?})", t), || s.decap_all(t, w, &ct)) else { return };
                c.check(got == key, "the key recovered is not the key encapsulated", || Value::Null);
            }
            if broken(&s.m, v).is_some() && !refuse(c, &s, t, &some(v), &ct, "a witness of a circuit used before", json!({"constraints": n})) {
                return;
            }
        }
    });
    // Every constraint in turn is the only one that fails: each inner wire occurs in its own constraint alone.
    let mut sizes = x.interesting(x.q(130, 2000));
    sizes.retain(|n| *n >= 1);
    x.run("last-constraints", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize] as usize;
        let alone: Vec<_> = (0..n).map(|i| (i, i)).collect();
        let (m, w) = squares(&mut c.rng, n + 1, n, &alone);
        let s = Setup::new(&m, &dir);
        c.key(n);
        let mut wires = vec![2, n + 1, 2 + n / 2];
        for _ in 0..4 {
            wires.push(2 + c.rng.us(n));
        }
        corrupt(c, &s, &w, &wires, &TOOLS);
    });
    x.run("missing", x.q(60, 4000), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.key(&s.bytes);
        let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Core, &w)) else { return };
        for i in 1..w.len() {
            let mut v = some(&w);
            v[i] = None;
            for t in [Tool::Core, Tool::Cli] {
                refuse(c, &s, t, &v, &ct, "a witness without a value for a wire", json!({"wire": i, "wires": w.len()}));
            }
        }
        for n in 0..w.len() {
            refuse(c, &s, Tool::Js, &some(&w[..n]), &ct, "a witness that is too short", json!({"values": n, "wires": w.len()}));
            refuse(c, &s, Tool::Cli, &some(&w[..n]), &ct, "a witness that is too short", json!({"values": n, "wires": w.len()}));
        }
    });
    x.run("foreign", x.q(60, 4000), |c| {
        let (k, l) = (make(&mut c.rng), make(&mut c.rng));
        let w = k.solve(&k.inputs(&mut c.rng));
        let mut v = l.solve(&l.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Core, &w)) else { return };
        let short = v.len() < w.len();
        for t in TOOLS {
            if t == Tool::Js || short {
                if v.len() != w.len() && short {
                    refuse(c, &s, t, &some(&v), &ct, "another circuit's witness", json!({"values": v.len(), "wires": w.len()}));
                }
            }
        }
        // Another circuit's values on all wires, then on the private ones.
        v.resize(w.len(), Fr::from(1u64));
        for public in [false, true] {
            if public {
                v[..=k.n_pub()].copy_from_slice(&w[..=k.n_pub()]);
            }
            if broken(&k.m, &v).is_none() {
                continue;
            }
            let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Core, &v)) else { return };
            for t in TOOLS {
                refuse(c, &s, t, &some(&v), &ct, "another circuit's witness", json!({"kept_public": public}));
            }
        }
        c.key((&s.bytes, v.len()));
    });
    let fx = committed();
    x.run("committed", 4, |c| {
        let (name, b, ws) = &fx[c.idx as usize % 2];
        let m = read_r1cs(b);
        let s = Setup::from_bytes(&m, b.clone(), &dir);
        c.input(json!({"circuit": name}));
        let w = &ws[c.rng.us(ws.len())].1;
        let big = m.n_wires > 2000;
        let wires: Vec<usize> = (0..if big { 5 } else { 40 }).map(|_| 1 + c.rng.us(w.len() - 1)).chain([w.len() - 1]).collect();
        c.key((name, c.idx));
        corrupt(c, &s, w, &wires, &TOOLS);
    });
}

// ------------------------------------------------------------------------------------------------ C30
pub fn c30(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let against = |c: &mut Case, s: &Setup, v: &[Fr], ct: &[u8], at: Vec<usize>| {
        for t in TOOLS {
            if !refuse(c, s, t, &some(v), ct, "a witness for another public input", json!({"positions": at, "public": s.n_pub()})) {
                return;
            }
        }
    };
    let diff = |a: &[Fr], b: &[Fr], n: usize| (1..=n).filter(|i| a[*i] != b[*i]).collect::<Vec<_>>();
    x.run("satisfying", x.q(110, 12000), |c| {
        let k = loop {
            let k = make_any(&mut c.rng);
            if k.n_pub() > 0 {
                break k;
            }
        };
        let free = k.inputs(&mut c.rng);
        let w = k.solve(&free);
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.sample(describe(&k.m));
        c.key(&s.bytes);
        let from = *c.rng.pick(&TOOLS);
        let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(from, &w)) else { return };
        for f in &k.free {
            let mut g = free.clone();
            g.insert(*f, near(&mut c.rng, free[f]));
            let v = k.solve(&g);
            let at = diff(&w, &v, k.n_pub());
            if !at.is_empty() {
                c.count("pairs", 1);
                c.max("positions_most", at.len() as u64);
                c.count("pairs_in_one_position", (at.len() == 1) as u64);
                against(c, &s, &v, &ct, at);
            }
        }
        // All free wires anew; two public inputs exchanged.
        let v = k.solve(&k.inputs(&mut c.rng));
        let at = diff(&w, &v, k.n_pub());
        if !at.is_empty() {
            against(c, &s, &v, &ct, at);
        }
        if k.free_pub.len() > 1 {
            let mut g = free.clone();
            let (a, b) = (*c.rng.pick(&k.free_pub), *c.rng.pick(&k.free_pub));
            g.insert(a, free[&b]);
            g.insert(b, free[&a]);
            let v = k.solve(&g);
            let at = diff(&w, &v, k.n_pub());
            if !at.is_empty() {
                c.count("exchanged", 1);
                against(c, &s, &v, &ct, at);
            }
        }
    });
    x.run("many", x.q(3, 12), |c| {
        let k = many_public(&mut c.rng, c.idx);
        let n = k.n_pub();
        let free = k.inputs(&mut c.rng);
        let w = k.solve(&free);
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.key(n);
        let t = TOOLS[c.rng.us(3)];
        let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(t, &w)) else { return };
        for i in [n, n - 1, n - c.rng.us(200), 1 + k.m.n_pub_out as usize + c.rng.us(800), 1024.min(n), 2048.min(n), 65536.min(n)] {
            let mut g = free.clone();
            let Some(was) = free.get(&(i as u32)) else { continue };
            g.insert(i as u32, near(&mut c.rng, *was));
            let v = k.solve(&g);
            let at = diff(&w, &v, n);
            c.count("pairs_among_many", 1);
            against(c, &s, &v, &ct, at);
        }
    });
    // One position differs, each in turn, for counts of public inputs named in the sources.
    let mut sizes = x.interesting(x.q(300, 3000));
    sizes.retain(|n| *n >= 1);
    x.run("positions", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize] as usize;
        let k = Circ::generate(&mut c.rng, &Shape { outs: 0, ins: n, prv: 1, mid: 2, lc: 2 });
        let free = k.inputs(&mut c.rng);
        let w = k.solve(&free);
        let s = Setup::new(&k.m, &dir);
        c.key(n);
        let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Js, &w)) else { return };
        let mut at: Vec<usize> = (1..=n).collect();
        if n > 12 {
            at = vec![1, 2, n - 1, n];
            for _ in 0..3 {
                at.push(1 + c.rng.us(n));
            }
        }
        for i in at {
            let mut g = free.clone();
            g.insert(i as u32, near(&mut c.rng, free[&(i as u32)]));
            let v = k.solve(&g);
            assert_eq!(diff(&w, &v, n), vec![i]);
            c.count("pairs_in_one_position", 1);
            against(c, &s, &v, &ct, vec![i]);
        }
    });
    let fx = committed();
    x.run("committed", 2, |c| {
        let (name, b, ws) = &fx[c.idx as usize];
        let m = read_r1cs(b);
        let s = Setup::from_bytes(&m, b.clone(), &dir);
        c.input(json!({"circuit": name}));
        for (i, (_, w)) in ws.iter().enumerate() {
            for (j, (_, v)) in ws.iter().enumerate() {
                let at = diff(w, v, s.n_pub());
                if i == j || at.is_empty() || (m.n_wires > 2000 && i > 0) {
                    continue;
                }
                let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Js, w)) else { return };
                c.key((name, i, j));
                for t in if m.n_wires > 2000 { vec![Tool::Core, Tool::Js] } else { TOOLS.to_vec() } {
                    refuse(c, &s, t, &some(v), &ct, "a witness for another public input", json!({"witnesses": [&ws[i].0, &ws[j].0], "positions": at.len()}));
                }
            }
        }
    });
    // A core circuit that allocates a private variable before its public inputs.
    x.run("witness-first", 1, |c| {
        let k = Circ::generate(&mut c.rng, &Shape { outs: 0, ins: 2, prv: 1, mid: 1, lc: 2 });
        let free = k.inputs(&mut c.rng);
        let w = k.solve(&free);
        let mut g = free.clone();
        g.insert(1, near(&mut c.rng, free[&1]));
        let v = k.solve(&g);
        let s = Setup::new(&k.m, &dir);
        let early = |mut o: Own| {
            o.early = Some(3);
            o
        };
        c.ops += 1;
        let r = zkenc_core::encap::<Bn254, _, _>(early(s.own(&some(&w[..=2]))), &mut ark_std::rand::rngs::OsRng);
        let Ok((ct, _)) = r else { return };
        if let Ok(_) = zkenc_core::decap::<Bn254, _>(early(s.own(&some(&v))), &ct) {
            c.fail_as("witness-first", "a circuit that allocates a private variable before its public inputs gets a ciphertext bound to no public input, which a witness for another public input opens", json!({"public_inputs_in_ciphertext": ct.public_inputs.len(), "of": 2}));
        }
    });
}

// ------------------------------------------------------------------------------------------------ C31
pub fn c31(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let bound = |c: &mut Case, k: &Circ| {
        let w = k.solve(&k.inputs(&mut c.rng));
        let n = k.n_pub();
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.sample(describe(&k.m));
        c.key((&s.bytes, le(&w[n.min(1)])));
        let want: Vec<String> = w[1..=n].iter().map(|v| hex(&le(v))).collect();
        for t in TOOLS {
            let Some((ct, _)) = c.sut_ok(&format!("encapsulation ({:?})", t), || s.encap(t, &w)) else { return };
            let Ok(d) = Ct::deserialize_compressed(&ct[..]) else {
                c.fail("the ciphertext is not a ciphertext", json!({"tool": format!("{:?}", t)}));
                return;
            };
            let got: Vec<String> = d.public_inputs.iter().map(|v| hex(&le(v))).collect();
            c.check(got == want, "the ciphertext does not carry exactly the public values in wire order", || json!({"tool": format!("{:?}", t), "carries": got, "public": want}));
            c.count("public_values_compared", n as u64);
        }
        // The bindings given more than the public values: a whole witness, and one that breaks the circuit.
        let mut v = w.clone();
        for round in 0..2 {
            if round == 1 {
                for p in v.iter_mut().skip(n + 1) {
                    *p = fr(&mut c.rng);
                }
            }
            let Some(r) = c.sut("wasm_encap", || zkenc_js::wasm_encap(&s.bytes, &wtns(&v))) else { return };
            if let Ok(r) = r {
                let got: Vec<String> = Ct::deserialize_compressed(&r.ciphertext()[..]).map(|d| d.public_inputs.iter().map(|v| hex(&le(v))).collect()).unwrap_or(vec!["not a ciphertext".into()]);
                c.check(got == want, "the bindings' ciphertext does not carry exactly the public values in wire order", || json!({"carries": got, "public": want, "values_given": v.len()}));
            } else {
                c.fail(format!("wasm_encap failed on a whole witness: {}", r.err().unwrap().text()), Value::Null);
            }
        }
        // Too few values.
        for m in 0..=n {
            let Some(r) = c.sut("wasm_encap", || zkenc_js::wasm_encap(&s.bytes, &wtns(&w[..m]))) else { return };
            c.check(r.is_err(), "the bindings encapsulated although public values were missing", || json!({"given": m, "needed": n + 1}));
            c.count("short_assignments_refused", 1);
        }
    };
    x.run("random", x.q(160, 12000), |c| {
        let k = make_any(&mut c.rng);
        bound(c, &k);
    });
    x.run("many", x.q(3, 12), |c| {
        let k = many_public(&mut c.rng, c.idx);
        let (n, w) = (k.n_pub(), k.solve(&k.inputs(&mut c.rng)));
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.key(n);
        for t in TOOLS {
            let Some((ct, _)) = c.sut_ok(&format!("encapsulation ({:?})", t), || s.encap(t, &w)) else { return };
            let got = Ct::deserialize_compressed(&ct[..]).map(|d| d.public_inputs).unwrap_or_default();
            c.check(got == w[1..=n], "the ciphertext does not carry exactly the public values in wire order", || {
                json!({"tool": format!("{:?}", t), "carries": got.len(), "public": n, "first_difference": got.iter().zip(&w[1..]).position(|(a, b)| a != b)})
            });
            c.count("public_values_compared", n as u64);
        }
        for m in [n, n - 1, n / 2, 1] {
            let Some(r) = c.sut("wasm_encap", || zkenc_js::wasm_encap(&s.bytes, &wtns(&w[..m]))) else { return };
            c.check(r.is_err(), "the bindings encapsulated although public values were missing", || json!({"given": m, "needed": n + 1}));
            c.count("short_assignments_refused", 1);
        }
    });
    let sizes = x.interesting(x.q(270, 2000));
    x.run("counts", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize] as usize;
        let outs = c.rng.us(n.min(4) + 1);
        let private = c.idx % 3 != 0;
        let k = Circ::generate(&mut c.rng, &Shape { outs, ins: n - outs, prv: private as usize, mid: private as usize, lc: 2 });
        bound(c, &k);
    });
}

// ------------------------------------------------------------------------------------------------ C32
fn parts(ct: &Ct) -> [Vec<u8>; 3] {
    [bytes(&ct.encap_key.alpha_g1), bytes(&ct.encap_key.beta_g2), bytes(&ct.encap_key.delta_g2)]
}
/// Random numbers that are given, and how many were asked for.
pub struct Given {
    pub bytes: Vec<u8>,
    pub at: usize,
}
impl ark_std::rand::RngCore for Given {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.bytes.get(self.at).copied().unwrap_or_else(|| (h64(&(self.at, 77u8)) >> 8) as u8);
            self.at += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl ark_std::rand::CryptoRng for Given {}

pub fn c32(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let g1 = G1Projective::generator();
    let g2 = G2Projective::generator();
    // Small multiples of the generators: what a poor random scalar gives.
    let mut small: HashMap<Vec<u8>, i64> = HashMap::new();
    let (mut a, mut b) = (g1 - g1, g2 - g2);
    for i in 0..1500i64 {
        small.insert(bytes(&a.into_affine()), i);
        small.insert(bytes(&(-a).into_affine()), -i);
        small.insert(bytes(&b.into_affine()), i);
        small.insert(bytes(&(-b).into_affine()), -i);
        a += g1;
        b += g2;
    }
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    let per = x.q(220, 6000);
    let long = x.q(400, 4000);
    let rounds = x.q(3, 40);
    x.run("threads", rounds, |c| {
        // Several circuits, all tools, eight threads: every key, ciphertext and random element is new.
        let ks: Vec<Circ> = (0..2).map(|_| make_any(&mut c.rng)).collect();
        let ws: Vec<Vec<Fr>> = ks.iter().map(|k| k.solve(&k.inputs(&mut c.rng))).collect();
        let made: Vec<Result<Vec<(Tool, Vec<u8>, Vec<u8>)>, String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..8)
                .map(|t| {
                    let (ks, ws, dir) = (&ks, &ws, &dir);
                    sc.spawn(move || {
                        guard(|| {
                            let s: Vec<_> = ks.iter().map(|k| Setup::from_bytes(&k.m, file(&k.m), &{
                                let d = dir.join(format!("t{}-{}", t, k.m.n_wires));
                                std::fs::create_dir_all(&d).unwrap();
                                d
                            })).collect();
                            let mut out = vec![];
                            for i in 0..per / 8 {
                                let tool = TOOLS[(i as usize + t) % 3];
                                let j = (i as usize / 3) % 2;
                                let (ct, key) = s[j].encap(tool, &ws[j])?;
                                out.push((tool, ct, key));
                            }
                            Ok(out)
                        })
                        .unwrap_or_else(|p| Err(format!("panicked: {}", p)))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut last: HashMap<(usize, Tool), G1Projective> = HashMap::new();
        let mut steps: HashSet<Vec<u8>> = HashSet::new();
        for (t, r) in made.into_iter().enumerate() {
            let list = match r {
                Ok(l) => l,
                Err(e) => {
                    c.fail(format!("encapsulation failed: {}", e), Value::Null);
                    continue;
                }
            };
            for (i, (tool, ct, key)) in list.into_iter().enumerate() {
                let here = format!("round {} thread {} number {} with {:?}", c.idx, t, i, tool);
                c.check(key.len() == 32, "the key is not 32 bytes", || json!({"bytes": key.len()}));
                let d = Ct::deserialize_compressed(&ct[..]).unwrap();
                let p = parts(&d);
                let mut once = |what: &str, v: Vec<u8>| {
                    if let Some(o) = seen.insert([what.as_bytes(), &v].concat(), here.clone()) {
                        c.fail(format!("two encapsulations share their {}", what), json!({"first": o, "second": here, "value": hex(&v)}));
                    }
                };
                once("key", key);
                once("ciphertext", ct);
                for (n, v) in ["alpha", "beta", "delta"].iter().zip(&p) {
                    once(n, v.clone());
                }
                for (n, v) in ["alpha", "beta", "delta"].iter().zip(&p) {
                    if let Some(k) = small.get(v) {
                        c.fail(format!("the random element {} is a small multiple of the generator", n), json!({"multiple": k, "tool": format!("{:?}", tool)}));
                    }
                }
                if p[1] == p[2] {
                    c.fail("beta and delta are the same element", json!({"tool": format!("{:?}", tool)}));
                }
                let al = d.encap_key.alpha_g1.into_group();
                if let Some(prev) = last.insert((t, tool), al) {
                    let step = al - prev;
                    if !steps.insert(bytes(&step.into_affine())) {
                        c.fail("the random element alpha advances by a constant step", json!({"tool": format!("{:?}", tool)}));
                    }
                }
                if i < 6 {
                    // The scalars behind alpha and beta, and alpha and delta, differ.
                    for (n, q) in [("beta", d.encap_key.beta_g2), ("delta", d.encap_key.delta_g2)] {
                        let e1 = Bn254::pairing(d.encap_key.alpha_g1, G2Affine::generator());
                        let same = e1 == Bn254::pairing(G1Affine::generator(), q);
                        c.check(!same, "two random scalars of one encapsulation are equal", || json!({"alpha_and": n, "tool": format!("{:?}", tool)}));
                    }
                }
                c.ops += 1;
                c.count("encapsulations", 1);
            }
        }
        c.key(c.idx);
        c.sample(json!({"threads": 8, "circuits": ks.iter().map(|k| describe(&k.m)).collect::<Vec<_>>()}));
    });
    // A long sequence in one thread, one tool after the other: longer than any pool of seeds.
    x.run("sequence", 3, |c| {
        let k = Circ::generate(&mut c.rng, &Shape { outs: 0, ins: 1, prv: 1, mid: 0, lc: 1 });
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let tool = TOOLS[c.idx as usize];
        c.key(c.idx);
        c.input(json!({"tool": format!("{:?}", tool)}));
        for i in 0..long {
            let Some((ct, key)) = c.sut_ok("encapsulation", || s.encap(tool, &w)) else { return };
            let d = Ct::deserialize_compressed(&ct[..]).unwrap();
            let here = format!("sequence of {:?}, number {}", tool, i);
            for (n, v) in ["key", "ciphertext", "alpha", "beta", "delta"].iter().zip([key, ct].into_iter().chain(parts(&d))) {
                if let Some(o) = seen.insert([n.as_bytes(), &v].concat(), here.clone()) {
                    c.fail(format!("two encapsulations share their {}", n), json!({"first": o, "second": here, "value": hex(&v)}));
                }
            }
            c.count("encapsulations", 1);
        }
    });
    // The operating system gives no random numbers: whatever comes of it, nothing repeats.
    x.run("no-entropy", x.q(9, 60), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let tool = TOOLS[c.idx as usize % 3];
        c.key(c.idx);
        let made: Vec<Option<(Vec<u8>, Vec<u8>)>> = (0..2)
            .map(|_| {
                std::thread::scope(|sc| {
                    sc.spawn(|| {
                        getrandom::control::fail(true);
                        let r = guard(|| s.encap(tool, &w));
                        getrandom::control::fail(false);
                        r.ok().and_then(|r| r.ok())
                    })
                    .join()
                    .unwrap()
                })
            })
            .collect();
        c.count(if made[0].is_some() { "succeeded_without_entropy" } else { "refused_without_entropy" }, 1);
        if let [Some((a, k)), Some((b, l))] = &made[..] {
            c.check(a != b && k != l, "two encapsulations without random numbers from the system are the same", || json!({"tool": format!("{:?}", tool), "key": hex(k)}));
        }
    });
    // Which bytes of the random numbers consumed decide the key and the elements.
    x.run("entropy", x.q(6, 60), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let tool = TOOLS[c.idx as usize % 3];
        let given = c.rng.bytes(512);
        // Each attempt in a thread of its own, so that a generator kept per thread starts afresh.
        let go = |b: Vec<u8>| -> Result<(usize, Vec<Vec<u8>>), String> {
            std::thread::scope(|sc| {
                sc.spawn(|| {
                    let r = guard(|| {
                        getrandom::control::set(Some(b.clone()));
                        let mut g = Given { bytes: b, at: 0 };
                        let (ct, key) = s.encap_with(tool, &w, &mut g)?;
                        let used = getrandom::control::set(None) as usize + g.at;
                        let d = Ct::deserialize_compressed(&ct[..]).map_err(|e| format!("{:?}", e))?;
                        let [x, y, z] = parts(&d);
                        Ok((used, vec![key, x, y, z]))
                    });
                    r.unwrap_or_else(|p| Err(format!("panicked: {}", p)))
                })
                .join()
                .unwrap()
            })
        };
        c.input(json!({"tool": format!("{:?}", tool)}));
        let (a, b) = (go(given.clone()), go(given.clone()));
        let (Ok((used, base)), Ok((_, again))) = (a, b) else {
            c.fail("encapsulation failed under given random numbers", Value::Null);
            return;
        };
        c.check(used >= 32, "an encapsulation draws fewer than 32 random bytes", || json!({"drawn": used, "tool": format!("{:?}", tool)}));
        if base != again {
            c.count("not_determined_by_given_random_numbers", 1);
            return;
        }
        let mut decides = [0usize; 4];
        for i in 0..used.min(512) {
            let mut v = given.clone();
            v[i] ^= 1 << c.rng.below(5);
            if let Ok((_, o)) = go(v) {
                for j in 0..4 {
                    decides[j] += (o[j] != base[j]) as usize;
                }
            }
        }
        for (j, n) in ["key", "alpha", "beta", "delta"].iter().enumerate() {
            c.check(decides[j] >= 16, "fewer than 16 random bytes decide a secret of the encapsulation", || json!({"secret": n, "bytes_deciding": decides[j], "bytes_drawn": used, "tool": format!("{:?}", tool)}));
            let key = format!("fewest_bytes_deciding_{}_{:?}", n, tool);
            let old = c.count_of(&key);
            if old == 0 || (decides[j] as u64) < old {
                c.set(&key, decides[j] as u64);
            }
        }
        c.key((c.idx, used));
    });
    // Separate processes.
    x.run("processes", 1, |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let wp = dir.join("p.wtns");
        std::fs::write(&wp, wtns(&w)).unwrap();
        let kem = std::env::current_exe().unwrap().with_file_name("kem");
        let n = 40;
        let ps: Vec<_> = (0..n)
            .map(|i| {
                let (a, b) = (dir.join(format!("p{}.ct", i)), dir.join(format!("p{}.key", i)));
                let p = std::process::Command::new(&kem).arg("encap").arg(&s.path).arg(&wp).arg(&a).arg(&b).stdout(std::process::Stdio::null()).spawn().unwrap();
                (p, a, b)
            })
            .collect();
        let mut set: HashSet<Vec<u8>> = HashSet::new();
        for (mut p, a, b) in ps {
            assert!(p.wait().unwrap().success());
            let ct = std::fs::read(a).unwrap();
            let d = Ct::deserialize_compressed(&ct[..]).unwrap();
            for v in parts(&d).into_iter().chain([std::fs::read(b).unwrap(), ct]) {
                if !set.insert(v) {
                    c.fail("two processes' encapsulations share a value", Value::Null);
                }
            }
            c.ops += 1;
            c.count("process_encapsulations", 1);
        }
    });
}

// ------------------------------------------------------------------------------------------------ C33
fn point1(r: &mut Rng) -> G1Affine {
    match r.below(6) {
        0 => G1Affine::zero(),
        1 => G1Affine::generator(),
        _ => (G1Projective::generator() * fr(r)).into_affine(),
    }
}
fn point2(r: &mut Rng) -> G2Affine {
    match r.below(6) {
        0 => G2Affine::zero(),
        1 => G2Affine::generator(),
        _ => (G2Projective::generator() * fr(r)).into_affine(),
    }
}
pub fn any_ct(r: &mut Rng, max: usize) -> Ct {
    let n = |r: &mut Rng| if r.chance(1, 4) { 0 } else { r.size(max) };
    let (a, b, c, d, e) = (n(r), n(r), n(r), n(r), n(r));
    let p = point1(r);
    let q = point2(r);
    zkenc_core::Ciphertext {
        encap_key: zkenc_core::EncapKey {
            alpha_g1: point1(r),
            beta_g2: point2(r),
            delta_g2: point2(r),
            r_u_query_g1: (0..a).map(|_| if a > 30 { p } else { point1(r) }).collect(),
            r_v_query_g2: (0..b).map(|_| if b > 30 { q } else { point2(r) }).collect(),
            phi_delta_query_g1: (0..c).map(|_| if c > 30 { p } else { point1(r) }).collect(),
            h_query_g1: (0..d).map(|_| if d > 30 { p } else { point1(r) }).collect(),
        },
        public_inputs: (0..e).map(|_| fr(r)).collect(),
    }
}
/// A point on the curve of G2 outside its subgroup.
pub fn outside(r: &mut Rng) -> Vec<u8> {
    loop {
        let mut b = r.bytes(64);
        b[31] &= 0x1f;
        b[63] &= 0x1f;
        if let Ok(p) = G2Affine::deserialize_compressed_unchecked(&b[..]) {
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return b;
            }
        }
    }
}
pub fn c33(x: &mut Ctx) {
    let dir = x.scratch.clone();
    x.run("roundtrip", x.q(70, 6000), |c| {
        let ct = if c.rng.chance(1, 3) {
            let k = make(&mut c.rng);
            let w = k.solve(&k.inputs(&mut c.rng));
            let s = Setup::new(&k.m, &dir);
            let t = *c.rng.pick(&TOOLS);
            let Some((b, _)) = c.sut_ok("encapsulation", || s.encap(t, &w)) else { return };
            Ct::deserialize_compressed(&b[..]).unwrap()
        } else {
            any_ct(&mut c.rng, 12)
        };
        let b = bytes(&ct);
        c.key(&b);
        c.sample(json!({"bytes": b.len(), "public_inputs": ct.public_inputs.len(), "elements": ct.encap_key.r_u_query_g1.len()}));
        let k = &ct.encap_key;
        // The layout written down independently: three points, four counted lists, one counted list of scalars.
        let mut want = [bytes(&k.alpha_g1), bytes(&k.beta_g2), bytes(&k.delta_g2)].concat();
        let list = |want: &mut Vec<u8>, l: Vec<Vec<u8>>| {
            want.extend((l.len() as u64).to_le_bytes());
            want.extend(l.concat());
        };
        list(&mut want, k.r_u_query_g1.iter().map(bytes).collect());
        list(&mut want, k.r_v_query_g2.iter().map(bytes).collect());
        list(&mut want, k.phi_delta_query_g1.iter().map(bytes).collect());
        list(&mut want, k.h_query_g1.iter().map(bytes).collect());
        list(&mut want, ct.public_inputs.iter().map(le).collect());
        if want != b {
            // Another layout is no violation of its own; the round trip below decides.
            c.count("layout_differs", 1);
        }
        let Some(d) = c.sut_ok("deserialize_compressed", || Ct::deserialize_compressed(&b[..]).map_err(|e| format!("{:?}", e))) else { return };
        c.check(d == ct, "a ciphertext changes when serialised and read back", || json!({"bytes": hex(&b)}));
        c.check(same(&d, &ct), "a ciphertext changes when serialised and read back", || json!({"bytes": hex(&b)}));
        c.check(b.len() == ct.compressed_size(), "the size announced is not the size written", || json!({"written": b.len(), "announced": ct.compressed_size()}));
        let mut u = vec![];
        ct.serialize_uncompressed(&mut u).unwrap();
        let Some(d) = c.sut_ok("deserialize_uncompressed", || Ct::deserialize_uncompressed(&u[..]).map_err(|e| format!("{:?}", e))) else { return };
        c.check(same(&d, &ct), "a ciphertext changes when serialised uncompressed and read back", || Value::Null);
        let raw: [u8; 32] = c.rng.bytes(32).try_into().unwrap();
        let key = zkenc_core::Key::new(raw);
        let kb = bytes(&key);
        c.check(kb == raw && *key.as_bytes() == raw, "a key's serialisation is not its 32 bytes", || json!({"bytes": hex(&kb)}));
        let Some(back) = c.sut_ok("Key::deserialize_compressed", || zkenc_core::Key::deserialize_compressed(&kb[..]).map_err(|e| format!("{:?}", e))) else { return };
        c.check(back == key, "a key changes when serialised and read back", || Value::Null);
        for n in [0, 1, 16, 31] {
            let r = c.sut("Key::deserialize_compressed", || zkenc_core::Key::deserialize_compressed(&kb[..n]).is_ok());
            c.check(r == Some(false), "a truncated key is accepted", || json!({"bytes": n}));
        }
    });
    // Many keys and ciphertexts: whatever the first and last bytes of a key are.
    x.run("keys", x.q(3, 60), |c| {
        let k = Circ::generate(&mut c.rng, &Shape { outs: 0, ins: 1, prv: 1, mid: 0, lc: 1 });
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let t = TOOLS[c.idx as usize % 3];
        c.key(c.idx);
        for _ in 0..120 {
            let Some((b, key)) = c.sut_ok("encapsulation", || s.encap(t, &w)) else { return };
            let back = Ct::deserialize_compressed(&b[..]).map(|d| bytes(&d));
            c.check(back.as_ref().ok() == Some(&b), "the bytes a tool gives are not a ciphertext's serialisation", || json!({"bytes": hex(&b)}));
            c.check(key.len() == 32, "the key is not 32 bytes", || json!({"key": hex(&key)}));
            let Some(l) = c.sut_ok("decapsulation", || s.decap_all(t, &w, &b)) else { return };
            c.check(l == key, "the key decapsulated is not the key encapsulated", || json!({"key": hex(&key), "decapsulated": hex(&l)}));
            c.count("keys", 1);
        }
    });
    // Truncations and corruptions, through every reader of ciphertexts.
    x.run("damaged", x.q(26, 3000), |c| {
        let k = Circ::generate(&mut c.rng, &Shape { outs: 1, ins: 2, prv: 1, mid: 2, lc: 2 });
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let Some((b, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Cli, &w)) else { return };
        let wb = wtns(&w);
        c.key(&b);
        let reads = |c: &mut Case, d: &[u8], must_fail: bool, what: Value| -> bool {
            let (r, _) = metered((16 << 20) + 64 * d.len(), || guard(|| Ct::deserialize_compressed(d).is_ok()));
            c.ops += 1;
            let (j, _) = metered((64 << 20) + 64 * d.len(), || guard(|| zkenc_js::wasm_decap(&s.bytes, &wb, d).is_ok()));
            for (n, r) in [("Ciphertext::deserialize_compressed", r), ("wasm_decap", j)] {
                match r {
                    Err(p) => {
                        c.fail(format!("{} panicked on damaged bytes: {}", n, p), what.clone());
                        return false;
                    }
                    Ok(true) if must_fail => {
                        c.fail(format!("{} accepted damaged bytes", n), what.clone());
                        return false;
                    }
                    Ok(a) => c.count(if a { "damaged_accepted" } else { "damaged_refused" }, 1),
                }
            }
            true
        };
        for n in 0..b.len() {
            if (n < 200 || c.rng.chance(1, 3)) && !reads(c, &b[..n], true, json!({"truncated_to": n, "of": b.len()})) {
                return;
            }
        }
        for _ in 0..60 {
            let mut d = b.clone();
            let i = c.rng.us(d.len());
            d[i] ^= 1 << c.rng.below(8);
            if !reads(c, &d, false, json!({"flipped_byte": i})) {
                return;
            }
        }
        // Counts at boundary values: more elements than there are bytes for.
        let mut at = 32 + 64 + 64;
        for size in [32, 64, 32, 32, 32] {
            let n = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
            for v in [u64::MAX, u64::MAX / 32, u64::MAX / 64 + 1, 1 << 32, 1 << 40, (1 << 63) - 1, 1 << 63, 1 << 61, 1 << 59, 1 << 58, 100000, (b.len() as u64) / size + 1] {
                let mut d = b.clone();
                d[at..at + 8].copy_from_slice(&v.to_le_bytes());
                if !reads(c, &d, true, json!({"count_at": at, "set_to": v})) {
                    return;
                }
            }
            at += 8 + (n * size) as usize;
        }
        // A point that is on the curve but not in the group; coordinates and scalars beyond the modulus.
        for at in [32, 96] {
            let mut d = b.clone();
            d[at..at + 64].copy_from_slice(&outside(&mut c.rng));
            if !reads(c, &d, true, json!({"point_outside_the_group_at": at})) {
                return;
            }
        }
        for at in [0, 32, 64, 96, 128] {
            let mut d = b.clone();
            for y in &mut d[at..at + 32] {
                *y = 0xff;
            }
            d[at + 31] = 0x3f;
            if !reads(c, &d, true, json!({"coordinate_beyond_the_modulus_at": at})) {
                return;
            }
        }
        let mut d = b.clone();
        let n = d.len();
        d[n - 32..].copy_from_slice(&prime());
        reads(c, &d, true, json!({"public_input": "the modulus itself"}));
        for _ in 0..20 {
            let n = c.rng.size(600);
            let d = c.rng.content(n);
            if !reads(c, &d, false, json!({"arbitrary_bytes": hex(&d)})) {
                return;
            }
        }
    });
    x.run("verify", x.q(250, 20000), |c| {
        let mut ct = any_ct(&mut c.rng, 3);
        let n = c.rng.size(60);
        ct.public_inputs = (0..n).map(|_| if c.rng.chance(1, 4) { Fr::from(7u64) } else { fr(&mut c.rng) }).collect();
        let p = ct.public_inputs.clone();
        c.key((n, p.first().map(le), p.last().map(le)));
        let ask = |c: &mut Case, l: &[Fr], what: &str| {
            let Some(r) = c.sut("verify_ciphertext", || zkenc_core::verify_ciphertext(&ct, l)) else { return };
            c.check(r == (l == p), if r { "verification accepts another list of public inputs" } else { "verification refuses the ciphertext's own public inputs" }, || json!({"list": what, "length": l.len(), "stored": p.len()}));
            c.count(if r { "verify_accepted" } else { "verify_refused" }, 1);
        };
        ask(c, &p, "the same");
        for m in 0..n {
            ask(c, &p[..m], "a prefix");
            ask(c, &p[m + 1..], "a suffix");
            let mut v = p.clone();
            v[m] = near(&mut c.rng, p[m]);
            ask(c, &v, "one value differs");
            let mut v = p.clone();
            let o = c.rng.us(n);
            v.swap(m, o);
            ask(c, &v, "two values exchanged");
            let mut v = p.clone();
            v.remove(m);
            ask(c, &v, "one value left out");
        }
        for extra in [Fr::from(0u64), Fr::from(1u64), fr(&mut c.rng), p.last().copied().unwrap_or(Fr::from(3u64))] {
            let mut v = p.clone();
            v.push(extra);
            ask(c, &v, "one value more");
            let mut v = vec![extra];
            v.extend(&p);
            ask(c, &v, "one value in front");
        }
        let mut v = p.clone();
        v.reverse();
        ask(c, &v, "reversed");
    });
}
pub fn same(a: &Ct, b: &Ct) -> bool {
    let (x, y) = (&a.encap_key, &b.encap_key);
    x.alpha_g1 == y.alpha_g1 && x.beta_g2 == y.beta_g2 && x.delta_g2 == y.delta_g2 && x.r_u_query_g1 == y.r_u_query_g1 && x.r_v_query_g2 == y.r_v_query_g2
        && x.phi_delta_query_g1 == y.phi_delta_query_g1 && x.h_query_g1 == y.h_query_g1 && a.public_inputs == b.public_inputs
}

// ------------------------------------------------------------------------------------------------ C34
pub fn c34(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let judge = |c: &mut Case, s: &Setup, w: &[Fr], js: bool| {
        let want = broken(&s.m, w);
        let n = s.n_pub();
        let mut w1 = w.to_vec();
        w1[0] = Fr::from(1u64);
        let Some(r) = c.sut("generate_constraints", || -> Result<_, String> {
            let cs = ConstraintSystem::<Fr>::new_ref();
            s.cli(&some(w))?.generate_constraints(cs.clone()).map_err(|e| format!("{:?}", e))?;
            let sat = cs.is_satisfied().map_err(|e| format!("{:?}", e))?;
            let b = cs.borrow().unwrap();
            Ok((sat, b.instance_assignment().unwrap().to_vec(), b.witness_assignment().unwrap().to_vec(), b.num_constraints()))
        }) else { return };
        let (sat, inst, priv_, k) = match r {
            Ok(r) => r,
            Err(e) => {
                c.fail(format!("the constraint system of a well-formed circuit with all values given cannot be built: {}", e), describe(&s.m));
                return;
            }
        };
        c.check(sat == want.is_none(), if sat { "the constraint system is satisfied although a constraint of the file is not" } else { "the constraint system is not satisfied although every constraint of the file is" }, || json!({"constraint": want, "of": s.m.cons.len(), "circuit": describe(&s.m)}));
        c.check(inst == w1[..=n], "the instance variables are not 1 and the public wires in order", || json!({"public": n, "instance": inst.len()}));
        c.check(priv_ == w1[n + 1..], "the witness variables are not the private wires in order", || json!({"private": w.len() - n - 1, "witness": priv_.len()}));
        c.count(if sat { "cli_satisfied" } else { "cli_unsatisfied" }, 1);
        c.max("constraints_most", k as u64);
        if js {
            let Some((ct, _)) = c.sut_ok("encapsulation", || s.encap(Tool::Core, w)) else { return };
            match s.decap_guarded(Tool::Js, &some(w), &ct) {
                Err(p) => c.fail(format!("wasm_decap panicked: {}", p), describe(&s.m)),
                Ok(r) => {
                    let sat = r.is_ok();
                    c.check(sat == want.is_none(), if sat { "the bindings take an assignment for satisfying although a constraint is not" } else { "the bindings refuse an assignment that satisfies every constraint" }, || json!({"constraint": want, "of": s.m.cons.len(), "circuit": describe(&s.m), "answer": r.err()}));
                    c.count(if sat { "js_satisfied" } else { "js_unsatisfied" }, 1);
                }
            }
        }
    };
    x.run("assignments", x.q(120, 12000), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        c.input(describe(&k.m));
        c.sample(describe(&k.m));
        c.key(&s.bytes);
        judge(c, &s, &w, true);
        for _ in 0..5 {
            let mut v = w.clone();
            let i = c.rng.us(v.len());
            v[i] = near(&mut c.rng, v[i]);
            judge(c, &s, &v, true);
        }
    });
    x.run("large", x.q(2, 8), |c| {
        let (m, w, wires) = large(&mut c.rng, c.idx % 2 == 1);
        let s = Setup::new(&m, &dir);
        c.key((m.n_wires, m.cons.len()));
        c.input(describe(&m));
        judge(c, &s, &w, true);
        for i in wires {
            let mut v = w.clone();
            v[i] = near(&mut c.rng, v[i]);
            judge(c, &s, &v, true);
        }
    });
    // One constraint of every form, with the value that satisfies it and its neighbours.
    x.run("single", x.q(500, 60000), |c| {
        let r = &mut c.rng;
        let n = 2 + r.us(6);
        let n_pub = r.us(n);
        let mut w: Vec<Fr> = (0..n).map(|_| fr(r)).collect();
        w[0] = Fr::from(1u64);
        let lc = |r: &mut Rng| -> Vec<(u32, Vec<u8>)> { (0..r.us(4)).map(|_| (r.us(n) as u32, le(&fr(r)))).collect() };
        let (a, b, mut d) = (lc(r), lc(r), lc(r));
        let val = |l: &[(u32, Vec<u8>)]| l.iter().fold(Fr::from(0u64), |s, (i, k)| s + w[*i as usize] * Fr::deserialize_compressed(&k[..]).unwrap());
        // Make it hold through one more factor in C, on a wire that is not zero.
        let gap = val(&a) * val(&b) - val(&d);
        let at = (0..n).rev().find(|i| w[*i] != Fr::from(0u64)).unwrap();
        let mut off = gap / w[at];
        if r.chance(1, 3) {
            off += Fr::from(2u64).pow([r.below(254)]);
        }
        let pos = r.us(d.len() + 1);
        d.insert(pos, (at as u32, le(&off)));
        let mut con = [a, b, d];
        if r.chance(1, 8) {
            // A constant side.
            con[r.us(2)] = vec![(0, le(&fr(r)))];
        }
        let m = Model { prime: prime(), n_wires: n as u32, n_pub_out: 0, n_pub_in: n_pub as u32, n_prv_in: (n - 1).saturating_sub(n_pub) as u32, n_labels: n as u64, cons: vec![con], labels: None };
        let all_public = n_pub == n - 1;
        let m = if all_public && r.chance(1, 2) { Model { n_wires: n as u32 + 1, n_prv_in: 1, ..m } } else { m };
        // Without a private wire no key can be encapsulated to be taken back, so only the system itself is judged.
        let js = m.n_wires as usize > n_pub + 1;
        w.resize(m.n_wires as usize, Fr::from(5u64));
        let s = Setup::new(&m, &dir);
        c.input(json!({"constraint": format!("{:?}", m.cons[0].iter().map(|l| l.iter().map(|(w, k)| (*w, hex(k))).collect::<Vec<_>>()).collect::<Vec<_>>()), "wires": w.iter().map(|v| hex(&le(v))).collect::<Vec<_>>()}));
        c.key(&s.bytes);
        judge(c, &s, &w, js);
    });
    // One coefficient, wire or sign of a satisfied circuit changed in the file.
    x.run("coefficients", x.q(100, 12000), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        c.key(file(&k.m));
        for _ in 0..6 {
            let mut m = k.m.clone();
            if m.cons.is_empty() {
                return;
            }
            let i = c.rng.us(m.cons.len());
            let side = c.rng.us(3);
            let l = &mut m.cons[i][side];
            if l.is_empty() {
                l.push((c.rng.us(m.n_wires as usize) as u32, le(&fr(&mut c.rng))));
            } else {
                let j = c.rng.us(l.len());
                match c.rng.below(4) {
                    0 => {
                        l.remove(j);
                    }
                    1 => l[j].0 = c.rng.us(m.n_wires as usize) as u32,
                    2 => {
                        let f = l[j].clone();
                        l.push(f);
                    }
                    _ => {
                        let v = Fr::deserialize_compressed(&l[j].1[..]).unwrap();
                        l[j].1 = le(&near(&mut c.rng, v));
                    }
                }
            }
            let s = Setup::new(&m, &dir);
            c.input(json!({"circuit": describe(&m), "constraint": i, "side": side}));
            judge(c, &s, &w, true);
        }
    });
    let sizes = x.interesting(x.q(300, 3000));
    x.run("sizes", sizes.len() as u64, |c| {
        let n = sizes[c.idx as usize] as usize;
        // `n` constraints, the last of them the one that fails; then `n` factors in one combination.
        let k = Circ::generate(&mut c.rng, &Shape { outs: 1, ins: 1, prv: 1, mid: n, lc: 2 });
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        c.key(n);
        judge(c, &s, &w, true);
        let mut v = w.clone();
        let i = v.len() - 1 - c.rng.us(2);
        v[i] = near(&mut c.rng, v[i]);
        judge(c, &s, &v, true);
        let one = le(&Fr::from(1u64));
        let l: Vec<_> = (0..n).map(|i| (1 + (i % 3) as u32, one.clone())).collect();
        let m = Model { prime: prime(), n_wires: 5, n_pub_out: 0, n_pub_in: 1, n_prv_in: 3, n_labels: 5, cons: vec![[l.clone(), vec![(0, one.clone())], vec![(4, one.clone())]]], labels: None };
        let mut w = vec![Fr::from(1u64), fr(&mut c.rng), fr(&mut c.rng), fr(&mut c.rng)];
        let sum = l.iter().fold(Fr::from(0u64), |s, (i, _)| s + w[*i as usize]);
        w.push(sum);
        let s = Setup::new(&m, &dir);
        judge(c, &s, &w, true);
        w[4] += Fr::from(1u64);
        judge(c, &s, &w, true);
    });
    let fx = committed();
    x.run("committed", 2, |c| {
        let (name, b, ws) = &fx[c.idx as usize];
        let m = read_r1cs(b);
        let s = Setup::from_bytes(&m, b.clone(), &dir);
        c.input(json!({"circuit": name}));
        for (i, (_, w)) in ws.iter().enumerate() {
            if i > 0 && m.n_wires > 2000 {
                break;
            }
            c.key((name, i));
            judge(c, &s, w, true);
            let mut v = w.clone();
            let i = 1 + c.rng.us(v.len() - 1);
            v[i] = near(&mut c.rng, v[i]);
            judge(c, &s, &v, true);
        }
    });
}

// ------------------------------------------------------------------------------------------------ C38
/// Logarithms up to 2^33 of either sign, by baby and giant steps.
pub struct Logs<P: CurveGroup> {
    baby: HashMap<<P as CurveGroup>::BaseField, u64>,
    giant: P,
}
const BABY: u64 = 1 << 16;
impl<P: CurveGroup + ark_ec::PrimeGroup> Logs<P> {
    pub fn new() -> Self {
        let g = P::generator();
        let mut v = Vec::with_capacity(BABY as usize);
        let mut a = g;
        for _ in 1..=BABY {
            v.push(a);
            a += g;
        }
        let baby = P::normalize_batch(&v).iter().zip(1..).filter_map(|(p, i)| Some((p.x()?, i))).collect();
        let d = v[BABY as usize - 1];
        Logs { baby, giant: d + d + g }
    }
    /// `k` if the point is k or -k times the generator, k below 2^33.
    pub fn find(&self, p: P) -> Option<i64> {
        let step = 2 * BABY + 1;
        // p - j * step for j of both signs covers both signs of k.
        for (sign, q) in [(1i64, p), (-1, -p)] {
            let mut v = Vec::with_capacity(BABY as usize);
            let mut a = q;
            for _ in 0..BABY {
                v.push(a);
                a -= self.giant;
            }
            for (j, t) in P::normalize_batch(&v).iter().enumerate() {
                let base = (j as u64 * step) as i64;
                match t.x() {
                    None => return Some(sign * base),
                    Some(x) => {
                        if let Some(i) = self.baby.get(&x) {
                            let g = P::generator();
                            let near = if (g * P::ScalarField::from(*i)).into_affine() == *t { base + *i as i64 } else { base - *i as i64 };
                            return Some(sign * near);
                        }
                    }
                }
            }
        }
        None
    }
}
/// What an eavesdropper computes: named byte strings and group elements made from public data.
pub struct Attack {
    pub strings: Vec<(String, Vec<u8>)>,
    known: Vec<Vec<u8>>,
}
pub fn ways(b: &[u8]) -> Vec<(&'static str, [u8; 32])> {
    use sha2::Digest;
    let mut v = vec![];
    if b.len() >= 32 {
        v.push(("the first bytes themselves", b[..32].try_into().unwrap()));
        v.push(("the last bytes themselves", b[b.len() - 32..].try_into().unwrap()));
    }
    v.push(("their BLAKE3 hash", *blake3::hash(b).as_bytes()));
    v.push(("their SHA-256 hash", sha2::Sha256::digest(b).into()));
    v
}
impl Attack {
    /// `ct` is the witness ciphertext, `others` more public byte strings.
    pub fn new(d: &Ct, ct: &[u8], others: &[(&str, &[u8])]) -> Attack {
        let mut strings: Vec<(String, Vec<u8>)> = vec![];
        let e = &d.encap_key;
        fn both<P: CanonicalSerialize>(p: &P) -> (Vec<u8>, Vec<u8>) {
            let mut u = vec![];
            p.serialize_uncompressed(&mut u).unwrap();
            (bytes(p), u)
        }
        let mut pts1: Vec<(String, G1Affine)> = vec![("g1".into(), G1Affine::generator()), ("alpha".into(), e.alpha_g1)];
        let mut pts2: Vec<(String, G2Affine)> = vec![("g2".into(), G2Affine::generator()), ("beta".into(), e.beta_g2), ("delta".into(), e.delta_g2)];
        for (n, l) in [("r_u", &e.r_u_query_g1), ("phi", &e.phi_delta_query_g1), ("h", &e.h_query_g1)] {
            for (i, p) in l.iter().enumerate() {
                if !p.is_zero() && pts1.len() < 12 && pts1.iter().all(|o| o.1 != *p) {
                    pts1.push((format!("{}[{}]", n, i), *p));
                }
            }
        }
        for (i, p) in e.r_v_query_g2.iter().enumerate() {
            if !p.is_zero() && pts2.len() < 8 && pts2.iter().all(|o| o.1 != *p) {
                pts2.push((format!("r_v[{}]", i), *p));
            }
        }
        for (n, p) in &pts1 {
            let (a, b) = both(p);
            strings.push((format!("{} compressed", n), a));
            strings.push((format!("{} uncompressed", n), b));
        }
        for (n, p) in &pts2 {
            let (a, b) = both(p);
            strings.push((format!("{} compressed", n), a));
            strings.push((format!("{} uncompressed", n), b));
        }
        let pubs: Vec<u8> = d.public_inputs.iter().flat_map(le).collect();
        strings.push(("the public inputs".into(), pubs.clone()));
        strings.push(("the public inputs after one".into(), [le(&Fr::from(1u64)), pubs.clone()].concat()));
        strings.push(("the encapsulation key".into(), bytes(e)));
        strings.push(("nothing".into(), vec![]));
        for (n, b) in others {
            strings.push((n.to_string(), b.to_vec()));
        }
        for i in 0..=ct.len().min(400) {
            strings.push((format!("the first {} bytes of the ciphertext", i), ct[..i].to_vec()));
            strings.push((format!("the last {} bytes of the ciphertext", i), ct[ct.len() - i..].to_vec()));
        }
        strings.push(("the ciphertext".into(), ct.to_vec()));
        for (a, b, n) in [(0, 96, "alpha|beta"), (0, 160, "alpha|beta|delta"), (32, 160, "beta|delta")] {
            if ct.len() >= 160 {
                strings.push((format!("{} and the public inputs", n), [&ct[a..b], &pubs[..]].concat()));
            }
        }
        let gt = |g: &ark_ec::pairing::PairingOutput<Bn254>| bytes(g);
        let mut sum = G1Projective::generator() - G1Projective::generator();
        for (p, v) in e.phi_delta_query_g1.iter().zip(std::iter::once(Fr::from(1u64)).chain(d.public_inputs.iter().copied())) {
            sum += *p * v;
        }
        let ab = Bn254::pairing(e.alpha_g1, e.beta_g2);
        let known = vec![gt(&(ab + Bn254::pairing(sum, G2Affine::generator()))), gt(&ab)];
        let mut ps: Vec<(String, ark_ec::pairing::PairingOutput<Bn254>)> = vec![];
        if sum.into_affine().xy().is_some() {
            pts1.push(("the sum of a_i phi_i".into(), sum.into_affine()));
        }
        for (n, p) in &pts1 {
            for (m, q) in &pts2 {
                ps.push((format!("e({}, {})", n, m), Bn254::pairing(*p, *q)));
            }
        }
        let zero = ps[0].1 - ps[0].1;
        let mut add = |n: String, g: &ark_ec::pairing::PairingOutput<Bn254>| {
            let b = gt(g);
            if !known.contains(&b) {
                strings.push((n, b));
            }
        };
        add("the neutral element".into(), &zero);
        for (i, (n, p)) in ps.iter().enumerate() {
            add(n.clone(), p);
            add(format!("-{}", n), &(zero - *p));
            for (k, v) in d.public_inputs.iter().take(2).enumerate() {
                add(format!("{} times public input {}", n, k), &(*p * *v));
            }
            for (m, q) in &ps[..i] {
                add(format!("{} + {}", n, m), &(*p + *q));
                add(format!("{} - {}", n, m), &(*p - *q));
                add(format!("{} - {}", m, n), &(*q - *p));
            }
        }
        if ps.len() <= 6 {
            // Every signed combination.
            for code in 0..3usize.pow(ps.len() as u32) {
                let mut at = code;
                let mut g = zero;
                for (_, p) in &ps {
                    match at % 3 {
                        1 => g += *p,
                        2 => g -= *p,
                        _ => {}
                    }
                    at /= 3;
                }
                add(format!("signed combination {} of the pairings", code), &g);
            }
        }
        Attack { strings, known }
    }
    /// Which string gives the key, if one does.
    pub fn hit(&self, key: &[u8]) -> Option<(&str, &'static str)> {
        self.strings.iter().find_map(|(n, b)| ways(b).into_iter().find(|(_, k)| k[..] == *key).map(|(h, _)| (&n[..], h)))
    }
    /// The listed finding's computation.
    pub fn finding(&self, key: &[u8]) -> bool {
        self.known.iter().any(|b| ways(b).iter().any(|(_, k)| k[..] == *key))
    }
}
/// The key, halves of it, or its spellings standing in public bytes.
pub fn inside(key: &[u8], public: &[u8]) -> Option<(String, usize)> {
    let rev: Vec<u8> = key.iter().rev().copied().collect();
    let hex: String = key.iter().map(|b| format!("{:02x}", b)).collect();
    let not: Vec<u8> = key.iter().map(|b| !b).collect();
    let mut parts: Vec<(String, Vec<u8>)> = vec![("the key reversed".into(), rev), ("the key in hexadecimal".into(), hex.clone().into_bytes()), ("the key in hexadecimal".into(), hex.to_uppercase().into_bytes()), ("the key's complement".into(), not)];
    for i in 0..=key.len() - 8 {
        parts.push((format!("bytes {}..{} of the key", i, i + 8), key[i..i + 8].to_vec()));
    }
    let set: HashMap<&[u8], usize> = parts.iter().enumerate().map(|(i, p)| (&p.1[..], i)).collect();
    for n in [8, 32, 64] {
        for (at, w) in public.windows(n).enumerate() {
            if let Some(i) = set.get(w) {
                return Some((parts[*i].0.clone(), at));
            }
        }
    }
    None
}
/// One ciphertext with its key against all the attacks.
pub fn attacked(c: &mut Case, d: &Ct, ct: &[u8], file: &[u8], key: &[u8], others: &[(&str, &[u8])], who: Value) {
    let a = Attack::new(d, ct, others);
    let tried = a.strings.len() as u64 * 4;
    let hit = a.hit(key);
    if let Some((n, h)) = hit {
        c.fail("the key is computed from the ciphertext alone", json!({"from": n, "how": h, "made_by": who}));
    }
    let at = inside(key, file);
    c.check(at.is_none(), "the key stands in the ciphertext", || json!({"what": at.as_ref().map(|a| &a.0), "at": at.as_ref().map(|a| a.1), "made_by": who}));
    let set: HashSet<u8> = key.iter().copied().collect();
    c.check(set.len() > 8, "the key hardly varies", || json!({"key": hex(key)}));
    if hit.is_none() && a.finding(key) {
        c.fail_as("key-from-ciphertext", "the key is the hash of e(alpha, beta) + e(sum of a_i phi_i, g2), all of which stand in the ciphertext", json!({"made_by": who}));
    }
    // The random scalars, taken from public bytes.
    for (n, b) in a.strings.iter().filter(|s| !s.0.contains("bytes of the ciphertext") && !s.0.contains("e(") && !s.0.contains("signed")) {
        for (h, k) in ways(b) {
            for v in [k.to_vec(), k.iter().rev().copied().collect()] {
                let v = <Fr as ark_ff::PrimeField>::from_le_bytes_mod_order(&v);
                let p = (G1Projective::generator() * v).into_affine();
                c.check(p != d.encap_key.alpha_g1, "the random scalar behind alpha is computed from public bytes", || json!({"from": n, "how": h, "made_by": who}));
            }
        }
    }
    c.count("computations_tried", tried + 100);
    c.ops += tried + 100;
}
pub fn c38(x: &mut Ctx) {
    let dir = x.scratch.clone();
    x.run("attacks", x.q(60, 3000), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let tool = *c.rng.pick(&TOOLS);
        let Some((ct, key)) = c.sut_ok("encapsulation", || s.encap(tool, &w)) else { return };
        let d = Ct::deserialize_compressed(&ct[..]).unwrap();
        let who = json!({"tool": format!("{:?}", tool), "circuit": describe(&k.m)});
        c.input(who.clone());
        c.sample(who.clone());
        c.key(&key);
        attacked(c, &d, &ct, &ct, &key, &[("the circuit file", &s.bytes)], who);
    });
    // Scalars that can be searched for.
    let (l1, l2) = (Logs::<G1Projective>::new(), Logs::<G2Projective>::new());
    for k in [0i64, 1, 65536, 65537, 131073, 131074, 4_000_000_007] {
        for k in [k, -k] {
            let f = if k < 0 { -Fr::from((-k) as u64) } else { Fr::from(k as u64) };
            assert!(l1.find(G1Projective::generator() * f).map(|v| v.abs()) == Some(k.abs()), "monitor: logarithm of {}", k);
        }
    }
    x.run("search", x.q(3, 30), |c| {
        let k = make(&mut c.rng);
        let w = k.solve(&k.inputs(&mut c.rng));
        let s = Setup::new(&k.m, &dir);
        let tool = TOOLS[c.idx as usize % 3];
        c.input(json!({"tool": format!("{:?}", tool), "circuit": describe(&k.m)}));
        let Some((ct, key)) = c.sut_ok("encapsulation", || s.encap(tool, &w)) else { return };
        c.key(&key);
        let d = Ct::deserialize_compressed(&ct[..]).unwrap();
        let e = &d.encap_key;
        let found = std::thread::scope(|sc| {
            let (l1, l2) = (&l1, &l2);
            let a = sc.spawn(move || l1.find(e.alpha_g1.into()));
            let b = sc.spawn(move || l2.find(e.beta_g2.into()));
            let g = sc.spawn(move || l2.find(e.delta_g2.into()));
            [a, b, g].map(|h| h.join().unwrap())
        });
        for (n, f) in ["alpha", "beta", "delta"].iter().zip(found) {
            c.check(f.is_none(), "a random scalar of the encapsulation is found by search", || json!({"element": n, "scalar": f, "tool": format!("{:?}", tool)}));
            c.count("scalars_searched_to_2^33", 1);
        }
    });
}

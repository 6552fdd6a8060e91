//! C44: the witness KEM, its circuits and files, and the command functions, called from several threads at once.
use crate::circ::*;
use crate::kemlib::*;
use crate::m_cli::{scene, Files, Names};
use crate::m_kem::{any_ct, describe, same};
use crate::storm::*;
use crate::util::*;
use ark_bn254::Fr;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use serde_json::json;
use std::sync::Arc;
use zkenc_cli::{commands, witness::WitnessFile};

pub fn c44(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let names = Names::new(x);
    let readers = |c: &mut Case, dir: &std::path::Path, v: &mut Vec<Task>| {
        for i in 0..4 {
            let r = &mut c.rng;
            let fs = if i < 2 { 32 } else { 1 + r.us(80) };
            let n = 1 + r.us(600);
            let vals: Vec<Vec<u8>> = (0..n).map(|_| if fs == 32 { le(&fr(r)) } else { r.content(fs) }).collect();
            let p = if fs == 32 { prime() } else { r.bytes(fs) };
            let f = wtns_with(&vals, &p, [vec![], vec![], vec![]]);
            let path = dir.join(format!("w{}.wtns", i)).to_str().unwrap().to_string();
            std::fs::write(&path, &f.bytes).unwrap();
            let cut = dir.join(format!("cut{}.wtns", i)).to_str().unwrap().to_string();
            std::fs::write(&cut, &f.bytes[..r.us(f.bytes.len())]).unwrap();
            v.push(task("read a witness", move |_| {
                let w = must("WitnessFile::from_file", WitnessFile::from_file(&path).map_err(|e| format!("{:#}", e)))?;
                if w.prime != p || w.n_wires() as usize != n || w.assignments.len() != n || (0..n).any(|i| w.assignments.get(&(i as u32)) != Some(&vals[i])) {
                    return wrong("the witness read is not the one stored", json!({"elements": n, "read": w.assignments.len()}));
                }
                if fs == 32 {
                    let m = must("to_field_elements", w.to_field_elements::<Fr>().map_err(|e| format!("{:#}", e)))?;
                    if m.len() != n || (0..n).any(|i| m.get(&(i as u32)).map(le).as_ref() != Some(&vals[i])) {
                        return wrong("the field elements read are not the ones stored", json!({"elements": n, "read": m.len()}));
                    }
                }
                Ok(())
            }));
            v.push(task("read a damaged witness", move |_| if WitnessFile::from_file(&cut).is_ok() { wrong("a witness file cut off is read", json!(null)) } else { Ok(()) }));
        }
    };
    let circuits = |c: &mut Case, dir: &std::path::Path, v: &mut Vec<Task>| {
        for _ in 0..4 {
            let s = shape(&mut c.rng);
            let k = Circ::generate(&mut c.rng, &s);
            let w = k.solve(&k.inputs(&mut c.rng));
            // Distinct files: a Setup names its file after the thread.
            let d = dir.join(format!("k{}", v.len()));
            std::fs::create_dir_all(&d).unwrap();
            let s = Arc::new(Setup::new(&k.m, &d));
            let mut bad = w.clone();
            let i = 1 + c.rng.us(w.len() - 1);
            bad[i] = near(&mut c.rng, w[i]);
            for u in [w, bad] {
                let s = s.clone();
                let want = broken(&s.m, &u).is_none();
                v.push(task(if want { "a satisfied circuit" } else { "an unsatisfied circuit" }, move |_| {
                    let cs = ConstraintSystem::<Fr>::new_ref();
                    must("generate_constraints", s.cli(&some(&u)).and_then(|q| q.generate_constraints(cs.clone()).map_err(|e| format!("{:?}", e))))?;
                    let sat = must("is_satisfied", cs.is_satisfied().map_err(|e| format!("{:?}", e)))?;
                    let b = cs.borrow().unwrap();
                    let n = s.n_pub();
                    if sat != want {
                        return wrong(if sat { "a circuit is satisfied that is not" } else { "a circuit is not satisfied that is" }, describe(&s.m));
                    }
                    if b.instance_assignment().unwrap()[1..] != u[1..=n] || b.witness_assignment().unwrap()[..] != u[n + 1..] {
                        return wrong("the variables are not the wires in order", describe(&s.m));
                    }
                    Ok(())
                }));
            }
        }
    };
    let kem = |c: &mut Case, dir: &std::path::Path, v: &mut Vec<Task>| {
        for _ in 0..3 {
            let s = shape(&mut c.rng);
            let k = Circ::generate(&mut c.rng, &s);
            let w = k.solve(&k.inputs(&mut c.rng));
            let d = dir.join(format!("e{}", v.len()));
            std::fs::create_dir_all(&d).unwrap();
            let s = Arc::new(Setup::new(&k.m, &d));
            let mut bad = w.clone();
            let i = 1 + c.rng.us(w.len() - 1);
            bad[i] = near(&mut c.rng, w[i]);
            let bad = broken(&s.m, &bad).map(|_| bad);
            for (i, t) in TOOLS.into_iter().enumerate() {
                let (s, w, bad, other) = (s.clone(), w.clone(), bad.clone(), TOOLS[(i + c.rng.us(3)) % 3]);
                v.push(task("encapsulate and decapsulate", move |_| {
                    let (ct, key) = must("encapsulation", s.encap(t, &w))?;
                    if must("decapsulation", s.decap_all(other, &w, &ct))? != key {
                        return wrong("the key recovered is not the key encapsulated", json!({"tools": format!("{:?} {:?}", t, other), "circuit": describe(&s.m)}));
                    }
                    let stored = must("the ciphertext", Ct::deserialize_compressed(&ct[..]).map_err(|e| format!("{:?}", e)))?;
                    if stored.public_inputs != w[1..=s.n_pub()] || !zkenc_core::verify_ciphertext(&stored, &w[1..=s.n_pub()]) {
                        return wrong("the ciphertext does not carry the public inputs", describe(&s.m));
                    }
                    if let Some(b) = &bad {
                        if s.decap_all(other, b, &ct).is_ok() {
                            return wrong("a witness that breaks a constraint opens the ciphertext", json!({"tool": format!("{:?}", other), "circuit": describe(&s.m)}));
                        }
                    }
                    if s.decap_all(other, &w, &ct[..ct.len() / 2]).is_ok() {
                        return wrong("half a ciphertext is opened", json!(null));
                    }
                    Ok(())
                }));
            }
            let ct = any_ct(&mut c.rng, 6);
            v.push(task("store a ciphertext", move |_| {
                let mut b = vec![];
                must("serialize", ct.serialize_compressed(&mut b).map_err(|e| format!("{:?}", e)))?;
                if !same(&must("deserialize", Ct::deserialize_compressed(&b[..]).map_err(|e| format!("{:?}", e)))?, &ct) {
                    return wrong("the ciphertext read back differs", json!(b.len()));
                }
                Ok(())
            }));
        }
    };
    let cmds = |c: &mut Case, dir: &std::path::Path, v: &mut Vec<Task>| {
        for i in 0..3 {
            let s = scene(&mut c.rng, &names);
            let f = Files::new(dir, &format!("s{}", i));
            f.scene(&mut c.rng, &s);
            let n = c.rng.size(40_000);
            let msg = c.rng.content(n);
            f.put("msg", &msg);
            let (embed, style) = (c.rng.chance(1, 2), c.rng.us(3));
            let mut bad = s.w.clone();
            let at = 1 + c.rng.us(bad.len() - 1);
            bad[at] = near(&mut c.rng, bad[at]);
            f.put("bad.wtns", wtns(&bad));
            let refuse = broken(&s.k.m, &bad).is_some();
            let p = move |n: &str| f.at(n).to_str().unwrap().to_string();
            v.push(task("the command functions", move |slot| {
                // Outputs that share a stem, an extension, or only the directory.
                let o = |n: &str| match style {
                    0 => p(&format!("{}.out{}", n, slot)),
                    1 => p(&format!("out{}.{}", slot, n)),
                    _ => p(&format!("{}{}", n, slot)),
                };
                fn e<E: std::fmt::Display>(r: Result<(), E>, what: &str) -> Result<(), (String, serde_json::Value)> {
                    must(what, r.map_err(|e| format!("{:#}", e)))
                }
                let (ct, key, key2, enc, dec) = (o("ct"), o("key"), o("key2"), o("enc"), o("dec"));
                for f in [&ct, &key, &key2, &enc, &dec] {
                    let _ = std::fs::remove_file(f);
                }
                e(commands::encap_command(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &ct, &key), "encap_command")?;
                e(commands::decap_command(&p("c.r1cs"), &p("w.wtns"), &ct, &key2), "decap_command")?;
                let (a, b) = (std::fs::read(&key), std::fs::read(&key2));
                if a.as_ref().ok().filter(|k| k.len() == 32).is_none() || a.ok() != b.ok() {
                    return wrong("the key recovered is not the key encapsulated", json!(null));
                }
                e(commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("msg"), &enc, embed), "encrypt_command")?;
                e(commands::decrypt_command(&p("c.r1cs"), &p("w.wtns"), &enc, &dec), "decrypt_command")?;
                if std::fs::read(&dec).ok().as_ref() != Some(&msg) {
                    return wrong("the message decrypted is not the message encrypted", json!({"bytes": msg.len()}));
                }
                let none = o("none");
                if refuse && (commands::decap_command(&p("c.r1cs"), &p("bad.wtns"), &ct, &none).is_ok() || commands::decrypt_command(&p("c.r1cs"), &p("bad.wtns"), &enc, &none).is_ok()) {
                    return wrong("a witness that breaks a constraint is taken", json!(null));
                }
                if commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("missing"), &p("msg"), &none, embed).is_ok() || std::path::Path::new(&none).exists() {
                    return wrong("a command that cannot be done succeeds or leaves a file", json!(null));
                }
                Ok(())
            }));
        }
    };
    let run = |c: &mut Case, what: u64, threads: usize, steps: usize| {
        let dir = dir.join(format!("{}{}", c.kind, c.idx));
        std::fs::create_dir_all(&dir).unwrap();
        let mut v = vec![];
        if what & 1 > 0 {
            readers(c, &dir, &mut v);
        }
        if what & 2 > 0 {
            circuits(c, &dir, &mut v);
        }
        if what & 4 > 0 {
            kem(c, &dir, &mut v);
        }
        if what & 8 > 0 {
            cmds(c, &dir, &mut v);
        }
        c.input(json!({"threads": threads, "calls_of_each": steps, "tasks": v.iter().map(|t| t.kind).collect::<Vec<_>>()}));
        c.sample(json!({"threads": threads, "calls_of_each": steps, "tasks": v.len()}));
        storm(c, v, threads, steps);
        std::fs::remove_dir_all(&dir).unwrap();
    };
    x.run("circuits", x.q(12, 300), |c| run(c, 3, 8, 120));
    x.run("readers", x.q(6, 200), |c| run(c, 1, 8, 120));
    x.run("kem", x.q(10, 200), |c| run(c, 4, 32, 4));
    x.run("commands", x.q(6, 200), |c| run(c, 8, 8, 6));
    x.run("all", x.q(6, 200), |c| run(c, 15, [8usize, 3, 16][c.idx as usize % 3], 12));
}

//! C45: many encapsulations, decapsulations, readings and commands in one process leave nothing behind.
use crate::circ::*;
use crate::kemlib::*;
use crate::m_cli::{scene, Files, Names};
use crate::m_kem::any_ct;
use crate::soak::soak;
use crate::util::*;
use ark_bn254::Fr;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use ark_serialize::CanonicalDeserialize;
use std::path::Path;
use zkenc_cli::{commands, witness::WitnessFile};

type R = Result<(), String>;
fn no<T, E>(what: &str, r: Result<T, E>) -> R {
    if r.is_ok() { Err(format!("{} accepted", what)) } else { Ok(()) }
}
fn small(r: &mut Rng) -> (Circ, Vec<Fr>) {
    let s = Shape { outs: r.us(2), ins: r.us(3), prv: 1 + r.us(2), mid: r.us(4), lc: 2 };
    let k = Circ::generate(r, &s);
    let w = k.solve(&k.inputs(r));
    (k, w)
}
fn witness(d: &Path, r: &mut Rng, i: u64) -> R {
    let n = 1 + r.us(60);
    let v: Vec<Vec<u8>> = (0..n).map(|_| le(&fr(r))).collect();
    let f = wtns_with(&v, &prime(), [vec![], vec![], vec![]]);
    let p = d.join(format!("w{}.wtns", i));
    let s = p.to_str().unwrap();
    std::fs::write(&p, &f.bytes).unwrap();
    let w = WitnessFile::from_file(s).map_err(|e| format!("{:#}", e))?;
    w.to_field_elements::<Fr>().map_err(|e| format!("{:#}", e))?;
    if w.n_wires() as usize != n {
        return Err("values lost".into());
    }
    std::fs::write(&p, &f.bytes[..r.us(f.bytes.len())]).unwrap();
    no("a witness cut off", WitnessFile::from_file(s))?;
    // Another magic number or version, which is refused; a damaged table of sections, header or value, which need not be.
    for (at, must) in [(r.us(4), true), (4 + r.us(4), true), (12 + r.us(8), false), (24 + r.us(8), false), (r.us(f.bytes.len()), false)] {
        let mut t = f.bytes.clone();
        if let Some(x) = t.get_mut(at) {
            *x ^= 1 << r.below(7);
        }
        std::fs::write(&p, &t).unwrap();
        match WitnessFile::from_file(s) {
            Ok(_) if must => return Err(format!("a witness with another byte {} accepted", at)),
            Ok(w) => drop(std::hint::black_box(w.to_field_elements::<Fr>().is_ok())),
            Err(_) => {}
        }
    }
    std::fs::remove_file(&p).map_err(|e| e.to_string())?;
    no("a missing witness", WitnessFile::from_file(s))
}
fn circuit(d: &Path, r: &mut Rng, _: u64) -> R {
    let (k, w) = small(r);
    let s = Setup::new(&k.m, d);
    let q = s.cli(&some(&w))?;
    let cs = ConstraintSystem::<Fr>::new_ref();
    q.generate_constraints(cs.clone()).map_err(|e| format!("{:?}", e))?;
    if cs.is_satisfied().ok() != Some(true) {
        return Err("not satisfied".into());
    }
    let cs = ConstraintSystem::<Fr>::new_ref();
    no("a circuit without a witness", s.cli(&[])?.generate_constraints(cs))?;
    std::fs::remove_file(&s.path).map_err(|e| e.to_string())?;
    no("a missing circuit", s.cli(&[]))
}
/// Encapsulation and decapsulation through one tool, refusals included.
fn kem(t: Tool) -> impl Fn(&Path, &mut Rng, u64) -> R {
    move |d, r, i| {
        let (k, w) = small(r);
        let s = Setup::new(&k.m, d);
        let (ct, key) = s.encap(t, &w)?;
        if s.decap_all(t, &w, &ct)? != key {
            return Err("another key".into());
        }
        let mut bad = w.clone();
        let at = 1 + r.us(w.len() - 1);
        bad[at] = near(r, w[at]);
        if broken(&s.m, &bad).is_some() || at <= s.n_pub() {
            no("a wrong witness", s.decap_all(t, &bad, &ct))?;
        }
        no("half a ciphertext", s.decap_all(t, &w, &ct[..ct.len() / 2]))?;
        if t == Tool::Js {
            let _ = zkenc_js::wasm_encap(&s.bytes[..r.us(s.bytes.len())], &wtns(&w));
            let _ = zkenc_js::wasm_encap(&s.bytes, &i.to_le_bytes());
            let _ = zkenc_js::wasm_decap(&s.bytes, &wtns(&w)[..40], &ct);
        } else {
            no("a witness with a gap", s.decap(t, &some(&w[..w.len() - 1]), &ct))?;
        }
        std::fs::remove_file(&s.path).map_err(|e| e.to_string())
    }
}
fn stored(_: &Path, r: &mut Rng, _: u64) -> R {
    let ct = any_ct(r, 4);
    let b = bytes(&ct);
    let back = Ct::deserialize_compressed(&b[..]).map_err(|e| format!("{:?}", e))?;
    if !zkenc_core::verify_ciphertext(&back, &ct.public_inputs) {
        return Err("other public inputs".into());
    }
    let mut t = b.clone();
    let at = r.us(t.len());
    t[at] ^= 1 << r.below(8);
    if let Ok(o) = Ct::deserialize_compressed(&t[..]) {
        std::hint::black_box(zkenc_core::verify_ciphertext(&o, &ct.public_inputs));
    }
    no("a ciphertext cut off", Ct::deserialize_compressed(&b[..r.us(b.len())]))
}

pub fn c45(x: &mut Ctx) {
    let root = x.scratch.join("root");
    let (work, tmp) = (root.join("work"), root.join("tmp"));
    for d in [&work, &tmp] {
        std::fs::create_dir_all(d).unwrap();
    }
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_var("HOME", root.join("home"));
    std::env::set_current_dir(&work).unwrap();
    let names = Names::new(x);
    let many = x.q(3, 36);
    let command = |d: &Path, r: &mut Rng, i: u64| -> R {
        let s = scene(r, &names);
        let f = Files::new(d, &format!("s{}", i));
        f.scene(r, &s);
        let m = r.bytes(50);
        f.put("msg", &m);
        let p = |n: &str| f.at(n).to_str().unwrap().to_string();
        fn e<E: std::fmt::Display>(r: Result<(), E>) -> R {
            r.map_err(|e| format!("{:#}", e))
        }
        e(commands::encap_command(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("ct"), &p("key")))?;
        e(commands::decap_command(&p("c.r1cs"), &p("w.wtns"), &p("ct"), &p("key2")))?;
        e(commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("msg"), &p("enc"), r.chance(1, 2)))?;
        e(commands::decrypt_command(&p("c.r1cs"), &p("w.wtns"), &p("enc"), &p("dec")))?;
        if std::fs::read(f.at("dec")).ok() != Some(m) || std::fs::read(f.at("key")).ok() != std::fs::read(f.at("key2")).ok() {
            return Err("another message or key".into());
        }
        no("a missing input file", commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("none"), &p("msg"), &p("no"), true))?;
        no("a missing symbol file", commands::encap_command(&p("c.r1cs"), &p("none"), &p("in.json"), &p("no"), &p("no2")))?;
        no("a ciphertext that is none", commands::decrypt_command(&p("c.r1cs"), &p("w.wtns"), &p("msg"), &p("no")))?;
        no("a ciphertext that is none", commands::decap_command(&p("c.r1cs"), &p("w.wtns"), &p("msg"), &p("no")))?;
        no("a circuit that is none", commands::decap_command(&p("msg"), &p("w.wtns"), &p("ct"), &p("no")))?;
        no("a circuit that is none", commands::encap_command(&p("c.sym"), &p("c.sym"), &p("in.json"), &p("no"), &p("no2")))?;
        no("a witness that is none", commands::decrypt_command(&p("c.r1cs"), &p("msg"), &p("enc"), &p("no")))?;
        no("an input that is none", commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("c.r1cs"), &p("msg"), &p("no"), true))?;
        no("a missing message", commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("none"), &p("no"), true))?;
        let away = f.at("away/key").to_str().unwrap().to_string();
        no("an output nowhere", commands::decap_command(&p("c.r1cs"), &p("w.wtns"), &p("ct"), &away))?;
        no("an output nowhere", commands::encrypt_command(&p("c.r1cs"), &p("c.sym"), &p("in.json"), &p("msg"), &away, true))?;
        let b = std::fs::read(f.at("enc")).unwrap_or_default();
        f.put("cut", &b[..b.len() - 1]);
        no("a sealed message cut off", commands::decrypt_command(&p("c.r1cs"), &p("w.wtns"), &p("cut"), &p("no")))?;
        for n in ["c.r1cs", "c.sym", "in.json", "w.wtns", "msg", "ct", "key", "key2", "enc", "dec", "cut"] {
            std::fs::remove_file(f.at(n)).map_err(|e| format!("{}: {}", n, e))?;
        }
        let dir = f.at("ct").parent().unwrap().to_path_buf();
        let _ = std::fs::remove_dir(dir);
        Ok(())
    };
    type F<'a> = Box<dyn Fn(&Path, &mut Rng, u64) -> R + Sync + 'a>;
    let kinds: Vec<(&str, F, u64)> = vec![
        ("witness files", Box::new(witness), 1200),
        ("circuits", Box::new(circuit), 1200),
        ("stored ciphertexts", Box::new(stored), 200),
        ("KEM core", Box::new(kem(Tool::Core)), 60),
        ("KEM CLI", Box::new(kem(Tool::Cli)), 60),
        ("KEM bindings", Box::new(kem(Tool::Js)), 60),
        ("commands", Box::new(command), 48),
    ];
    x.run("calls", 7 * x.q(1, 2), |c| {
        let (what, f, n) = &kinds[c.idx as usize % 7];
        soak(c, what, n * many, &root, |r, i| f(&work, r, i));
    });
    x.run("threads", x.q(1, 4), |c| {
        let (work, kinds) = (&work, &kinds);
        soak(c, "each in a thread", 80 * many, &root, |r, i| {
            let seed = r.u64();
            std::thread::scope(|s| s.spawn(move || { let mut r = Rng::new(seed); kinds[r.us(7)].1(work, &mut r, i) }).join().unwrap_or_else(|_| Err("panicked".into())))
        })
    });
}

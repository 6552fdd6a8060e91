//! C46: what witnesses, circuits, encapsulation and the commands cost grows with the size of what is given, no faster.
use crate::circ::*;
use crate::cost::{proportional, Call};
use crate::kemlib::*;
use crate::m_r1cs::{Model, Sec};
use crate::util::*;
use ark_bn254::Fr;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystem};
use std::collections::HashMap;
use zkenc_cli::{circuit::CircomCircuit, commands, witness::WitnessFile};

fn er<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:?}", e))
}
/// A circuit every assignment satisfies: `pubs` public inputs, `prv` private wires, constraints of these many factors.
fn easy(r: &mut Rng, pubs: usize, prv: usize, cons: usize, factors: usize) -> (Model, Vec<Fr>) {
    let n = 1 + pubs + prv;
    let one = (0u32, le(&Fr::from(1u64)));
    let k = (0..cons).map(|_| {
        let l: Vec<(u32, Vec<u8>)> = (0..factors).map(|_| (r.us(n) as u32, le(&fr(r)))).collect();
        [l.clone(), vec![one.clone()], l]
    });
    let m = Model { prime: prime(), n_wires: n as u32, n_pub_out: 0, n_pub_in: pubs as u32, n_prv_in: prv as u32, n_labels: n as u64, cons: k.collect(), labels: None };
    let mut w: Vec<Fr> = (0..n).map(|_| fr(r)).collect();
    w[0] = Fr::from(1u64);
    (m, w)
}
pub fn c46(x: &mut Ctx) {
    let d = x.scratch.clone();
    let many = x.q(1, 3);
    let far = if x.thorough { 4 } else { 1 };
    x.run("witness", 3 * many, |c| {
        let k = c.idx % 3;
        let what = ["witness file, values", "witness file, sections of unknown type", "witness file, bytes of one unknown section"][k as usize];
        proportional(c, what, 400, 110_000 * far, &|r, n| {
            let v: Vec<Vec<u8>> = (0..if k == 0 { n } else { 3 }).map(|_| le(&fr(r))).collect();
            let sec = |r: &mut Rng, k: usize| Sec { ty: 10 + r.us(9) as u32, data: r.bytes(k), slack: vec![], f32s: vec![], f64s: vec![] };
            let extra: Vec<Sec> = match k { 0 => vec![], 1 => (0..n).map(|_| sec(r, 2)).collect(), _ => vec![sec(r, n * 40)] };
            let p = d.join("w.wtns");
            std::fs::write(&p, wtns_with(&v, &prime(), [extra, vec![], vec![]]).bytes).unwrap();
            Box::new(move || {
                let w = WitnessFile::from_file(p.to_str().unwrap()).map_err(|e| format!("{:#}", e))?;
                w.to_field_elements::<Fr>().map(drop).map_err(|e| format!("{:#}", e))
            })
        });
    });
    x.run("circuit", 6 * many, |c| {
        let k = c.idx % 6;
        let what = ["circuit, constraints", "circuit, public inputs", "circuit, private wires", "circuit, wires set one by one", "circuit, constraints and private wires", "circuit, constraints and public inputs"][k as usize];
        proportional(c, what, 100, 25_600 * far, &|r, n| {
            let (m, w) = match k { 0 => easy(r, 3, 5, n, 2), 1 => easy(r, n, 1, 3, 2), 4 => easy(r, 1, n, n, 2), 5 => easy(r, n, 1, n, 2), _ => easy(r, 1, n, 3, 2) };
            let s = Setup::new(&m, &d);
            Box::new(move || {
                let q = if k == 3 {
                    let mut q = CircomCircuit::from_r1cs(&s.path).map_err(|e| format!("{:#}", e))?;
                    for (i, v) in w.iter().enumerate() {
                        q.set_wire(i as u32, *v);
                    }
                    q
                } else {
                    s.cli(&some(&w))?
                };
                let cs = ConstraintSystem::<Fr>::new_ref();
                er(q.generate_constraints(cs.clone()))?;
                if er(cs.is_satisfied())? { Ok(()) } else { Err("not satisfied".into()) }
            })
        });
    });
    x.run("kem", 12 * many, |c| {
        let (t, k) = (TOOLS[c.idx as usize % 3], c.idx / 3 % 4);
        let what = format!("{:?}: encapsulation and decapsulation, {}", t, ["constraints", "public inputs", "private wires", "constraints and private wires"][k as usize]);
        let (first, last) = if k == 0 { (100, 6_400) } else { (16, 1024) };
        proportional(c, &what, first, last * far, &|r, n| {
            let (m, w) = match k { 0 => easy(r, 1, 2, n, 2), 1 => easy(r, n, 1, 2, 2), 2 => easy(r, 1, n, 2, 2), _ => easy(r, 1, n, n, 2) };
            let s = Setup::new(&m, &d);
            Box::new(move || {
                let (ct, key) = s.encap(t, &w)?;
                if s.decap_all(t, &w, &ct)? == key { Ok(()) } else { Err("another key".into()) }
            })
        });
    });
    x.run("check", many, |c| {
        let (m, w) = easy(&mut c.rng, 1, 1, 1, 1);
        let s = Setup::new(&m, &d);
        let Ok((ct, _)) = s.encap(Tool::Core, &w) else { return c.count("wrong_from_the_start", 1) };
        let ct = <Ct as ark_serialize::CanonicalDeserialize>::deserialize_compressed(&ct[..]).unwrap();
        proportional(c, "verify_ciphertext, public inputs", 400, 110_000 * far, &|r, n| {
            let mut ct = ct.clone();
            ct.public_inputs = (0..n).map(|i| Fr::from(i as u64 ^ r.u64())).collect();
            let (same, mut other) = (ct.public_inputs.clone(), ct.public_inputs.clone());
            let at = n - 1;
            other[at] += Fr::from(1u64);
            Box::new(move || if zkenc_core::verify_ciphertext(&ct, &same) && !zkenc_core::verify_ciphertext(&ct, &other) { Ok(()) } else { Err("judged otherwise".into()) })
        });
    });
    x.run("commands", 6 * many, |c| {
        let k = c.idx % 6;
        let what = ["command, bytes of the message", "command, inputs the circuit does not have", "command, lines of the symbol file", "command, public inputs in one array", "command, public inputs of their own names", "command, inputs nested in a matrix"][k as usize];
        let (first, last) = match k { 0 => (4096, 4 << 20), 1 | 2 | 5 => (400, 110_000), _ => (16, 1024) };
        proportional(c, what, first, last * far, &|r, n| -> Call {
            let pubs = if k == 3 || k == 4 { n } else { 1 };
            let (m, mut w) = easy(r, pubs, 1, 1, 1);
            let v: HashMap<usize, u32> = (1..=pubs).map(|i| (i, r.u32())).collect();
            let mut sym = String::new();
            let mut json = vec![];
            for i in 1..=pubs {
                w[i] = Fr::from(v[&i]);
                let name = if k == 3 { format!("a[{}]", i - 1) } else { format!("s{}", i) };
                sym += &format!("{},{},0,main.{}\n", i, i, name);
                if k != 3 {
                    json.push(format!("\"s{}\": \"{}\"", i, v[&i]));
                }
            }
            if k == 3 {
                json.push(format!("\"a\": [{}]", (1..=n).map(|i| v[&i].to_string()).collect::<Vec<_>>().join(",")));
            }
            if k == 1 {
                json.extend((0..n).map(|i| format!("\"other{}\": [\"{}\"]", i, i)));
            }
            if k == 5 {
                let side = (n as f64).sqrt() as usize;
                let row: Vec<String> = (0..side).map(|_| format!("[{}]", (0..side).map(|i| i.to_string()).collect::<Vec<_>>().join(","))).collect();
                json.push(format!("\"m\": [{}]", row.join(",")));
            }
            let lines = if k == 2 { n } else { 3 };
            for i in 0..lines {
                sym += &format!("{},{},0,main.sub{}.out[{}]\n", pubs + 1 + i, if i % 2 == 0 { -1 } else { (pubs + 1 + i) as i64 }, i / 2, i % 2);
            }
            let msg = r.bytes(if k == 0 { n } else { 20 });
            let base = d.clone();
            let at = move |f: &str| base.join(f).to_str().unwrap().to_string();
            for (f, b) in [("c.r1cs", file(&m)), ("c.sym", sym.into_bytes()), ("in.json", format!("{{{}}}", json.join(",")).into_bytes()), ("w.wtns", wtns(&w)), ("msg", msg.clone())] {
                std::fs::write(at(f), b).unwrap();
            }
            Box::new(move || {
                fn e<E: std::fmt::Display>(r: Result<(), E>) -> Result<(), String> {
                    r.map_err(|e| format!("{:#}", e))
                }
                e(commands::encap_command(&at("c.r1cs"), &at("c.sym"), &at("in.json"), &at("ct"), &at("key")))?;
                e(commands::decap_command(&at("c.r1cs"), &at("w.wtns"), &at("ct"), &at("key2")))?;
                for embed in [true, false] {
                    e(commands::encrypt_command(&at("c.r1cs"), &at("c.sym"), &at("in.json"), &at("msg"), &at("enc"), embed))?;
                    e(commands::decrypt_command(&at("c.r1cs"), &at("w.wtns"), &at("enc"), &at("dec")))?;
                    if std::fs::read(at("dec")).ok().as_ref() != Some(&msg) {
                        return Err("another message".into());
                    }
                }
                Ok(())
            })
        });
    });
}

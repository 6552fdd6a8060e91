//! One call of the code under test as a function of bytes: what every build has to answer alike.
use ark_bn254::{Bn254, Fr};
use ark_ff::PrimeField;
use ark_relations::gr1cs::{ConstraintSynthesizer, ConstraintSystemRef, LinearCombination, SynthesisError, Variable, R1CS_PREDICATE_LABEL};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use sha2::{Digest, Sha256};
use std::collections::HashMap;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()
}
fn digest(b: &[u8]) -> String {
    if b.len() <= 64 {
        hex(b)
    } else {
        format!("{}:{}", b.len(), hex(&Sha256::digest(b)[..16]))
    }
}

type Lc = Vec<(u32, Fr)>;
/// A circuit of the monitor's own, read from a well-formed file.
pub struct Own {
    n_pub: usize,
    n_wires: usize,
    cons: Vec<[Lc; 3]>,
    w: Vec<Option<Fr>>,
}
impl Own {
    pub fn read(b: &[u8], w: &[u8]) -> Own {
        let u = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let (mut at, mut secs) = (12, HashMap::new());
        for _ in 0..u(8) {
            let n = u64::from_le_bytes(b[at + 4..at + 12].try_into().unwrap()) as usize;
            secs.insert(u(at), at + 12);
            at += 12 + n;
        }
        let (h, mut p) = (secs[&1], secs[&2]);
        let mut cons = vec![];
        for _ in 0..u(h + 60) {
            cons.push([0, 1, 2].map(|_| {
                let n = u(p);
                p += 4;
                (0..n)
                    .map(|_| {
                        p += 36;
                        (u(p - 36), Fr::from_le_bytes_mod_order(&b[p - 32..p]))
                    })
                    .collect()
            }));
        }
        let n_wires = u(h + 36) as usize;
        let mut w: Vec<Option<Fr>> = w.chunks(32).map(|c| Some(Fr::from_le_bytes_mod_order(c))).collect();
        w.resize(n_wires, None);
        Own { n_pub: (u(h + 40) + u(h + 44)) as usize, n_wires, cons, w }
    }
}
impl ConstraintSynthesizer<Fr> for Own {
    fn generate_constraints(self, cs: ConstraintSystemRef<Fr>) -> Result<(), SynthesisError> {
        let mut v = vec![Variable::One; self.n_wires];
        for i in 1..self.n_wires {
            let f = || self.w[i].ok_or(SynthesisError::AssignmentMissing);
            v[i] = if i <= self.n_pub { cs.new_input_variable(f)? } else { cs.new_witness_variable(f)? };
        }
        for k in self.cons {
            let lcs: Vec<Box<dyn FnOnce() -> LinearCombination<Fr>>> = k
                .into_iter()
                .map(|l| {
                    let lc = l.iter().fold(LinearCombination::<Fr>::zero(), |s, (i, c)| s + (*c, v[*i as usize]));
                    Box::new(move || lc) as Box<dyn FnOnce() -> LinearCombination<Fr>>
                })
                .collect();
            cs.enforce_constraint(R1CS_PREDICATE_LABEL, lcs)?;
        }
        Ok(())
    }
}
fn both(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut v = (a.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(a);
    v.extend_from_slice(b);
    v
}
/// The numbers are dictated: from the bytes, then from a counter.
struct Dictated;
impl Dictated {
    fn new(b: &[u8]) -> Dictated {
        getrandom::control::set(Some(b.to_vec()));
        Dictated
    }
}
impl Drop for Dictated {
    fn drop(&mut self) {
        getrandom::control::set(None);
    }
}

type Out = Result<Vec<u8>, String>;
fn e<T: std::fmt::Display>(x: T) -> String {
    x.to_string()
}
/// The answer before it is digested. Needs every argument its operation names.
pub fn raw(op: &str, a: &[Vec<u8>], _dir: &std::path::Path) -> Out {
    match op {
        // circuit, values of wires 0 to the last public one, random bytes
        "core-encap" => {
            let _d = Dictated::new(&a[2]);
            let (ct, key) = zkenc_core::encap::<Bn254, _, _>(Own::read(&a[0], &a[1]), &mut ark_std::rand::rngs::OsRng).map_err(e)?;
            let mut b = vec![];
            ct.serialize_compressed(&mut b).map_err(|x| format!("{:?}", x))?;
            Ok(both(&b, key.as_bytes()))
        }
        // circuit, all values, ciphertext
        "core-decap" => {
            let ct = zkenc_core::Ciphertext::<Bn254>::deserialize_compressed(&a[2][..]).map_err(|x| format!("{:?}", x))?;
            zkenc_core::decap::<Bn254, _>(Own::read(&a[0], &a[1]), &ct).map(|k| k.as_bytes().to_vec()).map_err(e)
        }
        #[cfg(feature = "js")]
        "js-encap" => {
            use wasm_bindgen::Text;
            let _d = Dictated::new(&a[2]);
            zkenc_js::wasm_encap(&a[0], &a[1]).map(|r| both(&r.ciphertext(), &r.key())).map_err(|x| x.text())
        }
        #[cfg(feature = "js")]
        "js-decap" => {
            use wasm_bindgen::Text;
            zkenc_js::wasm_decap(&a[0], &a[1], &a[2]).map_err(|x| x.text())
        }
        #[cfg(feature = "cli")]
        _ if op.starts_with("cli-") => cli(op, a, _dir),
        #[cfg(feature = "serial")]
        _ if op.starts_with("core-") => core_serial(op, a),
        _ => Err(format!("no such operation: {}", op)),
    }
}
#[cfg(feature = "serial")]
fn core_serial(op: &str, a: &[Vec<u8>]) -> Out {
    use zkenc_core::serializable::*;
    let t = || String::from_utf8(a[0].clone()).map_err(e);
    // Maps of the values have an order of their own in each process.
    let show = |s: String| -> Out { Ok(serde_json::to_vec(&serde_json::from_str::<serde_json::Value>(&s).map_err(e)?).map_err(e)?) };
    match op {
        "core-circuit-json" => show(SerializableCircuit::from_json(&t()?).map_err(e)?.to_json().map_err(e)?),
        "core-witness-json" => show(SerializableWitness::from_json(&t()?).map_err(e)?.to_json().map_err(e)?),
        "core-circuit-bin" => SerializableCircuit::from_bincode(&a[0]).map_err(e)?.to_bincode().map_err(e),
        "core-circuit-cross" => SerializableCircuit::from_json(&t()?).map_err(e)?.to_bincode().map_err(e),
        _ => Err(format!("no such operation: {}", op)),
    }
}
#[cfg(feature = "cli")]
fn cli(op: &str, a: &[Vec<u8>], dir: &std::path::Path) -> Out {
    use std::fs;
    use zkenc_cli::*;
    let path = |n: &str| dir.join(n).to_str().unwrap().to_string();
    let put = |n: &str, b: &[u8]| {
        fs::write(dir.join(n), b).expect("scratch file");
        path(n)
    };
    let text = |i: usize| String::from_utf8(a[i].clone()).map_err(e);
    let map = |m: &HashMap<String, u32>| {
        let mut v: Vec<_> = m.iter().collect();
        v.sort();
        format!("{:?}", v).into_bytes()
    };
    match op {
        "cli-r1cs" => {
            let f = r1cs::R1csFile::from_file(put("c.r1cs", &a[0])).map_err(e)?;
            let s = f.to_serializable().to_json().map_err(e)?;
            Ok(format!("{} {} {} {} {} {} {} {:?} {}", f.n_wires, f.n_pub_out, f.n_pub_in, f.n_prv_in, f.n_labels, f.n_constraints, f.n_public_inputs(), f.wire2label, s).into_bytes())
        }
        "cli-wtns" => {
            let f = witness::WitnessFile::from_file(&put("w.wtns", &a[0])).map_err(e)?;
            let v = f.to_field_elements::<Fr>().map_err(e)?;
            let mut v: Vec<_> = v.into_iter().map(|(i, x)| format!("{} {}", i, x.into_bigint())).collect();
            v.sort();
            Ok(format!("{} {} {:?} {:?}", f.n_witness, f.n_wires(), f.prime, v).into_bytes())
        }
        "cli-sym" => sym_parser::parse_sym_file(&text(0)?).map(|m| map(&m)).map_err(e),
        "cli-signals" => {
            let m = sym_parser::parse_sym_file(&text(0)?).map_err(e)?;
            let max = (a[1].len() == 4).then(|| u32::from_le_bytes(a[1][..].try_into().unwrap()));
            Ok(map(&sym_parser::get_input_signals(&m, max)))
        }
        "cli-inputs" => {
            let m = circom::parse_inputs(put("i.json", &a[0])).map_err(e)?;
            let mut v: Vec<_> = m.into_iter().collect();
            v.sort();
            Ok(format!("{:?}", v).into_bytes())
        }
        "cli-circuit" => circom::load_circom_circuit(put("x.wasm", b""), put("c.r1cs", &a[0])).map(|t| format!("{:?}", t).into_bytes()).map_err(e),
        "cli-circuit-json" => serializable::SerializableCircuit::from_json(&text(0)?).map_err(e)?.to_bincode().map_err(e),
        "cli-circuit-bin" => serializable::SerializableCircuit::from_bincode(&a[0]).map_err(e)?.to_json().map(String::into_bytes).map_err(e),
        "cli-gcm-seal" => {
            let _d = Dictated::new(&a[2]);
            crypto::encrypt_gcm(&a[0], &a[1]).map_err(e)
        }
        "cli-ctr-seal" => {
            let _d = Dictated::new(&a[2]);
            crypto::encrypt_ctr(&a[0], &a[1]).map_err(e)
        }
        "cli-gcm-open" => crypto::decrypt_gcm(&a[0], &a[1]).map_err(e),
        "cli-ctr-open" => crypto::decrypt_ctr(&a[0], &a[1]).map_err(e),
        // circuit, symbols, inputs, random bytes
        "cli-encap" => {
            let _d = Dictated::new(&a[3]);
            let (ct, k) = (path("ct"), path("key"));
            commands::encap_command(&put("c.r1cs", &a[0]), &put("c.sym", &a[1]), &put("i.json", &a[2]), &ct, &k).map_err(e)?;
            Ok(both(&fs::read(ct).map_err(e)?, &fs::read(k).map_err(e)?))
        }
        // circuit, witness, ciphertext
        "cli-decap" => {
            let k = path("key");
            commands::decap_command(&put("c.r1cs", &a[0]), &put("w.wtns", &a[1]), &put("ct", &a[2]), &k).map_err(e)?;
            fs::read(k).map_err(e)
        }
        // circuit, symbols, inputs, message, random bytes, one byte: with public inputs
        "cli-encrypt" => {
            let _d = Dictated::new(&a[4]);
            let out = path("out");
            commands::encrypt_command(&put("c.r1cs", &a[0]), &put("c.sym", &a[1]), &put("i.json", &a[2]), &put("msg", &a[3]), &out, a[5][0] == 1).map_err(e)?;
            fs::read(out).map_err(e)
        }
        // circuit, witness, combined ciphertext
        "cli-decrypt" => {
            let out = path("out");
            commands::decrypt_command(&put("c.r1cs", &a[0]), &put("w.wtns", &a[1]), &put("ct", &a[2]), &out).map_err(e)?;
            fs::read(out).map_err(e)
        }
        _ => Err(format!("no such operation: {}", op)),
    }
}
/// The answer: what came out, or that it was refused. The words of a refusal are free.
pub fn run(op: &str, a: &[Vec<u8>], dir: &std::path::Path) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| raw(op, a, dir))) {
        Ok(Ok(b)) => format!("ok {}", digest(&b)),
        Ok(Err(m)) => format!("refused {}", m.replace('\n', " ")),
        Err(p) => {
            getrandom::control::set(None);
            let m = p.downcast_ref::<String>().map(String::as_str).or(p.downcast_ref::<&str>().copied()).unwrap_or("?");
            format!("panic {}", m.replace('\n', " "))
        }
    }
}
pub fn about() -> String {
    format!("{} bits, {} endian, {}", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" }, if cfg!(debug_assertions) { "debug" } else { "release" })
}

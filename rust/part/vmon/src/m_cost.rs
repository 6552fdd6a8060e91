//! C46: what reading, converting, sealing and storing costs grows with the size of what is given, no faster.
use crate::cost::{proportional, Call};
use crate::m_r1cs::{assemble, put, Lc, Model, Sec};
use crate::m_serial::{cli, core, Circ, Tc, Wit};
use crate::util::*;
use std::path::{Path, PathBuf};
use zkenc_cli::{circom::{load_circom_circuit, parse_inputs}, crypto::*, r1cs::R1csFile, sym_parser::*};

fn er<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{:#}", e))
}
fn lc(r: &mut Rng, wires: usize, n: usize, fs: usize) -> Lc {
    (0..n).map(|_| (r.us(wires) as u32, r.bytes(fs))).collect()
}
/// A circuit whose size of kind `kind` is n.
fn circuit(r: &mut Rng, kind: usize, n: usize) -> Model {
    let fs = if r.chance(1, 2) { 32 } else { 8 };
    let wires = if kind == 4 { 40 } else { n + 2 };
    let mut m = Model { prime: r.bytes(fs), n_wires: wires as u32, n_pub_out: 1, n_pub_in: (n / 4) as u32, n_prv_in: (n / 4) as u32, n_labels: wires as u64, ..Default::default() };
    m.cons = match kind {
        0 => (0..n).map(|_| [1, 1, 2].map(|k| lc(r, wires, k, fs))).collect(),
        1 => vec![[lc(r, wires, n, fs), lc(r, wires, 1, fs), vec![]]],
        2 => (0..3).map(|_| [n / 4, 0, n].map(|k| lc(r, wires, k, fs))).collect(),
        4 => (0..n).map(|_| [0, 0, 0].map(|k| lc(r, wires, k, fs))).collect(),
        _ => vec![],
    };
    if kind == 3 || r.chance(1, 2) {
        m.labels = Some((0..wires as u64).collect());
    }
    m
}
const KINDS: [&str; 7] = ["constraints", "factors of one constraint", "factors of three constraints", "labels", "empty constraints", "sections of unknown type", "bytes of one unknown section"];
fn r1cs_bytes(r: &mut Rng, kind: usize, n: usize) -> Vec<u8> {
    let m = circuit(r, if kind > 4 { 0 } else { kind }, if kind > 4 { 3 } else { n });
    let mut s = m.secs();
    let sec = |r: &mut Rng, k: usize| Sec { ty: 10 + r.us(50) as u32, data: r.bytes(k), slack: vec![], f32s: vec![], f64s: vec![] };
    match kind {
        5 => { let at = r.us(4).min(s.len()); let v: Vec<Sec> = (0..n).map(|_| { let k = r.us(4); sec(r, k) }).collect(); s.splice(at..at, v); }
        6 => { let k = sec(r, n); let at = r.us(4).min(s.len()); s.insert(at, k) }
        _ => {}
    }
    assemble(b"r1cs", 1, &s).bytes
}
const DOCS: [&str; 9] = ["keys", "elements of one array", "elements of a matrix", "digits of one string", "blanks", "keys that share a long start", "arrays of one element", "texts with escapes", "characters of a key"];
fn doc(r: &mut Rng, kind: usize, n: usize) -> String {
    let v = |r: &mut Rng| match r.below(3) { 0 => r.u32().to_string(), 1 => format!("\"{}\"", r.u64()), _ => (r.u64() >> 12).to_string() };
    let long = "s".repeat(60);
    let list = |v: Vec<String>| v.join(",");
    match kind {
        0 => format!("{{{}}}", list((0..n).map(|i| format!("\"k{}\":{}", i, v(r))).collect())),
        1 => format!("{{\"a\":[{}]}}", list((0..n).map(|_| v(r)).collect())),
        2 => { let k = (n as f64).sqrt() as usize; format!("{{\"a\":[{}]}}", list((0..n / k).map(|_| format!("[{}]", list((0..k).map(|_| v(r)).collect()))).collect())) }
        3 => format!("{{\"a\":\"{}\"}}", (0..n).map(|_| (b'0' + r.us(10) as u8) as char).collect::<String>()),
        4 => format!("{{\"a\":1{}}}", (0..n).map(|_| *r.pick(&[' ', '\n', '\t', '\r'])).collect::<String>()),
        5 => format!("{{{}}}", list((0..n).map(|i| format!("\"{}{}\":{}", long, i, v(r))).collect())),
        6 => format!("{{\"a\":[{}]}}", list((0..n).map(|_| format!("[{}]", v(r))).collect())),
        7 => format!("{{\"a\":[{}]}}", list((0..n).map(|_| format!("\"\\u0061\\n{}\"", r.us(9))).collect())),
        _ => format!("{{\"{}\":1}}", "k".repeat(n)),
    }
}
const SYMS: [&str; 6] = ["signals", "signals that share a long start", "lines that are no signals", "characters of a name", "elements of an array", "empty lines"];
fn sym(r: &mut Rng, kind: usize, n: usize) -> String {
    let long = "c.".repeat(40);
    match kind {
        0 => (0..n).map(|i| format!("{},{},0,main.s{}\n", i, i, i)).collect(),
        1 => (0..n).map(|i| format!("{},{},{},main.{}s{}\n", i, r.us(n + 1), r.us(9), long, i)).collect(),
        2 => (0..n).map(|i| if i % 3 == 0 { "\n".to_string() } else { format!("{},no\n", i) }).chain(["1,1,0,main.a\n".to_string()]).collect(),
        3 => format!("1,1,0,main.{}\n", "n".repeat(n)),
        4 => (0..n).map(|i| format!("{},{},0,main.a[{}]\r\n", i, i + 1, i)).collect(),
        _ => format!("{}1,1,0,main.a\n", "\n".repeat(n)),
    }
}
const VALUES: [&str; 5] = ["constraints", "factors of one constraint", "wire labels", "witness values", "bytes of one value"];
fn value(r: &mut Rng, kind: usize, n: usize) -> Tc {
    let mut t = Tc { circ: Circ { fs: 32, prime: r.bytes(32), nw: n as u32, ..Default::default() }, wit: Wit::new(), name: "n".into(), desc: None };
    match kind {
        0 => t.circ.cons = (0..n).map(|_| [1, 1, 1].map(|k| lc(r, n, k, 8))).collect(),
        1 => t.circ.cons = vec![[lc(r, n, n, 8), vec![], vec![]]],
        2 => t.circ.labels = Some((0..n).map(|i| (i as u32, format!("main.s{}", i))).collect()),
        3 => t.wit = (0..n).map(|i| (i as u32, r.bytes(8))).collect(),
        _ => t.circ.prime = r.bytes(n),
    }
    t
}
macro_rules! formats {
    ($f:ident, $s:ident) => {
        fn $f(d: &Path, r: &mut Rng, kind: usize, n: usize) -> Call {
            let t = value(r, kind, n);
            let (c, w, t) = ($s::c(&t.circ), $s::w(&t.wit), $s::t(&t));
            let p: PathBuf = d.join("v");
            Box::new(move || {
                let p = p.to_str().unwrap();
                let j = er(c.to_json())?;
                er($s::C::from_json(&j))?;
                let b = er(c.to_bincode())?;
                er($s::C::from_bincode(&b))?;
                er(c.save_json(p))?;
                er($s::C::load_json(p))?;
                er(c.save_bincode(p))?;
                er($s::C::load_bincode(p))?;
                er(w.save_json(p))?;
                er($s::W::load_json(p))?;
                er(t.save_json(p))?;
                er($s::T::load_json(p))?;
                Ok(())
            })
        }
    };
}
formats!(cli_formats, cli);
formats!(core_formats, core);

pub fn c46(x: &mut Ctx) {
    let d = x.scratch.clone();
    let many = x.q(1, 3) as u64;
    let far = if x.thorough { 16 } else { 1 };
    x.run("r1cs", 7 * many, |c| {
        let k = c.idx as usize % 7;
        let p = d.join("c.r1cs");
        let last = if k == 6 { 4 << 20 } else { 60_000 };
        proportional(c, &format!("R1CS file, {}", KINDS[k]), if k == 6 { 16 << 10 } else { 400 }, last * far, &|r, n| {
            put(&p, &r1cs_bytes(r, k, n));
            let p = p.clone();
            Box::new(move || {
                let f = er(R1csFile::from_file(&p))?;
                std::hint::black_box(f.to_serializable());
                er(load_circom_circuit(&p, &p)).map(drop)
            })
        });
    });
    x.run("inputs", 9 * many, |c| {
        let k = c.idx as usize % 9;
        let p = d.join("i.json");
        let wide = [3, 4, 8].contains(&k);
        proportional(c, &format!("input document, {}", DOCS[k]), if wide { 16 << 10 } else { 400 }, if wide { 1 << 22 } else { 110_000 } * far, &|r, n| {
            put(&p, doc(r, k, n).as_bytes());
            let p = p.clone();
            Box::new(move || er(parse_inputs(&p)).map(drop))
        });
    });
    x.run("symbols", 6 * many, |c| {
        let k = c.idx as usize % 6;
        proportional(c, &format!("symbol file, {}", SYMS[k]), if k == 3 { 16 << 10 } else { 400 }, if k == 3 { 1 << 22 } else { 110_000 } * far, &|r, n| {
            let t = sym(r, k, n);
            Box::new(move || {
                let m = er(parse_sym_file(&t))?;
                std::hint::black_box(get_input_signals(&m, None));
                std::hint::black_box(get_input_signals(&m, Some(m.len() as u32 / 2)));
                Ok(())
            })
        });
    });
    x.run("crypto", 2 * many, |c| {
        let gcm = c.idx % 2 == 0;
        proportional(c, if gcm { "AES-256-GCM, bytes" } else { "AES-256-CTR, bytes" }, 4 << 10, (2 << 20) * far, &|r, n| {
            let (k, m) = (r.bytes(32), r.bytes(n));
            let mut bad = encrypt_gcm(&k, &m).unwrap_or_default();
            if let Some(b) = bad.last_mut() {
                *b ^= 1;
            }
            Box::new(move || {
                if gcm {
                    let e = er(encrypt_gcm(&k, &m))?;
                    er(decrypt_gcm(&k, &e))?;
                    if decrypt_gcm(&k, &bad).is_ok() { Err("a changed ciphertext accepted".into()) } else { Ok(()) }
                } else {
                    let e = er(encrypt_ctr(&k, &m))?;
                    er(decrypt_ctr(&k, &e)).map(drop)
                }
            })
        });
    });
    x.run("formats", 10 * many, |c| {
        let (k, own) = (c.idx as usize / 2 % 5, c.idx % 2 == 0);
        let what = format!("{} formats, {}", if own { "CLI" } else { "core" }, VALUES[k]);
        proportional(c, &what, if k == 4 { 4 << 10 } else { 100 }, if k == 4 { 1 << 19 } else { 26_000 } * far, &|r, n| if own { cli_formats(&d, r, k, n) } else { core_formats(&d, r, k, n) });
    });
}

//! C45: a process that goes on calling the library holds no more than one that began.
use crate::m_inputs::{gen_doc, gen_sym};
use crate::m_r1cs::{self, put};
use crate::m_serial::{cli, core, gen_circ, gen_tc, gen_wit};
use crate::soak::soak;
use crate::util::*;
use std::path::Path;
use zkenc_cli::{circom::{load_circom_circuit, parse_inputs}, crypto::*, r1cs::R1csFile, sym_parser::*};

type R = Result<(), String>;
fn ok<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| format!("{} failed on valid input: {:.200}", what, e.to_string()))
}
fn no<T, E>(what: &str, r: Result<T, E>) -> R {
    if r.is_ok() { Err(format!("{} accepted", what)) } else { Ok(()) }
}
/// A file of its own name, which is gone again afterwards.
fn with(dir: &Path, name: String, b: &[u8], f: impl FnOnce(&Path) -> R) -> R {
    let p = dir.join(name);
    put(&p, b);
    let r = f(&p);
    std::fs::remove_file(&p).map_err(|e| format!("the input file is gone: {}", e))?;
    r
}
fn r1cs(d: &Path, r: &mut Rng, i: u64) -> R {
    let m = m_r1cs::gen(r);
    let b = m.plain().bytes;
    with(d, format!("c{}.r1cs", i), &b, |p| {
        let f = ok("R1csFile::from_file", R1csFile::from_file(p).map_err(|e| format!("{:#}", e)))?;
        std::hint::black_box(f.to_serializable());
        Ok(())
    })?;
    let n = r.us(b.len() / 2);
    with(d, format!("cut{}.r1cs", i), &b[..n.min(30)], |p| no("a file cut off", R1csFile::from_file(p)))?;
    let mut t = b.clone();
    t.truncate(1 + r.us(b.len()));
    with(d, format!("part{}.r1cs", i), &t, |p| {
        std::hint::black_box(R1csFile::from_file(p).is_ok());
        Ok(())
    })?;
    // Another magic number or version, which is refused; a damaged table of sections or header, which need not be.
    for (at, must) in [(r.us(4), true), (4 + r.us(4), true), (12 + r.us(8), false), (24 + r.us(8), false)] {
        let mut t = b.clone();
        if let Some(x) = t.get_mut(at) {
            *x ^= 1 << r.below(7);
        }
        with(d, format!("bad{}.r1cs", i), &t, |p| match R1csFile::from_file(p) {
            Ok(_) if must => Err(format!("a file with another byte {} accepted", at)),
            _ => Ok(()),
        })?;
    }
    no("a missing file", R1csFile::from_file(d.join(format!("none{}", i))))?;
    no("a directory", R1csFile::from_file(d))
}
fn inputs(d: &Path, r: &mut Rng, i: u64) -> R {
    let (s, w) = gen_doc(r);
    with(d, format!("i{}.json", i), s.as_bytes(), |p| {
        let m = ok("parse_inputs", parse_inputs(p).map_err(|e| format!("{:#}", e)))?;
        if m.len() != w.len() { Err("inputs lost".into()) } else { Ok(()) }
    })?;
    with(d, format!("bad{}.json", i), format!("{{\"k{}\": [1, \"2\", ", i).as_bytes(), |p| no("a damaged document", parse_inputs(p)))?;
    let t = r.pick(&["[1, 2]", "7", "", "{\"a\": null}", "{\"a\": {\"b\": 1}}", "{\"a\": \"x\"}", "{\"a\": 1.5}", "{\"a\": [true]}", "\u{feff}{}"]);
    with(d, format!("odd{}.json", i), t.as_bytes(), |p| {
        std::hint::black_box(parse_inputs(p).is_ok());
        Ok(())
    })?;
    with(d, format!("raw{}.json", i), &[0xff, 0xfe, i as u8], |p| no("bytes that are no text", parse_inputs(p)))?;
    no("a missing file", parse_inputs(d.join(format!("none{}", i))))?;
    with(d, format!("l{}.r1cs", i), &m_r1cs::gen(r).plain().bytes, |p| {
        no("a circuit without its WASM file", load_circom_circuit(p, &d.join("none.wasm")))?;
        with(d, format!("l{}.wasm", i), b"\0asm\x01\0\0\0", |w| ok("load_circom_circuit", load_circom_circuit(p, w).map_err(|e| format!("{:#}", e))).map(drop))
    })
}
fn symbols(_: &Path, r: &mut Rng, i: u64) -> R {
    let n = 1 + r.us(30);
    let s = gen_sym(r, n);
    let text = format!("{}\n{},{},0,main.own{}\n", s.text, i, i % 4000, i);
    let m = ok("parse_sym_file", parse_sym_file(&text).map_err(|e| format!("{:#}", e)))?;
    let max = if r.chance(1, 2) { None } else { Some(5000) };
    if get_input_signals(&m, max).get(&format!("own{}", i)).copied() != Some(i as u32 % 4000) {
        return Err("a signal is lost".into());
    }
    for t in [format!("{},x,0,main.a\n", i), format!("{}\n", i), format!("{},1\n", i), format!("{},1,0\n", i), format!("{},-1,0,main.q{}\n", i, i), format!("{},4294967296,0,main.q{}\n", i, i), format!("x,1,0,main.q{},\n\n", i)] {
        std::hint::black_box(parse_sym_file(&t).map(|m| get_input_signals(&m, None)).is_ok());
    }
    Ok(())
}
fn crypto(_: &Path, r: &mut Rng, _: u64) -> R {
    let (k, n) = (r.bytes(32), r.us(300));
    let m = r.bytes(n);
    let e = ok("encrypt_gcm", encrypt_gcm(&k, &m))?;
    if ok("decrypt_gcm", decrypt_gcm(&k, &e))? != m {
        return Err("another message".into());
    }
    let mut t = e.clone();
    t[r.us(e.len())] ^= 1;
    no("a changed ciphertext", decrypt_gcm(&k, &t))?;
    no("a short ciphertext", decrypt_gcm(&k, &e[..20]))?;
    no("a short key", encrypt_gcm(&k[..r.us(32)], &m))?;
    no("a short key", encrypt_ctr(&k[..r.us(32)], &m))?;
    let e = ok("encrypt_ctr", encrypt_ctr(&k, &m))?;
    no("a short ciphertext", decrypt_ctr(&k, &e[..15]))?;
    if ok("decrypt_ctr", decrypt_ctr(&k, &e))? != m {
        return Err("another message (CTR)".into());
    }
    Ok(())
}
macro_rules! format {
    ($f:ident, $s:ident) => {
        fn $f(d: &Path, r: &mut Rng, i: u64) -> R {
            let (m, w, t) = (gen_circ(r, 6), gen_wit(r, 20), gen_tc(r));
            let p = |e: &str| d.join(std::format!("v{}.{}", i, e)).to_str().unwrap().to_string();
            let (c, w, t) = ($s::c(&m), $s::w(&w), $s::t(&t));
            ok("save_json", c.save_json(&p("cj")))?;
            ok("save_bincode", c.save_bincode(&p("cb")))?;
            ok("save_json", w.save_json(&p("w")))?;
            ok("save_json", t.save_json(&p("t")))?;
            ok("load_json", $s::C::load_json(&p("cj")))?;
            ok("load_bincode", $s::C::load_bincode(&p("cb")))?;
            ok("load_json", $s::W::load_json(&p("w")))?;
            ok("load_json", $s::T::load_json(&p("t")))?;
            no("a circuit as a test case", $s::T::load_json(&p("cj")))?;
            no("JSON as binary", $s::C::load_bincode(&p("t")))?;
            for e in ["cj", "cb", "w", "t"] {
                std::fs::remove_file(p(e)).map_err(|e| e.to_string())?;
            }
            no("a missing file", $s::C::load_json(&p("cj")))?;
            no("a missing file", $s::W::load_json(&p("w")))?;
            no("a missing file", $s::T::load_json(&p("t")))?;
            no("a missing file", $s::C::load_bincode(&p("cb")))?;
            let none = d.join("nowhere").join(i.to_string()).to_str().unwrap().to_string();
            no("a directory that is not there", c.save_json(&none))?;
            no("a directory that is not there", w.save_json(&none))?;
            no("a directory that is not there", t.save_json(&none))?;
            no("a directory that is not there", c.save_bincode(&none))?;
            let (j, b) = (ok("to_json", c.to_json())?, ok("to_bincode", c.to_bincode())?);
            no("half a text", $s::C::from_json(j.get(..j.len() / 3).unwrap_or("{")))?;
            no("half a circuit", $s::C::from_bincode(&b[..b.len() / 3]))
        }
    };
}
format!(cli_formats, cli);
format!(core_formats, core);

pub fn c45(x: &mut Ctx) {
    let root = x.scratch.join("root");
    let (work, tmp) = (root.join("work"), root.join("tmp"));
    for d in [&work, &tmp] {
        std::fs::create_dir_all(d).unwrap();
    }
    std::env::set_var("TMPDIR", &tmp);
    std::env::set_var("HOME", root.join("home"));
    std::env::set_current_dir(&work).unwrap();
    type F = fn(&Path, &mut Rng, u64) -> R;
    let kinds: [(&str, F, u64); 6] = [("R1CS files", r1cs, 600), ("inputs", inputs, 600), ("symbols", symbols, 600), ("encryption", crypto, 1500), ("CLI formats", cli_formats, 250), ("core formats", core_formats, 250)];
    let many = x.q(5, 60);
    x.run("calls", 6 * x.q(1, 2), |c| {
        let (what, f, n) = kinds[c.idx as usize % 6];
        soak(c, what, n * many, &root, |r, i| f(&work, r, i));
    });
    // Everything in turn; each call in a thread that ends with it.
    x.run("mixed", x.q(2, 8), |c| soak(c, "all in turn", 600 * many, &root, |r, i| kinds[r.us(6)].1(&work, r, i)));
    x.run("threads", x.q(2, 8), |c| {
        let work = &work;
        soak(c, "each in a thread", 400 * many, &root, |r, i| {
            let seed = r.u64();
            std::thread::scope(|s| s.spawn(move || { let mut r = Rng::new(seed); kinds[r.us(6)].1(work, &mut r, i) }).join().unwrap_or_else(|_| Err("panicked".into())))
        })
    });
}

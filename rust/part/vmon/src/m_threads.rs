//! C44: library calls from several threads at once give what each gives alone.
use crate::m_inputs::{gen_doc, gen_sym, select, twins};
use crate::m_r1cs::{self, put, Model};
use crate::m_serial::{cli, core, gen_circ, gen_tc, gen_wit};
use crate::refaes::Aes256;
use crate::storm::*;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use zkenc_cli::{circom::{load_circom_circuit, parse_inputs}, crypto::*, r1cs::R1csFile, sym_parser::*};

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), (String, serde_json::Value)> {
    if got == want {
        return Ok(());
    }
    wrong(format!("{} differs", what), json!({"want": format!("{:.300?}", want), "got": format!("{:.300?}", got)}))
}
/// A circuit that takes a while to read, of its own field size.
fn large(r: &mut Rng) -> Model {
    let fs = *r.pick(&[1usize, 4, 8, 16, 31, 32, 33, 48, 64, 96]);
    let mut m = Model { prime: r.bytes(fs), n_wires: 50, n_pub_out: 1, n_pub_in: r.below(9) as u32, n_prv_in: 4, n_labels: 50, labels: Some((0..50).map(|_| r.u64()).collect()), ..Default::default() };
    for _ in 0..r.range(50, 600) {
        let mut l = || (0..r.us(5)).map(|_| (r.below(50) as u32, r.bytes(fs))).collect();
        m.cons.push([l(), l(), l()]);
    }
    m
}
fn read(m: &Model, p: &Path) -> Result<R1csFile, (String, serde_json::Value)> {
    let r = must("R1csFile::from_file", R1csFile::from_file(p).map_err(|e| format!("{:#}", e)))?;
    match m_r1cs::diff(m, &r) {
        None => Ok(r),
        Some(d) => wrong("the parsed circuit differs from the file", json!({"difference": d, "circuit": m.describe()})),
    }
}

/// Private paths of a call: same names in different directories, or names that differ in a little.
fn private(dir: &Path, style: u64, slot: usize, ext: &str) -> String {
    let p = match style {
        0 => {
            let d = dir.join(format!("own{}", slot));
            std::fs::create_dir_all(&d).unwrap();
            d.join(format!("value{}", ext))
        }
        1 => dir.join(format!("value{}{}", slot, ext)),
        2 => dir.join(format!("value{}.{}", ext, slot)),
        _ => dir.join(format!("value.{}{}", slot, ext)),
    };
    p.to_str().unwrap().to_string()
}

macro_rules! formats {
    ($tasks:ident, $c:ident, $dir:ident, $s:ident, $n:expr) => {{
        let r = &mut $c.rng;
        let (m, w, t) = (gen_circ(r, 30), gen_wit(r, 80), gen_tc(r));
        let tag = format!("{}{}", stringify!($s), $n);
        let style = r.below(4);
        // Shared files, read by many.
        let (pj, pb, pw, pt) = ($dir.join(format!("s{}.json", tag)), $dir.join(format!("s{}.bin", tag)), $dir.join(format!("w{}.json", tag)), $dir.join(format!("t{}.json", tag)));
        let st = |p: &PathBuf| p.to_str().unwrap().to_string();
        let (pj, pb, pw, pt) = (st(&pj), st(&pb), st(&pw), st(&pt));
        let saved = guard(|| {
            $s::c(&m).save_json(&pj).is_ok() && $s::c(&m).save_bincode(&pb).is_ok() && $s::w(&w).save_json(&pw).is_ok() && $s::t(&t).save_json(&pt).is_ok()
        });
        if saved == Ok(true) {
            let m2 = m.clone();
            $tasks.push(task(concat!(stringify!($s), " load circuit"), move |_| {
                same("the circuit loaded (JSON)", &$s::cb(&must("load_json", $s::C::load_json(&pj))?), &m2)?;
                same("the circuit loaded (binary)", &$s::cb(&must("load_bincode", $s::C::load_bincode(&pb))?), &m2)
            }));
            let (w2, t2) = (w.clone(), t.clone());
            $tasks.push(task(concat!(stringify!($s), " load witness and test case"), move |_| {
                same("the witness loaded", &$s::wb(&must("load_json", $s::W::load_json(&pw))?), &w2)?;
                same("the test case loaded", &$s::tb(&must("load_json", $s::T::load_json(&pt))?), &t2)
            }));
        }
        let (d, m2) = ($dir.clone(), m.clone());
        $tasks.push(task(concat!(stringify!($s), " save circuit"), move |slot| {
            let p = private(&d, style, slot, ".json");
            must("save_json", $s::c(&m2).save_json(&p))?;
            same("the circuit saved and loaded (JSON)", &$s::cb(&must("load_json", $s::C::load_json(&p))?), &m2)?;
            let p = private(&d, style, slot, ".bin");
            must("save_bincode", $s::c(&m2).save_bincode(&p))?;
            same("the circuit saved and loaded (binary)", &$s::cb(&must("load_bincode", $s::C::load_bincode(&p))?), &m2)
        }));
        let (d, w2, t2) = ($dir.clone(), w.clone(), t.clone());
        $tasks.push(task(concat!(stringify!($s), " save witness and test case"), move |slot| {
            let p = private(&d, style, slot, ".w");
            must("save_json", $s::w(&w2).save_json(&p))?;
            same("the witness saved and loaded", &$s::wb(&must("load_json", $s::W::load_json(&p))?), &w2)?;
            let p = private(&d, style, slot, ".t");
            must("save_json", $s::t(&t2).save_json(&p))?;
            same("the test case saved and loaded", &$s::tb(&must("load_json", $s::T::load_json(&p))?), &t2)
        }));
        let (m2, w2) = (m.clone(), w.clone());
        $tasks.push(task(concat!(stringify!($s), " memory"), move |_| {
            let v = $s::c(&m2);
            let (j, b) = (must("to_json", v.to_json())?, must("to_bincode", v.to_bincode())?);
            same("the circuit (JSON text)", &$s::cb(&must("from_json", $s::C::from_json(&j))?), &m2)?;
            same("the circuit (binary)", &$s::cb(&must("from_bincode", $s::C::from_bincode(&b))?), &m2)?;
            let j = must("to_json", $s::w(&w2).to_json())?;
            same("the witness (JSON text)", &$s::wb(&must("from_json", $s::W::from_json(&j))?), &w2)
        }));
        let m2 = m.clone();
        let seed = r.u64();
        let missing = st(&$dir.join("nothing-here"));
        $tasks.push(task(concat!(stringify!($s), " damaged"), move |_| {
            let mut r = Rng::new(seed);
            let v = $s::c(&m2);
            let (j, b) = (must("to_json", v.to_json())?, must("to_bincode", v.to_bincode())?);
            let (nj, nb) = (r.us(j.len()), r.us(b.len()));
            let cut: String = j.chars().take(j.chars().count() * (1 + nj) / (2 + j.len())).collect();
            if $s::C::from_json(&cut).is_ok() {
                return wrong("a JSON text cut off is read", json!(cut.len()));
            }
            if $s::C::from_bincode(&b[..nb]).is_ok() {
                return wrong("a binary circuit cut off is read", json!(nb));
            }
            if $s::C::load_json(&missing).is_ok() || $s::C::load_bincode(&missing).is_ok() || $s::W::load_json(&missing).is_ok() || $s::T::load_json(&missing).is_ok() {
                return wrong("a missing file is loaded", json!(missing));
            }
            Ok(())
        }));
    }};
}

pub fn c44(x: &mut Ctx) {
    let dir = x.scratch.clone();
    let readers = |c: &mut Case, dir: &PathBuf, v: &mut Vec<Task>| {
        for i in 0..3 {
            let m = if c.rng.chance(1, 3) { m_r1cs::gen(&mut c.rng) } else { large(&mut c.rng) };
            let p = dir.join(format!("r{}.r1cs", i));
            put(&p, &m.plain().bytes);
            v.push(task("read R1CS", move |_| read(&m, &p).map(|_| ())));
        }
        {
            let m = large(&mut c.rng);
            let p = dir.join("e.r1cs");
            put(&p, &m.plain().bytes);
            v.push(task("export R1CS", move |_| {
                let s = read(&m, &p)?.to_serializable();
                let got: Vec<[m_r1cs::Lc; 3]> = s.constraints.iter().map(|k| [&k.a, &k.b, &k.c].map(|l| l.factors.iter().map(|f| (f.wire_id, f.coefficient_bytes.clone())).collect())).collect();
                if s.prime_bytes != m.prime || s.n_wires != m.n_wires || got != m.cons {
                    return wrong("the exported circuit differs", m.describe());
                }
                Ok(())
            }));
        }
        {
            let m = large(&mut c.rng);
            let f = m.plain();
            let (mut bad, mut cut) = (f.bytes.clone(), f.bytes.clone());
            bad[c.rng.us(8)] ^= 1 << c.rng.us(8);
            cut.truncate(12 + c.rng.us(f.bytes.len() / 2));
            let (pb, pc, pn) = (dir.join("bad.r1cs"), dir.join("cut.r1cs"), dir.join("none.r1cs"));
            put(&pb, &bad);
            put(&pc, &cut);
            v.push(task("read damaged R1CS", move |_| {
                for p in [&pb, &pc, &pn] {
                    if R1csFile::from_file(p).is_ok() {
                        return wrong("a damaged R1CS file is read", json!(p));
                    }
                }
                Ok(())
            }));
        }
        for i in 0..3 {
            let (s, w) = gen_doc(&mut c.rng);
            let p = dir.join(format!("i{}.json", i));
            put(&p, s.as_bytes());
            v.push(task("read inputs", move |_| same("the inputs read", &must("parse_inputs", parse_inputs(&p).map_err(|e| format!("{:#}", e)))?.into_iter().collect::<BTreeMap<_, _>>(), &w)));
        }
        {
            let (p, r) = (dir.join("bad.json"), dir.join("e.r1cs"));
            put(&p, b"{\"a\": [1, 2, \"3\"], \"b\": [[4");
            v.push(task("read damaged inputs", move |_| {
                if parse_inputs(&p).is_ok() {
                    return wrong("a damaged input file is read", json!(null));
                }
                must("load_circom_circuit", load_circom_circuit(&r, &p).map_err(|e| format!("{:#}", e)))?;
                if load_circom_circuit(&r, &p.with_extension("none")).is_ok() {
                    return wrong("a circuit without its WASM file is loaded", json!(null));
                }
                Ok(())
            }));
        }
        let n = 10 + c.rng.us(400);
        let mut syms = vec![gen_sym(&mut c.rng, n), gen_sym(&mut c.rng, 20)];
        syms.extend(twins(&mut c.rng).into_iter().take(2));
        for s in syms {
            let max = if c.rng.chance(1, 2) { None } else { Some(c.rng.below(3000) as u32) };
            v.push(task("read symbols", move |_| {
                let m = must("parse_sym_file", parse_sym_file(&s.text).map_err(|e| format!("{:#}", e)))?;
                let want = select(&s.map, max);
                let got: BTreeMap<String, u32> = get_input_signals(&m, max).into_iter().collect();
                same("the symbol map", &m.into_iter().collect(), &s.map)?;
                same("the selected signals", &got, &want)
            }));
        }
    };
    let crypto = |c: &mut Case, v: &mut Vec<Task>| {
        for _ in 0..4 {
            let (k, n) = (crate::m_crypto::key(&mut c.rng), c.rng.size(60_000));
            let m = c.rng.content(n);
            let (mut k2, seed) = (k, c.rng.u64());
            k2[c.rng.us(32)] ^= 1 << c.rng.us(8);
            v.push(task("seal and open", move |slot| {
                let mut r = Rng::new(seed ^ slot as u64);
                let e = must("encrypt_gcm", encrypt_gcm(&k, &m))?;
                same("the message opened", &must("decrypt_gcm", decrypt_gcm(&k, &e))?, &m)?;
                let mut t = e.clone();
                let at = r.us(t.len());
                t[at] ^= 1 << r.us(8);
                if decrypt_gcm(&k, &t).is_ok() || decrypt_gcm(&k2, &e).is_ok() {
                    return wrong("a ciphertext that was changed, or another key, opens", json!({"bytes": m.len(), "at": at}));
                }
                let e = must("encrypt_ctr", encrypt_ctr(&k, &m))?;
                same("the message opened (CTR)", &must("decrypt_ctr", decrypt_ctr(&k, &e))?, &m)?;
                if m.len() < 2000 && e.len() == m.len() + 16 && e[8] != 0xff {
                    same("the message opened by the reference (CTR)", &Aes256::new(&k).ctr(&e[..16].try_into().unwrap(), &e[16..]), &m)?;
                }
                if encrypt_gcm(&k[..31], &m).is_ok() || encrypt_ctr(&k[..16], &m).is_ok() || decrypt_gcm(&k, &e[..11.min(e.len())]).is_ok() {
                    return wrong("a short key or ciphertext is accepted", json!(null));
                }
                Ok(())
            }));
        }
    };
    let run = |c: &mut Case, what: u64, threads: usize, steps: usize| {
        let dir = dir.join(format!("{}{}", c.kind, c.idx));
        std::fs::create_dir_all(&dir).unwrap();
        let mut v = vec![];
        if what & 1 > 0 {
            readers(c, &dir, &mut v);
        }
        if what & 2 > 0 {
            for i in 0..2 {
                formats!(v, c, dir, cli, i);
                formats!(v, c, dir, core, i);
            }
        }
        if what & 4 > 0 {
            crypto(c, &mut v);
        }
        c.input(json!({"threads": threads, "calls_of_each": steps, "tasks": v.iter().map(|t| t.kind).collect::<Vec<_>>()}));
        c.sample(json!({"threads": threads, "calls_of_each": steps, "tasks": v.len()}));
        storm(c, v, threads, steps);
        std::fs::remove_dir_all(&dir).unwrap();
    };
    // Everything at once.
    x.run("all", x.q(40, 1200), |c| run(c, 7, *[8usize, 3, 16].get(c.idx as usize % 3).unwrap(), 40));
    // Calls of one kind among themselves, where they meet most often.
    x.run("readers", x.q(30, 900), |c| run(c, 1, 8, 60));
    x.run("formats", x.q(30, 900), |c| run(c, 2, 8, 40));
    x.run("crypto", x.q(20, 600), |c| run(c, 4, 8, 60));
    // Two threads, many calls.
    x.run("two", x.q(20, 600), |c| run(c, 7, 2, 150));
}

//! C49: every build answers alike. Calls are answered here, in a build for debugging with 64-bit words, and by each
//! of the builds the driver made: for release, with 32-bit words, as WebAssembly, with fewer features.
use crate::circ::*;
use crate::m_cli::*;
use crate::m_r1cs::{gen, Model, Sec};
use crate::util::*;
use ark_bn254::Fr;
use serde_json::{json, Value};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Command, Stdio};

struct Call {
    op: &'static str,
    args: Vec<Vec<u8>>,
    /// What was done to the arguments.
    how: String,
}
fn call(op: &'static str, args: &[&[u8]], how: impl Into<String>) -> Call {
    Call { op, args: args.iter().map(|a| a.to_vec()).collect(), how: how.into() }
}
/// Other values for the number at `at`: ones whose low bits, or whose products with a size, are those of the true one.
fn number(r: &mut Rng, b: &mut [u8], at: usize, n: usize) -> String {
    let was = b[at..at + n].iter().rev().fold(0u64, |s, x| s << 8 | *x as u64);
    let to = if n == 8 {
        match r.below(8) {
            0..=2 => was.wrapping_add(1 << 32 << r.below(32)),
            3 => was.wrapping_sub(1 << 32),
            4 => was | 1 << 63,
            5 => u64::MAX - r.below(40),
            6 => (was & 0xffff_ffff) | r.u64() << 32,
            _ => r.u64_edge(),
        }
    } else {
        match r.below(8) {
            0..=2 => was.wrapping_add(1 << r.range(20, 31)),
            3 => u32::MAX as u64 - r.below(40),
            4 => 1 << 31 | r.below(2),
            5 => was.wrapping_add((r.below(31) + 1) << 27),
            6 => (1u64 << 32).wrapping_div(was.max(1)) + r.below(2),
            _ => r.u32_edge() as u64,
        }
    };
    b[at..at + n].copy_from_slice(&to.to_le_bytes()[..n]);
    format!("number at {} from {} to {}", at, was, if n == 8 { to } else { to & 0xffff_ffff })
}
/// Where the header sections of a file keep their numbers.
fn heads(b: &[u8]) -> Vec<usize> {
    let u32_at = |at: usize| Some(u32::from_le_bytes(b.get(at..at + 4)?.try_into().unwrap()));
    let mut v = vec![8];
    let mut pos = 12;
    while let (Some(ty), Some(len)) = (u32_at(pos), u32_at(pos + 4)) {
        if let (1, Some(n8)) = (ty, u32_at(pos + 12)) {
            let first = pos + 16 + n8 as usize;
            let fields: &[usize] = if &b[..4] == b"r1cs" { &[0, 4, 8, 12, 24] } else { &[0] };
            v.push(pos + 12);
            v.extend(fields.iter().map(|f| first + f).filter(|at| at + 4 <= b.len()));
        }
        pos += 12 + len as usize;
    }
    v
}
fn any_number(r: &mut Rng, f: &crate::m_r1cs::File) -> (Vec<u8>, String) {
    let mut b = f.bytes.clone();
    let mut how = vec![];
    let heads = heads(&b);
    for _ in 0..1 + r.us(2) {
        if r.chance(1, 2) && !heads.is_empty() {
            // A number of the header; now and then one whose sum with the next is small.
            let i = r.us(heads.len());
            let at = heads[i];
            if r.chance(1, 3) && i + 1 < heads.len() {
                let next = u32::from_le_bytes(b[heads[i + 1]..heads[i + 1] + 4].try_into().unwrap());
                let to = 0u32.wrapping_sub(next).wrapping_add(r.u32() % 3).wrapping_sub(r.u32() % 2);
                b[at..at + 4].copy_from_slice(&to.to_le_bytes());
                how.push(format!("number at {} to {}", at, to));
            } else {
                how.push(number(r, &mut b, at, 4));
            }
            continue;
        }
        let i = r.us(f.f32s.len() + 2 * f.f64s.len());
        how.push(if i < f.f32s.len() { number(r, &mut b, f.f32s[i], 4) } else { number(r, &mut b, f.f64s[(i - f.f32s.len()) / 2], 8) });
    }
    (b, how.join(", "))
}
fn cut(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    match r.below(4) {
        0 => b.truncate(r.us(b.len() + 1)),
        1 if !b.is_empty() => {
            let i = r.us(b.len());
            b[i] ^= 1 << r.below(8);
        }
        2 => b.extend(r.bytes(1 + r.clone().us(9))),
        _ if !b.is_empty() => {
            let i = r.us(b.len());
            b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
        }
        _ => {}
    }
    b
}
fn wtns_file(r: &mut Rng, values: &[Vec<u8>], prime: &[u8]) -> crate::m_r1cs::File {
    let swap = r.chance(1, 4);
    let extra = [0, 1, 2].map(|_| if r.chance(1, 4) { vec![Sec { ty: 3 + r.u32() % 9, data: r.bytes(r.clone().us(20)), slack: vec![], f32s: vec![], f64s: vec![] }] } else { vec![] });
    wtns_order(values, prime, extra, swap)
}
/// The two parts of what an encapsulation gives.
fn halves(b: &[u8]) -> (&[u8], &[u8]) {
    let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
    (&b[4..4 + n], &b[4 + n..])
}

/// Encapsulation and its inverse by every tool, on files as they are, and changed.
fn kem(r: &mut Rng, x: &Names, dir: &Path) -> Vec<Call> {
    let mid = if r.chance(1, 6) { 8 + r.us(30) } else { r.us(7) };
    let none = r.chance(1, 5);
    let s = Shape { outs: if none { 0 } else { r.us(3) }, ins: if none { 0 } else { r.us(4) }, prv: 1 + r.us(3), mid, lc: 1 + r.us(3) };
    let k = Circ::generate(r, &s);
    let s = scene_of(r, x, k);
    let (file, w) = (crate::m_r1cs::assemble(b"r1cs", 1, &s.k.m.secs()), &s.w);
    let rng = r.bytes(64);
    let values: Vec<Vec<u8>> = w.iter().map(le).collect();
    let public = values[..=s.k.n_pub()].concat();
    let (whole, part) = (wtns_file(r, &values, &prime()), wtns(&w[..=s.k.n_pub()]));
    let input = s.input(r).into_bytes();
    let msg = { let n = r.size(300); r.content(n) };
    let mut v = vec![call("core-encap", &[&file.bytes, &public, &rng], ""), call("js-encap", &[&file.bytes, &part, &rng], ""), call("cli-encap", &[&file.bytes, s.sym.as_bytes(), &input, &rng], "")];
    for embed in [1u8, 0] {
        v.push(call("cli-encrypt", &[&file.bytes, s.sym.as_bytes(), &input, &msg, &rng, &[embed]], ""));
    }
    // Ciphertexts of this build, opened by all.
    let answer = |c: &Call| crate::util::guard(|| same::raw(c.op, &c.args, dir)).ok().and_then(Result::ok);
    let cts: Vec<Vec<u8>> = v[..3].iter().filter_map(|c| answer(c)).map(|b| halves(&b).0.to_vec()).collect();
    let combined: Vec<Vec<u8>> = v[3..].iter().filter_map(|c| answer(c)).collect();
    if let Some(ct) = cts.first() {
        v.push(call("core-decap", &[&file.bytes, &values.concat(), ct], ""));
    }
    for ct in &cts {
        v.push(call("js-decap", &[&file.bytes, &whole.bytes, ct], ""));
    }
    if let Some(ct) = cts.last() {
        v.push(call("cli-decap", &[&file.bytes, &whole.bytes, ct], ""));
        let mut wrong = values.clone();
        let i = 1 + r.us(wrong.len() - 1);
        wrong[i] = le(&(w[i] + Fr::from(1u64)));
        let wrong = wtns_with(&wrong, &prime(), [vec![], vec![], vec![]]).bytes;
        for op in ["js-decap", "cli-decap"] {
            v.push(call(op, &[&file.bytes, &wrong, ct], "another witness"));
            for _ in 0..3 {
                let (b, how) = any_number(r, &whole);
                v.push(call(op, &[&file.bytes, &b, ct], format!("witness: {}", how)));
                let (b, how) = any_number(r, &file);
                v.push(call(op, &[&b, &whole.bytes, ct], format!("circuit: {}", how)));
                v.push(call(op, &[&file.bytes, &whole.bytes, &cut(r, ct)], "damaged ciphertext"));
                v.push(call(op, &[&file.bytes, &cut(r, &whole.bytes), ct], "damaged witness"));
            }
            // The length of a list in a ciphertext.
            let mut b = ct.clone();
            let lists: Vec<usize> = (0..b.len().saturating_sub(8)).filter(|i| b[i + 2..i + 8] == [0; 6] && b[*i] > 0).collect();
            if !lists.is_empty() {
                let at = *r.pick(&lists);
                let how = number(r, &mut b, at, 8);
                v.push(call(op, &[&file.bytes, &whole.bytes, &b], format!("ciphertext: {}", how)));
            }
        }
    }
    for op in ["js-encap", "cli-encap"] {
        for _ in 0..3 {
            let (b, how) = any_number(r, &file);
            v.push(if op == "js-encap" { call(op, &[&b, &part, &rng], how) } else { call(op, &[&b, s.sym.as_bytes(), &input, &rng], how) });
        }
    }
    for _ in 0..3 {
        let f = wtns_file(r, &values[..=s.k.n_pub()], &prime());
        let (b, how) = any_number(r, &f);
        v.push(call("js-encap", &[&file.bytes, &b, &rng], how));
    }
    for c in &combined {
        v.push(call("cli-decrypt", &[&file.bytes, &whole.bytes, c], ""));
        for _ in 0..3 {
            v.push(call("cli-decrypt", &[&file.bytes, &whole.bytes, &cut(r, c)], "damaged"));
            // The lengths are big-endian.
            let mut b = c.clone();
            let n = u32::from_be_bytes(b[1..5].try_into().unwrap()) as usize;
            let at = if b[0] == 1 && r.chance(1, 2) { 5 + n } else { 1 };
            let to = match r.below(4) { 0 => u32::MAX - r.u32() % 12, 1 => 1 << 31, 2 => r.u32(), _ => u32::from_be_bytes(b[at..at + 4].try_into().unwrap()).wrapping_sub(5 + r.u32() % 6) };
            b[at..at + 4].copy_from_slice(&to.to_be_bytes());
            v.push(call("cli-decrypt", &[&file.bytes, &whole.bytes, &b], format!("length at {}: {}", at, to)));
        }
    }
    v
}
fn files(r: &mut Rng) -> Vec<Call> {
    let mut v = vec![];
    let m: Model = gen(r);
    let f = m.plain();
    if f.bytes.len() < 60_000 {
        for op in ["cli-r1cs", "cli-circuit"] {
            v.push(call(op, &[&f.bytes], ""));
            for _ in 0..6 {
                let (b, how) = any_number(r, &f);
                v.push(call(op, &[&b], how));
                v.push(call(op, &[&cut(r, &f.bytes)], "damaged"));
            }
        }
    }
    let n8 = *r.pick(&[32, 32, 32, 8, 16, 24, 40, 48, 64, 1, 4, 7]);
    let n = r.size(20);
    let p = r.bytes(n8);
    let values: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(n8)).collect();
    let f = wtns_file(r, &values, &p);
    v.push(call("cli-wtns", &[&f.bytes], ""));
    for _ in 0..8 {
        let (b, how) = any_number(r, &f);
        v.push(call("cli-wtns", &[&b], how));
        v.push(call("cli-wtns", &[&cut(r, &f.bytes)], "damaged"));
    }
    v
}
fn texts(r: &mut Rng) -> Vec<Call> {
    let mut v = vec![];
    let wire = |r: &mut Rng| match r.below(6) {
        0 => (1u64 << r.below(64)).wrapping_sub(r.below(3)).to_string(),
        1 => format!("-{}", 1u64 << r.below(63)),
        2 => "18446744073709551616".into(),
        _ => r.below(40).to_string(),
    };
    let mut sym = String::new();
    for i in 0..r.size(12) {
        sym += &format!("{},{},{},{}{}\n", wire(r), wire(r), wire(r), *r.pick(&["main.", "main.a.", "", "main"]), ["in", "x[3]", "é", "_"][i % 4]);
    }
    v.push(call("cli-sym", &[sym.as_bytes()], ""));
    for max in [vec![], r.u32_edge().to_le_bytes().to_vec(), (r.u32() % 30).to_le_bytes().to_vec()] {
        v.push(call("cli-signals", &[sym.as_bytes(), &max], ""));
    }
    for _ in 0..4 {
        let tok = |r: &mut Rng| -> String {
            match r.below(7) {
                0 => ((1i128 << r.below(66)) - r.below(3) as i128).to_string(),
                1 => format!("-{}", 1u128 << r.below(66)),
                2 => format!("\"{}\"", r.u64()),
                3 => format!("[{}, [\"{}\"], 4294967296]", r.u32(), r.u64()),
                4 => "1e3".into(),
                5 => (r.u64() as f64 / 3.0).to_string(),
                _ => r.below(70_000).to_string(),
            }
        };
        let t = format!("{{\"a\": {}, \"b\": {}}}", tok(r), tok(r));
        v.push(call("cli-inputs", &[t.as_bytes()], ""));
    }
    v
}
fn formats(r: &mut Rng) -> Vec<Call> {
    let m: Model = gen(r);
    let mut v = vec![];
    if m.cons.len() > 200 {
        return v;
    }
    let lc = |l: &Vec<(u32, Vec<u8>)>| json!({"factors": l.iter().map(|(w, c)| json!({"wire_id": w, "coefficient": c})).collect::<Vec<_>>()});
    let n = r.u32_edge();
    let c = json!({"field_size": m.prime.len(), "prime": m.prime, "n_wires": m.n_wires, "n_pub_out": m.n_pub_out, "n_pub_in": n, "n_prv_in": m.n_prv_in, "n_labels": r.u64_edge(), "n_constraints": m.cons.len(),
        "constraints": m.cons.iter().map(|k| json!({"a": lc(&k[0]), "b": lc(&k[1]), "c": lc(&k[2])})).collect::<Vec<_>>(), "wire2label": m.labels.clone().unwrap_or_default()});
    let t = c.to_string();
    let bin = zkenc_core::serializable::SerializableCircuit::from_json(&t).ok().and_then(|c| c.to_bincode().ok());
    for op in ["core-circuit-json", "core-circuit-cross", "cli-circuit-json"] {
        v.push(call(op, &[t.as_bytes()], ""));
    }
    if let Some(bin) = bin {
        for op in ["core-circuit-bin", "cli-circuit-bin"] {
            v.push(call(op, &[&bin], ""));
            for _ in 0..6 {
                v.push(call(op, &[&cut(r, &bin)], "damaged"));
                let mut b = bin.clone();
                let lens: Vec<usize> = (0..b.len().saturating_sub(8)).filter(|i| b[i + 3..i + 8] == [0; 5]).collect();
                if !lens.is_empty() {
                    let at = *r.pick(&lens);
                    let how = number(r, &mut b, at, 8);
                    v.push(call(op, &[&b], how));
                }
            }
        }
    }
    v
}
fn seals(r: &mut Rng, dir: &Path) -> Vec<Call> {
    let mut v = vec![];
    for (seal, open) in [("cli-gcm-seal", "cli-gcm-open"), ("cli-ctr-seal", "cli-ctr-open")] {
        let n = r.size(5000);
        let (key, msg, rng) = (r.bytes(32), r.content(n), r.bytes(40));
        let c = call(seal, &[&key, &msg, &rng], "");
        if let Ok(b) = same::raw(c.op, &c.args, dir) {
            v.push(call(open, &[&key, &b], ""));
            for _ in 0..3 {
                v.push(call(open, &[&key, &cut(r, &b)], "damaged"));
            }
            v.push(call(open, &[&key[..r.us(32)], &b], "short key"));
        }
        v.push(c);
    }
    v
}
struct Build {
    name: String,
    ops: Vec<String>,
    argv: Vec<String>,
}
/// The answers of another build, one a call; fewer if it ends before.
fn answers(b: &Build, x: &Ctx, calls: &[&Call]) -> (Vec<String>, String) {
    let d = x.scratch.join(&b.name);
    std::fs::create_dir_all(&d).unwrap();
    let text: String = calls.iter().map(|c| format!("{}{}\n", c.op, c.args.iter().map(|a| format!(" {}", same::hex(a))).collect::<String>())).collect();
    std::fs::write(d.join("calls"), text).unwrap();
    let mut c = Command::new(&b.argv[0]);
    c.args(&b.argv[1..]).args([d.join("calls"), d.join("answers"), d.clone()]).current_dir(&d);
    let log = std::fs::File::create(d.join("log")).unwrap();
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(log);
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 400, rlim_max: 410 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let s = c.status().unwrap_or_else(|e| panic!("{} does not start: {}", b.name, e));
    let all = std::fs::read_to_string(d.join("answers")).unwrap_or_default();
    let mut l: Vec<String> = all.lines().map(str::to_string).collect();
    let about = if l.is_empty() { "?".into() } else { l.remove(0) };
    if l.len() < calls.len() {
        l.push(format!("ended: exit {:?}, signal {:?}: {}", s.code(), s.signal(), std::fs::read_to_string(d.join("log")).unwrap_or_default().chars().take(300).collect::<String>()));
    }
    let _ = std::fs::remove_dir_all(&d);
    (l, about)
}

pub fn c49(x: &mut Ctx) {
    let builds: Vec<Value> = serde_json::from_str(&std::env::var("VERIF_BUILDS").expect("VERIF_BUILDS")).unwrap();
    let words = |v: &Value| -> Vec<String> { v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect() };
    let builds: Vec<Build> = builds.iter().map(|b| Build { name: b["name"].as_str().unwrap().into(), ops: words(&b["ops"]), argv: words(&b["argv"]) }).collect();
    let names = Names::new(x);
    let n = x.q(150, 2500);
    let dir = x.scratch.join("here");
    std::fs::create_dir_all(&dir).unwrap();
    let mut cases: Vec<Vec<Call>> = vec![];
    let mut here: Vec<Vec<String>> = vec![];
    for i in 0..n {
        let mut r = Rng::new(h64(&(x.seed, "C49", i)));
        let calls = match i % 6 {
            0 | 1 => kem(&mut r, &names, &dir),
            2 | 3 => files(&mut r),
            4 => {
                let mut v = texts(&mut r);
                v.extend(seals(&mut r, &dir));
                v
            }
            _ => formats(&mut r),
        };
        here.push(calls.iter().map(|c| same::run(c.op, &c.args, &dir)).collect());
        cases.push(calls);
        if x.left() < 0.4 {
            break;
        }
    }
    // (build, its answers by case and call)
    let got: Vec<(Vec<Vec<Option<String>>>, String)> = std::thread::scope(|s| {
        let (cases, x) = (&cases, &*x);
        let t: Vec<_> = builds
            .iter()
            .map(|b| {
                s.spawn(move || {
                    let mine = |c: &Call| b.ops.iter().any(|o| c.op.starts_with(o.as_str()));
                    let calls: Vec<&Call> = cases.iter().flatten().filter(|c| mine(c)).collect();
                    let (l, about) = answers(b, x, &calls);
                    let mut l = l.into_iter();
                    (cases.iter().map(|v| v.iter().map(|c| if mine(c) { l.next() } else { None }).collect()).collect(), about)
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().unwrap()).collect()
    });
    let kind = |s: &str| s.split(' ').next().unwrap_or("").to_string();
    x.run("calls", cases.len() as u64, |c| {
        let i = c.idx as usize;
        for (j, k) in cases[i].iter().enumerate() {
            let want = &here[i][j];
            c.count(&format!("{}_here", kind(want)), 1);
            for (b, (g, about)) in builds.iter().zip(&got) {
                let Some(g) = &g[i][j] else { continue };
                c.ops += 1;
                c.count(&format!("answers_of_{}", b.name), 1);
                let alike = if want.starts_with("ok") || g.starts_with("ok") { want == g } else { kind(want) == kind(g) };
                if !alike {
                    c.fail(format!("{} answers otherwise in another build ({}: {}): {} here, {} there", k.op, b.name, about, want.chars().take(120).collect::<String>(), g.chars().take(160).collect::<String>()), json!({"done": k.how, "args": k.args.iter().map(|a| hex(&a[..a.len().min(400)])).collect::<Vec<_>>()}));
                }
            }
        }
        c.key(h64(&cases[i].iter().map(|k| &k.args).collect::<Vec<_>>()));
        c.sample(json!({"calls": cases[i].iter().map(|k| format!("{} {}", k.op, k.how)).take(12).collect::<Vec<_>>(), "answers": here[i].iter().map(|a| a.chars().take(60).collect::<String>()).take(12).collect::<Vec<_>>()}));
    });
    for (b, (_, about)) in builds.iter().zip(&got) {
        x.counters.insert(format!("build: {} ({})", b.name, about), 1);
    }
}

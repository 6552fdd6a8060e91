//! The command-line tool as a user runs it: C28 C29 C30 C31 C32 C36.
use crate::circ::*;
use crate::kemlib::*;
use crate::m_r1cs::Model;
use crate::util::*;
use ark_bn254::Fr;
use ark_serialize::CanonicalDeserialize;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

// ------------------------------------------------------------------------------------------------ numbers
/// Decimal digits of a little-endian number.
pub fn decimal(le: &[u8]) -> String {
    let mut n = le.to_vec();
    let mut out = vec![];
    loop {
        let mut rem = 0u32;
        for b in n.iter_mut().rev() {
            let v = rem * 256 + *b as u32;
            *b = (v / 10) as u8;
            rem = v % 10;
        }
        out.push(b'0' + rem as u8);
        if n.iter().all(|b| *b == 0) {
            break;
        }
    }
    out.reverse();
    String::from_utf8(out).unwrap()
}
fn plus(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut c = 0u16;
    for i in 0..a.len().max(b.len()) + 1 {
        let v = c + a.get(i).copied().unwrap_or(0) as u16 + b.get(i).copied().unwrap_or(0) as u16;
        out.push(v as u8);
        c = v >> 8;
    }
    out
}
fn small(b: &[u8]) -> Option<u64> {
    b[8..].iter().all(|x| *x == 0).then(|| u64::from_le_bytes(b[..8].try_into().unwrap()))
}
/// A JSON token that denotes this field element.
pub fn spell(r: &mut Rng, v: &Fr) -> String {
    let (a, m) = (le(v), le(&-*v));
    loop {
        match r.below(7) {
            0 | 1 => {
                if let Some(u) = small(&a) {
                    return u.to_string();
                }
            }
            2 => {
                if let Some(u) = small(&m).filter(|u| *u != 0 && *u <= 1 << 63) {
                    return format!("-{}", u);
                }
            }
            3 | 4 => return format!("\"{}\"", decimal(&a)),
            5 => {
                let mut x = a.clone();
                for _ in 0..1 + r.below(5) {
                    x = plus(&x, &prime());
                }
                return format!("\"{}\"", decimal(&x));
            }
            _ => {
                let mut x = m.clone();
                for _ in 0..r.below(3) {
                    x = plus(&x, &prime());
                }
                if x.iter().any(|b| *b != 0) {
                    return format!("\"-{}\"", decimal(&x));
                }
            }
        }
    }
}
/// Field elements as people write them, and at the edges of 64 bits.
pub fn value(r: &mut Rng) -> Fr {
    match r.below(8) {
        0 => Fr::from(u64::MAX - r.below(3)),
        1 => Fr::from((1u64 << 63) - 1 + r.below(3)),
        2 => -Fr::from((1u64 << 63) - r.below(3)),
        3 => Fr::from((1u64 << 53) - 1 + r.below(3)),
        4 => -Fr::from(r.below(1 << 33)),
        _ => fr(r),
    }
}

// ------------------------------------------------------------------------------------------------ scenes
#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub dims: Vec<usize>,
    pub first: u32,
}
impl Sig {
    pub fn count(&self) -> usize {
        self.dims.iter().product()
    }
}
/// A circuit with named signals.
#[derive(Clone)]
pub struct Scene {
    pub k: Circ,
    /// Public signals, outputs first, in wire order.
    pub public: Vec<Sig>,
    pub private: Vec<Sig>,
    pub sym: String,
    pub free: HashMap<u32, Fr>,
    pub w: Vec<Fr>,
}
fn names(r: &mut Rng, x: &Names, taken: &mut HashSet<String>) -> String {
    loop {
        let letter = |r: &mut Rng| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"[r.us(53)] as char;
        let n = match r.below(6) {
            0 => letter(r).to_string(),
            1 if !taken.is_empty() => {
                // Near an existing name.
                let mut o: Vec<_> = taken.iter().cloned().collect();
                o.sort();
                let b = r.pick(&o).clone();
                match r.below(4) {
                    0 => format!("{}{}", b, r.below(10)),
                    1 => format!("{}{}", letter(r), b),
                    2 => {
                        let mut s = b.clone();
                        s.pop();
                        s
                    }
                    _ => b.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                }
            }
            2 if !x.dict.is_empty() => r.pick(&x.dict).clone(),
            _ => {
                let k = 1 + r.us(12);
                let mut s = letter(r).to_string();
                for _ in 0..k {
                    s.push(if r.chance(1, 4) { (b'0' + r.below(10) as u8) as char } else { letter(r) });
                }
                s
            }
        };
        let ok = n.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '$');
        if ok && taken.insert(n.clone()) {
            return n;
        }
    }
}
pub struct Names {
    dict: Vec<String>,
}
impl Names {
    pub fn new(x: &Ctx) -> Names {
        Names { dict: x.dict_strs.iter().filter(|s| s.len() < 24 && !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_') && !s.as_bytes()[0].is_ascii_digit()).cloned().collect() }
    }
}
/// Split wires first..first+n into signals.
fn signals(r: &mut Rng, x: &Names, taken: &mut HashSet<String>, first: usize, n: usize) -> Vec<Sig> {
    let mut out = vec![];
    let mut at = 0;
    while at < n {
        let left = n - at;
        let dims = match r.below(6) {
            0 | 1 => vec![],
            2 | 3 => vec![1 + r.us(left.min(14))],
            4 => vec![1 + r.us(3), 1 + r.us(4)],
            _ => vec![1 + r.us(2), 1 + r.us(3), 1 + r.us(3)],
        };
        if dims.iter().product::<usize>() > left {
            continue;
        }
        let s = Sig { name: names(r, x, taken), dims, first: (first + at) as u32 };
        at += s.count();
        out.push(s);
    }
    out
}
/// Each element's index suffix, in wire order.
fn suffixes(dims: &[usize]) -> Vec<String> {
    match dims {
        [] => vec![String::new()],
        [d, rest @ ..] => (0..*d).flat_map(|i| suffixes(rest).into_iter().map(move |s| format!("[{}]{}", i, s))).collect(),
    }
}
pub fn symbols(r: &mut Rng, k: &Circ, public: &[Sig], private: &[Sig]) -> String {
    let mut lines: Vec<(i64, String)> = vec![];
    for s in public.iter().chain(private) {
        for (i, x) in suffixes(&s.dims).into_iter().enumerate() {
            lines.push((s.first as i64 + i as i64, format!("main.{}{}", s.name, x)));
        }
    }
    let mids: Vec<usize> = (k.n_pub() + k.m.n_prv_in as usize + 1..k.m.n_wires as usize).collect();
    for w in &mids {
        lines.push((*w as i64, format!("main.{}[{}].{}", ["sub", "hash", "n2b"][r.us(3)], w, ["out", "in", "a"][r.us(3)])));
    }
    for i in 0..r.us(4) {
        lines.push((-1, format!("main.gone[{}]", i)));
        lines.push((-1, format!("main.sub.gone{}", i)));
    }
    if r.chance(1, 3) {
        r.shuffle(&mut lines);
    }
    let nl = if r.chance(1, 6) { "\r\n" } else { "\n" };
    let mut s = String::new();
    for (i, (w, n)) in lines.iter().enumerate() {
        s += &format!("{},{},{},{}{}", i + 1, w, r.below(200), n, nl);
    }
    s
}
pub fn scene_of(r: &mut Rng, x: &Names, k: Circ) -> Scene {
    let mut taken = HashSet::new();
    let (o, i, p) = (k.m.n_pub_out as usize, k.m.n_pub_in as usize, k.m.n_prv_in as usize);
    let mut public = signals(r, x, &mut taken, 1, o);
    public.extend(signals(r, x, &mut taken, 1 + o, i));
    let private = signals(r, x, &mut taken, 1 + o + i, p);
    let sym = symbols(r, &k, &public, &private);
    let free: HashMap<u32, Fr> = k.free.iter().map(|f| (*f, value(r))).collect();
    let w = k.solve(&free);
    Scene { k, public, private, sym, free, w }
}
pub fn scene(r: &mut Rng, x: &Names) -> Scene {
    let s = shape(r);
    let k = Circ::generate(r, &s);
    scene_of(r, x, k)
}
fn array(r: &mut Rng, dims: &[usize], at: &mut u32, tok: &mut dyn FnMut(&mut Rng, u32) -> String) -> String {
    match dims {
        [] => {
            *at += 1;
            tok(r, *at - 1)
        }
        [d, rest @ ..] => {
            let v: Vec<String> = (0..*d).map(|_| array(r, rest, at, tok)).collect();
            let sep = if r.chance(1, 3) { ", " } else { "," };
            format!("[{}]", v.join(sep))
        }
    }
}
/// The token of a signal's value.
pub fn token(r: &mut Rng, s: &Sig, tok: &mut dyn FnMut(&mut Rng, u32) -> String) -> String {
    let mut at = s.first;
    array(r, &s.dims, &mut at, tok)
}
pub fn object(r: &mut Rng, mut keys: Vec<(String, String)>) -> String {
    r.shuffle(&mut keys);
    let (nl, sp) = *r.pick(&[("", ""), ("\n", " "), ("\n  ", " "), (" ", "")]);
    format!("{{{}{}{}}}{}", nl, keys.iter().map(|(k, v)| format!("\"{}\":{}{}", k, sp, v)).collect::<Vec<_>>().join(&format!(",{}", nl)), nl, if r.chance(1, 3) { "\n" } else { "" })
}
impl Scene {
    /// Keys and tokens of the public signals.
    pub fn keys(&self, r: &mut Rng) -> Vec<(String, String)> {
        self.public.iter().map(|s| (s.name.clone(), token(r, s, &mut |r, w| spell(r, &self.w[w as usize])))).collect()
    }
    pub fn extra(&self, r: &mut Rng) -> Vec<(String, String)> {
        if r.chance(1, 2) {
            return vec![];
        }
        self.private.iter().map(|s| (s.name.clone(), token(r, s, &mut |r, w| spell(r, &self.w[w as usize])))).collect()
    }
    pub fn input(&self, r: &mut Rng) -> String {
        let mut k = self.keys(r);
        k.extend(self.extra(r));
        object(r, k)
    }
    pub fn public_hex(&self) -> Vec<String> {
        self.w[1..=self.k.n_pub()].iter().map(|v| hex(&le(v))).collect()
    }
    pub fn describe(&self) -> Value {
        json!({"outputs": self.k.m.n_pub_out, "inputs": self.k.m.n_pub_in, "wires": self.k.m.n_wires, "constraints": self.k.m.cons.len(),
            "signals": self.public.iter().map(|s| format!("{}{:?}", s.name, s.dims)).collect::<Vec<_>>()})
    }
}

// ------------------------------------------------------------------------------------------------ commands
pub fn bin() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("zkenc")
}
#[derive(Debug, Clone)]
pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub err: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> Value {
        json!({"exit": self.code, "signal": self.signal, "stderr": self.err.chars().take(400).collect::<String>()})
    }
}
pub fn zkenc(args: &[String], env: &[(&str, String)]) -> Out {
    start(&bin(), args, env, false).expect("the command starts")
}
/// Where the monitor's own files are read and written in short transfers, so are the command's.
pub fn shortly(c: &mut Command) {
    // A library built with AddressSanitizer cannot be loaded that way.
    if let Some(s) = short::now().filter(|_| std::env::var_os("VERIF_ASAN").is_none()) {
        c.env("LD_PRELOAD", bin().with_file_name("libshort.so")).env("VERIF_SHORT", s.to_string());
    }
}
/// The command at `bin`, as the unprivileged user if `nobody`. None: it cannot be started that way.
fn start(bin: &Path, args: &[String], env: &[(&str, String)], nobody: bool) -> Option<Out> {
    let mut c = Command::new(bin);
    c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "2");
    for (k, v) in env {
        c.env(k, v);
    }
    if !nobody {
        shortly(&mut c);
    }
    // AddressSanitizer maps its shadow over terabytes.
    let shadowed = std::env::var_os("VERIF_ASAN").is_some();
    unsafe {
        c.pre_exec(move || {
            let lim = |r, v| libc::setrlimit(r, &libc::rlimit { rlim_cur: v, rlim_max: v });
            lim(libc::RLIMIT_CPU, 60);
            if !shadowed {
                lim(libc::RLIMIT_AS, 4 << 30);
            }
            lim(libc::RLIMIT_CORE, 0);
            if nobody && (libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0) {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    let o = c.output().ok()?;
    Some(Out { code: o.status.code(), signal: o.status.signal(), err: String::from_utf8_lossy(&o.stderr).to_string() })
}
/// Run jobs on eight threads, keeping their order.
pub fn par<T: Send, J: FnOnce() -> T + Send>(jobs: Vec<J>) -> Vec<T> {
    let n = jobs.len();
    let jobs: Vec<Mutex<Option<J>>> = jobs.into_iter().map(|j| Mutex::new(Some(j))).collect();
    let out: Vec<Mutex<Option<T>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let next = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8.min(n) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                let j = jobs[i].lock().unwrap().take().unwrap();
                *out[i].lock().unwrap() = Some(j());
            });
        }
    });
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}
/// Run a command while a pipe at `path` gives it these bytes, in pieces of these sizes.
fn piped(c: &Cmd, path: &Path, b: &[u8], pieces: &[usize]) -> Out {
    let _ = std::fs::remove_file(path);
    let name = std::ffi::CString::new(path.to_string_lossy().as_bytes()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(name.as_ptr(), 0o600) }, 0);
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        s.spawn(|| {
            // Without waiting for a reader that never comes.
            let fd = loop {
                let fd = unsafe { libc::open(name.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK | libc::O_CLOEXEC) };
                if fd >= 0 || done.load(Ordering::SeqCst) {
                    break fd;
                }
                std::thread::sleep(std::time::Duration::from_micros(300));
            };
            let (mut at, mut i) = (0, 0);
            while fd >= 0 && at < b.len() && !done.load(Ordering::SeqCst) {
                let n = pieces[i % pieces.len()].min(b.len() - at);
                let k = unsafe { libc::write(fd, b[at..].as_ptr() as *const _, n) };
                if k > 0 {
                    at += k as usize;
                    i += 1;
                } else if std::io::Error::last_os_error().kind() != std::io::ErrorKind::WouldBlock {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
            if fd >= 0 {
                unsafe { libc::close(fd) };
            }
            // Whoever opens the pipe once more finds it empty, and does not wait for ever.
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(5));
                let fd = unsafe { libc::open(name.as_ptr(), libc::O_WRONLY | libc::O_NONBLOCK | libc::O_CLOEXEC) };
                if fd >= 0 {
                    unsafe { libc::close(fd) };
                }
            }
        });
        let o = c.run();
        done.store(true, Ordering::SeqCst);
        o
    })
}
/// A command with its files.
#[derive(Clone)]
pub struct Cmd {
    pub name: &'static str,
    pub inputs: Vec<(&'static str, PathBuf)>,
    pub outputs: Vec<(&'static str, PathBuf)>,
    pub extra: Vec<&'static str>,
}
impl Cmd {
    pub fn args(&self) -> Vec<String> {
        let mut a = vec![self.name.to_string()];
        for (f, p) in self.inputs.iter().chain(&self.outputs) {
            a.push(format!("--{}", f));
            a.push(p.to_string_lossy().to_string());
        }
        a.extend(self.extra.iter().map(|s| s.to_string()));
        a
    }
    pub fn run(&self) -> Out {
        zkenc(&self.args(), &[])
    }
    pub fn out(&self, i: usize) -> Option<Vec<u8>> {
        std::fs::read(&self.outputs[i].1).ok()
    }
    /// The same with other output files.
    pub fn to(&self, dir: &Path, tag: &str) -> Cmd {
        let mut c = self.clone();
        for (n, p) in c.outputs.iter_mut() {
            *p = dir.join(format!("{}-{}", tag, n));
        }
        c
    }
    pub fn with(&self, input: &str, p: &Path) -> Cmd {
        let mut c = self.clone();
        c.inputs.iter_mut().find(|i| i.0 == input).unwrap().1 = p.to_path_buf();
        c
    }
}
pub struct Files {
    pub dir: PathBuf,
}
impl Files {
    pub fn new(base: &Path, tag: &str) -> Files {
        let dir = base.join(tag);
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        Files { dir }
    }
    pub fn put(&self, n: &str, b: impl AsRef<[u8]>) -> PathBuf {
        let p = self.dir.join(n);
        std::fs::write(&p, b).unwrap();
        p
    }
    pub fn at(&self, n: &str) -> PathBuf {
        self.dir.join(n)
    }
    /// All the files of a scene.
    pub fn scene(&self, r: &mut Rng, s: &Scene) {
        self.put("c.r1cs", file(&s.k.m));
        self.put("c.sym", &s.sym);
        self.put("in.json", s.input(r));
        self.put("w.wtns", wtns(&s.w));
    }
    pub fn encap(&self) -> Cmd {
        Cmd { name: "encap", inputs: vec![("circuit", self.at("c.r1cs")), ("sym", self.at("c.sym")), ("input", self.at("in.json"))], outputs: vec![("ciphertext", self.at("o.ct")), ("key", self.at("o.key"))], extra: vec![] }
    }
    pub fn decap(&self) -> Cmd {
        Cmd { name: "decap", inputs: vec![("circuit", self.at("c.r1cs")), ("witness", self.at("w.wtns")), ("ciphertext", self.at("o.ct"))], outputs: vec![("key", self.at("d.key"))], extra: vec![] }
    }
    pub fn encrypt(&self, embed: bool) -> Cmd {
        Cmd {
            name: "encrypt",
            inputs: vec![("circuit", self.at("c.r1cs")), ("sym", self.at("c.sym")), ("input", self.at("in.json")), ("message", self.at("msg"))],
            outputs: vec![("output", self.at("o.enc"))],
            extra: if embed { vec![] } else { vec!["--no-public-input"] },
        }
    }
    pub fn decrypt(&self) -> Cmd {
        Cmd { name: "decrypt", inputs: vec![("circuit", self.at("c.r1cs")), ("witness", self.at("w.wtns")), ("ciphertext", self.at("o.enc"))], outputs: vec![("output", self.at("d.msg"))], extra: vec![] }
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// The parts of a combined ciphertext.
#[derive(Debug, Clone)]
pub struct Combined {
    pub flag: u8,
    pub ct: Vec<u8>,
    pub public: Option<Vec<u8>>,
    pub sealed: Vec<u8>,
}
pub fn split(b: &[u8]) -> Option<Combined> {
    let u = |i: usize| Some(u32::from_be_bytes(b.get(i..i + 4)?.try_into().unwrap()) as usize);
    let flag = *b.first()?;
    let n = u(1)?;
    let ct = b.get(5..5 + n)?.to_vec();
    let mut at = 5 + n;
    let mut public = None;
    if flag == 1 {
        let m = u(at)?;
        public = Some(b.get(at + 4..at + 4 + m)?.to_vec());
        at += 4 + m;
    }
    Some(Combined { flag, ct, public, sealed: b[at..].to_vec() })
}
pub fn carried(ct: &[u8]) -> Vec<String> {
    Ct::deserialize_compressed(ct).map(|d| d.public_inputs.iter().map(|v| hex(&le(v))).collect()).unwrap_or(vec!["not a ciphertext".into()])
}
/// Why this is not how a failing command ends, or None.
pub fn improper(o: &Out, c: &Cmd, before: &[Option<Vec<u8>>]) -> Option<String> {
    if o.signal.is_some() {
        return Some("was ended by a signal".into());
    }
    if o.code == Some(101) || o.err.contains("panicked at") {
        return Some("panicked".into());
    }
    if o.ok() {
        return Some("reported success".into());
    }
    if o.err.trim().is_empty() {
        return Some("gave no message".into());
    }
    for (i, b) in before.iter().enumerate() {
        if c.out(i) != *b {
            return Some(format!("failed, yet its output file --{} is {}", c.outputs[i].0, if c.out(i).is_none() { "gone" } else { "written" }));
        }
    }
    None
}
/// Commands that run at the same time write different files: of several that share one, only the first stays.
fn apart<J>(jobs: &mut Vec<J>, cmd: impl Fn(&J) -> &Cmd) {
    let mut taken = HashSet::new();
    jobs.retain(|j| cmd(j).outputs.iter().all(|o| taken.insert(o.1.clone())));
}
/// Commands that have to fail.
fn must_fail(c: &mut Case, mut jobs: Vec<(Cmd, Value)>, sentinels: bool) {
    apart(&mut jobs, |j| &j.0);
    let res = par(
        jobs.iter()
            .enumerate()
            .map(|(i, (cmd, _))| {
                let old = sentinels && i % 2 == 1;
                move || {
                    let before: Vec<_> = cmd
                        .outputs
                        .iter()
                        .map(|(_, p)| {
                            if old {
                                std::fs::write(p, b"what was here before").unwrap();
                            }
                            std::fs::read(p).ok()
                        })
                        .collect();
                    let o = cmd.run();
                    let e = improper(&o, cmd, &before);
                    for (_, p) in &cmd.outputs {
                        let _ = std::fs::remove_file(p);
                    }
                    (o, e)
                }
            })
            .collect(),
    );
    for ((cmd, d), (o, e)) in jobs.iter().zip(res) {
        c.ops += 1;
        c.count(&format!("{}_refused", cmd.name), 1);
        if let Some(e) = e {
            c.fail(format!("a command that cannot do its work {}", e), json!({"command": cmd.name, "why_it_cannot": d, "ended": o.show()}));
        }
    }
}
/// A command that has to succeed.
fn succeeds(c: &mut Case, cmd: &Cmd) -> bool {
    let o = cmd.run();
    c.count(&format!("{}_succeeded", cmd.name), o.ok() as u64);
    c.check(o.ok(), "a command failed on valid files", || json!({"command": cmd.name, "ended": o.show()}))
}

// ------------------------------------------------------------------------------------------------ C28
pub fn c28(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    let sizes: Vec<usize> = x.interesting(70_000).into_iter().map(|v| v as usize).collect();
    let one = |r: &mut Rng, s: &Scene, f: &Files, size: usize| -> (Vec<(String, Value)>, u64) {
        let mut bad: Vec<(String, Value)> = vec![];
        let mut n = 0;
        f.scene(r, s);
        let msg = r.content(size);
        f.put("msg", &msg);
        let mut step = |c: &Cmd| -> bool {
            n += 1;
            let o = c.run();
            if !o.ok() {
                bad.push((format!("{} failed on valid files", c.name), o.show()));
            }
            o.ok()
        };
        let embed = r.chance(1, 2);
        let (e, d, en, de) = (f.encap(), f.decap(), f.encrypt(embed), f.decrypt());
        if r.chance(1, 3) {
            // Longer files that stand where the outputs go.
            for p in [&e.outputs[0].1, &e.outputs[1].1, &d.outputs[0].1, &en.outputs[0].1, &de.outputs[0].1] {
                std::fs::write(p, vec![7u8; size + 40000]).unwrap();
            }
        }
        let (a, b) = (step(&e) && step(&d), step(&en) && step(&de));
        let st = Setup::new(&s.k.m, &f.dir);
        if a {
            let (k, l) = (e.out(1).unwrap_or_default(), d.out(0).unwrap_or_default());
            if k != l || k.len() != 32 {
                bad.push(("the key decapsulated is not the key encapsulated".into(), json!({"encapsulated": hex(&k), "decapsulated": hex(&l)})));
            }
            let t = *r.pick(&[Tool::Core, Tool::Js]);
            match st.decap_all(t, &s.w, &e.out(0).unwrap()) {
                Ok(l) if l == k => {}
                o => bad.push(("another tool does not recover the command's key".into(), json!({"tool": format!("{:?}", t), "got": format!("{:?}", o.map(|k| hex(&k))), "key": hex(&k)}))),
            }
            n += 1;
        }
        if b {
            let got = de.out(0).unwrap_or_default();
            if got != msg {
                bad.push(("the message decrypted is not the message encrypted".into(), json!({"bytes_in": msg.len(), "bytes_out": got.len()})));
            }
        }
        // A ciphertext of another tool, opened by the command.
        let t = *r.pick(&[Tool::Core, Tool::Js]);
        if let Ok((ct, key)) = st.encap(t, &s.w) {
            f.put("o.ct", &ct);
            n += 1;
            let o = d.run();
            if !o.ok() || d.out(0).unwrap_or_default() != key {
                bad.push(("the command does not recover another tool's key".into(), json!({"tool": format!("{:?}", t), "ended": o.show()})));
            }
        }
        (bad, n)
    };
    x.run("commands", x.q(50, 2000), |c| {
        let jobs: Vec<_> = (0..8)
            .map(|i| {
                let s = scene(&mut c.rng, &names);
                let size = if c.rng.chance(1, 2) { c.rng.size(3000) } else { sizes[c.rng.us(sizes.len())] };
                let mut r = Rng::new(c.rng.u64());
                let f = Files::new(&dir, &format!("k{}", i));
                (s, size, r.u64(), f)
            })
            .collect();
        c.sample(jobs[0].0.describe());
        c.key(h64(&jobs.iter().map(|j| j.2).collect::<Vec<_>>()));
        let one = &one;
        let res = par(jobs.iter().map(|(s, size, sd, f)| move || one(&mut Rng::new(*sd), s, f, *size)).collect());
        for ((s, size, ..), (bad, n)) in jobs.iter().zip(res) {
            c.ops += n;
            c.count("commands_run", n);
            for (m, d) in bad {
                c.fail(m, json!({"scene": s.describe(), "message_bytes": size, "detail": d}));
            }
        }
    });
    // Messages of the sizes the sources name.
    x.run("sizes", sizes.len().div_ceil(24) as u64, |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "sz");
        f.scene(&mut c.rng, &s);
        let mine: Vec<usize> = sizes.iter().copied().skip(c.idx as usize * 24).take(24).collect();
        let res = par(
            mine.iter()
                .map(|n| {
                    let (f, msg) = (&f, c.rng.content(*n));
                    move || {
                        let (mut e, mut d) = (f.encrypt(n % 2 == 0).to(&f.dir, &format!("e{}", n)), f.decrypt().to(&f.dir, &format!("d{}", n)));
                        e = e.with("message", &f.put(&format!("m{}", n), &msg));
                        d = d.with("ciphertext", &e.outputs[0].1);
                        let a = e.run();
                        let b = d.run();
                        let got = d.out(0).unwrap_or_default();
                        (a.ok() && b.ok() && got == msg, got.len(), a, b)
                    }
                })
                .collect(),
        );
        c.key(c.idx);
        c.sample(json!({"message_sizes": mine}));
        for (n, (ok, len, a, b)) in mine.iter().zip(res) {
            c.count("message_sizes", 1);
            c.check(ok, "encrypt and decrypt do not give the message back", || json!({"bytes_in": n, "bytes_out": len, "encrypt": a.show(), "decrypt": b.show()}));
        }
    });
    // A message longer than buffers and limits of 2^24 bytes.
    x.run("long", x.q(1, 4), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "lg");
        f.scene(&mut c.rng, &s);
        let n = (1 << 24 << c.idx) + 1 + c.rng.us(1 << 20);
        let msg = c.rng.content(n);
        f.put("msg", &msg);
        c.key(n);
        c.max("longest_message", n as u64);
        if succeeds(c, &f.encrypt(true)) && succeeds(c, &f.decrypt()) {
            let got = f.decrypt().out(0).unwrap_or_default();
            c.check(got == msg, "the message decrypted is not the message encrypted", || json!({"bytes_in": n, "bytes_out": got.len()}));
        }
    });
    // Messages and ciphertexts that come through a pipe, piece by piece: their length is not known beforehand.
    x.run("pipes", x.q(12, 400), |c| {
        let jobs: Vec<_> = (0..8)
            .map(|i| {
                let s = scene(&mut c.rng, &names);
                let f = Files::new(&dir, &format!("pp{}", i));
                f.scene(&mut c.rng, &s);
                let n = if c.rng.chance(1, 3) { c.rng.us(200_000) } else { c.rng.size(5000) };
                let pieces: Vec<usize> = (0..1 + c.rng.us(4)).map(|_| if c.rng.chance(1, 2) { 4096 } else { 200 + c.rng.us(9000) }).collect();
                (f, c.rng.content(n), pieces, c.rng.chance(1, 2))
            })
            .collect();
        c.key(h64(&jobs.iter().map(|j| &j.1).collect::<Vec<_>>()));
        let res = par(
            jobs.iter()
                .map(|(f, msg, pieces, embed)| {
                    move || -> Result<(), (String, Value)> {
                        let p = f.at("pipe");
                        let ok = |o: Out, what: &str| if o.ok() { Ok(()) } else { Err((format!("{} failed on what a pipe gave it", what), o.show())) };
                        ok(piped(&f.encrypt(*embed).with("message", &p), &p, msg, pieces), "encrypt")?;
                        let e = f.encrypt(*embed).out(0).unwrap_or_default();
                        ok(f.decrypt().run(), "decrypt, which reads a file,")?;
                        if f.decrypt().out(0).as_deref() != Some(msg) {
                            return Err(("a message encrypted from a pipe does not come back".into(), Value::Null));
                        }
                        let d = f.decrypt().to(&f.dir, "again").with("ciphertext", &p);
                        ok(piped(&d, &p, &e, pieces), "decrypt")?;
                        if d.out(0).as_deref() != Some(msg) {
                            return Err(("a ciphertext decrypted from a pipe does not give the message".into(), Value::Null));
                        }
                        ok(f.encap().run(), "encap, which reads files,")?;
                        let (ct, key) = (f.encap().out(0).unwrap_or_default(), f.encap().out(1));
                        ok(piped(&f.decap().with("ciphertext", &p), &p, &ct, pieces), "decap")?;
                        if f.decap().out(0) != key {
                            return Err(("a ciphertext decapsulated from a pipe does not give the key".into(), Value::Null));
                        }
                        Ok(())
                    }
                })
                .collect(),
        );
        for ((_, msg, pieces, _), r) in jobs.iter().zip(res) {
            c.ops += 3;
            c.count("commands_fed_by_a_pipe", 3);
            if let Err((m, d)) = r {
                c.fail(m, json!({"message_bytes": msg.len(), "pieces": pieces, "detail": d}));
            }
        }
    });
    // Messages that begin or end in what a reader of text might drop.
    let edges = edge_messages();
    x.run("edges", 4, |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "ed");
        f.scene(&mut c.rng, &s);
        let mine: Vec<(usize, &Vec<u8>)> = edges.iter().enumerate().skip(c.idx as usize).step_by(4).collect();
        let res = par(
            mine.iter()
                .map(|(n, msg)| {
                    let f = &f;
                    move || {
                        let (mut e, mut d) = (f.encrypt(n % 2 == 0).to(&f.dir, &format!("e{}", n)), f.decrypt().to(&f.dir, &format!("d{}", n)));
                        e = e.with("message", &f.put(&format!("m{}", n), msg));
                        d = d.with("ciphertext", &e.outputs[0].1);
                        let a = e.run();
                        let b = d.run();
                        (a, b, d.out(0).unwrap_or_default())
                    }
                })
                .collect(),
        );
        c.key(c.idx);
        for ((_, m), (a, b, got)) in mine.iter().zip(res) {
            c.count("messages_with_edges", 1);
            c.check(a.ok() && b.ok() && got == **m, "encrypt and decrypt do not give the message back", || json!({"message": hex(m), "decrypted": hex(&got), "encrypt": a.show(), "decrypt": b.show()}));
        }
    });
    // Input files of every shape, large ones among them, embedded in the ciphertext.
    x.run("inputs", x.q(24, 400), |c| {
        let outs = if c.idx % 2 == 0 { 0 } else { c.rng.us(3) };
        let ins = if c.idx % 3 == 0 { 0 } else { c.rng.us(4) };
        let (prv, mid) = (1 + c.rng.us(3), c.rng.us(5));
        let k = Circ::generate(&mut c.rng, &Shape { outs, ins, prv, mid, lc: 2 });
        let s = scene_of(&mut c.rng, &names, k);
        let f = Files::new(&dir, "in");
        f.scene(&mut c.rng, &s);
        let mut keys = s.keys(&mut c.rng);
        let text = match c.idx {
            0 | 3 if s.public.is_empty() => "{}".to_string(),
            6 if s.public.is_empty() => " { } \n".to_string(),
            _ => {
                let n = match c.idx % 5 {
                    0 => 65535 + c.rng.us(40),
                    1 => 70_000 + c.rng.us(200_000),
                    2 => 1_048_000 + c.rng.us(900),
                    3 => 250 + c.rng.us(20),
                    _ => 0,
                };
                if c.rng.chance(1, 2) {
                    let v: Vec<String> = (0..n / 3).map(|_| c.rng.below(10).to_string()).collect();
                    keys.push(("spare!".into(), format!("[{}]", v.join(", "))));
                    object(&mut c.rng, keys)
                } else {
                    object(&mut c.rng, keys) + &" ".repeat(n)
                }
            }
        };
        c.key(h64(&text));
        c.max("longest_input_file", text.len() as u64);
        c.input(json!({"scene": s.describe(), "input_bytes": text.len()}));
        f.put("in.json", &text);
        let n = c.rng.size(300);
        let msg = c.rng.content(n);
        f.put("msg", &msg);
        for embed in [true, false] {
            if succeeds(c, &f.encrypt(embed)) && succeeds(c, &f.decrypt()) {
                c.check(f.decrypt().out(0).as_ref() == Some(&msg), "the message decrypted is not the message encrypted", || json!({"embedded": embed, "input_bytes": text.len()}));
                let p = split(&f.encrypt(embed).out(0).unwrap());
                c.check(p.as_ref().is_some_and(|p| p.public.as_deref() == embed.then_some(text.as_bytes()) && p.sealed.len() == msg.len() + 28), "the combined file does not embed the input file's text as asked", || json!({"embedded": embed, "input_bytes": text.len()}));
            }
        }
    });
    // The committed circuits with their committed inputs and witnesses.
    let t = crate::m_wtns::repo().join("packages/zkenc-cli/tests");
    let fx = [("sudoku", "sudoku_basic", "sudoku_sudoku_basic"), ("sudoku", "sudoku_general", "sudoku_sudoku_general"), ("signature", "signature_basic", "signature_signature_basic"), ("signature", "signature_boundary", "signature_signature_boundary"), ("signature", "signature_general", "signature_signature_general")];
    x.run("committed", if x.thorough { 5 } else { 3 }, |c| {
        let (n, i, w) = fx[c.idx as usize];
        let f = Files::new(&dir, "fx");
        for (a, b) in [(format!("r1cs/{}.r1cs", n), "c.r1cs"), (format!("r1cs/{}.sym", n), "c.sym"), (format!("inputs/{}.json", i), "in.json"), (format!("inputs/{}.wtns", w), "w.wtns")] {
            std::fs::copy(t.join(a), f.at(b)).unwrap();
        }
        let msg = c.rng.content(1000);
        f.put("msg", &msg);
        c.key(i);
        c.sample(json!({"circuit": n, "input": i}));
        if succeeds(c, &f.encap()) && succeeds(c, &f.decap()) {
            c.check(f.encap().out(1) == f.decap().out(0), "the key decapsulated is not the key encapsulated", || json!({"input": i}));
        }
        if succeeds(c, &f.encrypt(true)) && succeeds(c, &f.decrypt()) {
            c.check(f.decrypt().out(0) == Some(msg), "the message decrypted is not the message encrypted", || json!({"input": i}));
        }
    });
}

// ------------------------------------------------------------------------------------------------ C29 C30
/// A scene with a key and a message locked for its public input.
fn locked(c: &mut Case, s: &Scene, f: &Files) -> bool {
    f.scene(&mut c.rng, s);
    let n = c.rng.size(200);
    f.put("msg", c.rng.clone().content(n));
    succeeds(c, &f.encap()) && succeeds(c, &f.encrypt(c.idx % 2 == 0))
}
fn openers(f: &Files, tag: &str, wp: &Path) -> [Cmd; 2] {
    [f.decap().with("witness", wp).to(&f.dir, &format!("{}k", tag)), f.decrypt().with("witness", wp).to(&f.dir, &format!("{}m", tag))]
}
pub fn c29(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    x.run("commands", x.q(180, 6000), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "w");
        c.input(s.describe());
        c.sample(s.describe());
        c.key(h64(&file(&s.k.m)));
        if !locked(c, &s, &f) {
            return;
        }
        let n = s.k.m.n_wires as usize;
        let mut jobs = vec![];
        let mut wires: Vec<usize> = (1..n).collect();
        c.rng.shuffle(&mut wires);
        for (i, wire) in wires.iter().take(8).enumerate() {
            let mut v = s.w.clone();
            v[*wire] = near(&mut c.rng, v[*wire]);
            let Some(k) = broken(&s.k.m, &v) else {
                c.count("changes_that_break_nothing", 1);
                continue;
            };
            let p = f.put(&format!("b{}.wtns", i), wtns(&v));
            for cmd in openers(&f, &format!("b{}", i), &p) {
                jobs.push((cmd, json!({"changed_wire": wire, "breaks_constraint": k})));
            }
        }
        for i in 0..3 {
            // A wire without a value: constraints over it cannot hold.
            let keep = c.rng.us(n);
            let p = f.put(&format!("s{}.wtns", i), wtns(&s.w[..keep]));
            for cmd in openers(&f, &format!("s{}", i), &p) {
                jobs.push((cmd, json!({"values": keep, "wires": n})));
            }
        }
        must_fail(c, jobs, true);
    });
}
pub fn c30(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    x.run("commands", x.q(180, 6000), |c| {
        let s = loop {
            let s = scene(&mut c.rng, &names);
            if !s.k.free_pub.is_empty() {
                break s;
            }
        };
        let f = Files::new(&dir, "p");
        c.input(s.describe());
        c.sample(s.describe());
        c.key(h64(&file(&s.k.m)));
        if !locked(c, &s, &f) {
            return;
        }
        let n = s.k.n_pub();
        let mut jobs = vec![];
        let mut wires = s.k.free_pub.clone();
        c.rng.shuffle(&mut wires);
        for (i, wire) in wires.iter().take(6).enumerate() {
            let mut free = s.free.clone();
            free.insert(*wire, near(&mut c.rng, free[wire]));
            let v = s.k.solve(&free);
            assert!(broken(&s.k.m, &v).is_none() && v[..=n] != s.w[..=n]);
            let p = f.put(&format!("b{}.wtns", i), wtns(&v));
            for cmd in openers(&f, &format!("b{}", i), &p) {
                jobs.push((cmd, json!({"changed_public_wire": wire, "public": n})));
            }
        }
        must_fail(c, jobs, true);
    });
}

// ------------------------------------------------------------------------------------------------ C31
/// Input texts that leave a public value out or give something that is no number.
fn wrong_inputs(r: &mut Rng, s: &Scene) -> Vec<(String, Value)> {
    let mut out = vec![];
    let mut make = |r: &mut Rng, i: usize, key: Option<String>, v: Option<String>, why: &str| {
        let mut keys = s.keys(r);
        let (k, _) = keys[i].clone();
        match v {
            None => {
                keys.remove(i);
            }
            Some(v) => keys[i] = (key.unwrap_or(k), v),
        }
        keys.extend(s.extra(r));
        out.push((object(r, keys), json!({"signal": format!("{}{:?}", s.public[i].name, s.public[i].dims), "fault": why})));
    };
    for (i, g) in s.public.iter().enumerate() {
        make(r, i, None, None, "left out");
        let full = |r: &mut Rng| token(r, g, &mut |r, w| spell(r, &s.w[w as usize]));
        let t = full(r);
        let flip: String = g.name.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        let others: Vec<&String> = s.public.iter().chain(&s.private).map(|o| &o.name).collect();
        for (n, why) in [(format!("{}_", g.name), "name longer"), (format!(" {}", g.name), "name with a blank"), (flip, "name in other case"), (format!("main.{}", g.name), "name with main.")] {
            if !others.contains(&&n) {
                make(r, i, Some(n), Some(t.clone()), why);
            }
        }
        let bad = *r.pick(&["null", "true", "false", "{}", "[]", "\"\"", "\"abc\"", "\"1.5\"", "1.5", "-0.25", "0.5", "1234567890.75", "\"12abc\"", "\"one\"", "\"1,2\"", "\"--1\"", "\"-\"", "{\"0\":1}"]);
        let pos = g.first as usize + r.us(g.count());
        let v = token(r, g, &mut |r, w| if w as usize == pos { bad.to_string() } else { spell(r, &s.w[w as usize]) });
        make(r, i, None, Some(v), bad);
        if g.dims.is_empty() {
            make(r, i, None, Some(format!("[{}]", t)), "array for a scalar");
        } else {
            let v = spell(r, &s.w[g.first as usize]);
            make(r, i, None, Some(v), "scalar for an array");
            let mut h = g.clone();
            let d = r.us(h.dims.len());
            h.dims[d] -= 1;
            let v = token(r, &h, &mut |r, w| spell(r, &s.w[w as usize]));
            make(r, i, None, Some(v), "array too short");
            make(r, i, None, Some(format!("[{}]", t)), "array too deep");
            if g.dims.len() > 1 {
                let mut h = g.clone();
                h.dims = vec![g.count()];
                let v = token(r, &h, &mut |r, w| spell(r, &s.w[w as usize]));
                make(r, i, None, Some(v), "array flattened");
            }
        }
    }
    out
}
pub fn c31(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    let bound = |c: &mut Case, s: &Scene, f: &Files, rounds: usize| {
        f.put("c.r1cs", file(&s.k.m));
        f.put("c.sym", &s.sym);
        f.put("msg", b"message");
        let want = s.public_hex();
        let ins: Vec<String> = (0..rounds).map(|_| s.input(&mut c.rng)).collect();
        let res = par(
            ins.iter()
                .enumerate()
                .map(|(i, t)| {
                    let f = &f;
                    move || {
                        let p = f.put(&format!("i{}.json", i), t);
                        let e = f.encap().to(&f.dir, &format!("e{}", i)).with("input", &p);
                        let n = f.encrypt(i % 2 == 0).to(&f.dir, &format!("n{}", i)).with("input", &p);
                        let (a, b) = (e.run(), n.run());
                        (carried(&e.out(0).unwrap_or_default()), n.out(0).and_then(|o| split(&o)).map(|s| carried(&s.ct)).unwrap_or_default(), a, b)
                    }
                })
                .collect(),
        );
        for (t, (a, b, oa, ob)) in ins.iter().zip(res) {
            for (n, got, o) in [("encap", a, oa), ("encrypt", b, ob)] {
                c.count("ciphertexts_compared", 1);
                c.check(o.ok() && got == want, "the ciphertext does not carry exactly the public values in wire order", || {
                    let brief = |v: &[String]| json!({"values": v.len(), "first": v[..v.len().min(40)]});
                    json!({"command": n, "input": t.chars().take(600).collect::<String>(), "carries": brief(&got), "public": brief(&want), "first_difference": got.iter().zip(&want).position(|(a, b)| a != b), "ended": o.show()})
                });
            }
        }
    };
    x.run("commands", x.q(180, 6000), |c| {
        let mut sh = shape(&mut c.rng);
        if c.idx % 6 == 5 {
            // No private wire at all.
            (sh.prv, sh.mid) = (0, 0);
        }
        let k = Circ::generate(&mut c.rng, &sh);
        let s = scene_of(&mut c.rng, &names, k);
        let f = Files::new(&dir, "b");
        c.input(s.describe());
        c.sample(s.describe());
        c.key(h64(&file(&s.k.m)));
        bound(c, &s, &f, 3);
        if s.public.is_empty() {
            return;
        }
        let mut jobs = vec![];
        let mut wrong = wrong_inputs(&mut c.rng, &s);
        c.rng.shuffle(&mut wrong);
        for (i, (t, d)) in wrong.into_iter().take(14).enumerate() {
            let p = f.put(&format!("x{}.json", i), t);
            let cmd = if i % 2 == 0 { f.encap() } else { f.encrypt(i % 4 == 1) };
            jobs.push((cmd.to(&f.dir, &format!("x{}", i)).with("input", &p), d));
        }
        // A symbol file that lacks a public wire.
        f.put("in.json", s.input(&mut c.rng));
        let wire = 1 + c.rng.us(s.k.n_pub());
        let sym: String = s.sym.lines().filter(|l| l.split(',').nth(1) != Some(&wire.to_string())).map(|l| format!("{}\n", l)).collect();
        let p = f.put("short.sym", sym);
        for cmd in [f.encap(), f.encrypt(true)] {
            jobs.push((cmd.to(&f.dir, &format!("y{}", cmd.name)).with("sym", &p), json!({"wire_not_in_the_symbol_file": wire})));
        }
        must_fail(c, jobs, true);
    });
    let sizes: Vec<u64> = x.interesting(300);
    x.run("counts", sizes.len().div_ceil(8) as u64, |c| {
        for n in sizes.iter().skip(c.idx as usize * 8).take(8).map(|n| *n as usize) {
            let outs = c.rng.us(n.min(4) + 1);
            let p = c.rng.us(3).min(1);
            let k = Circ::generate(&mut c.rng, &Shape { outs, ins: n - outs, prv: p, mid: p, lc: 2 });
            let s = scene_of(&mut c.rng, &names, k);
            let f = Files::new(&dir, "n");
            bound(c, &s, &f, 1);
        }
        c.key(c.idx);
    });
    // Long arrays: indices of four and five digits.
    x.run("arrays", x.q(3, 12), |c| {
        let dims = match c.idx % 3 {
            0 => vec![1001 + c.rng.us(1500)],
            1 => vec![2, 1001 + c.rng.us(100), 1 + c.rng.us(2)],
            _ => vec![10_001 + c.rng.us(3000), 1],
        };
        let outs = c.rng.us(3);
        let k = Circ::generate(&mut c.rng, &Shape { outs, ins: dims.iter().product(), prv: 1, mid: 1, lc: 2 });
        let mut s = scene_of(&mut c.rng, &names, k);
        s.public = (0..outs).map(|i| Sig { name: format!("out{}", i), dims: vec![], first: 1 + i as u32 }).collect();
        s.public.push(Sig { name: "long".into(), dims, first: 1 + outs as u32 });
        s.private = vec![Sig { name: "secret".into(), dims: vec![], first: 1 + s.k.n_pub() as u32 }];
        s.sym = symbols(&mut c.rng, &s.k, &s.public, &s.private);
        let f = Files::new(&dir, "ar");
        c.input(s.describe());
        c.key(h64(&s.sym));
        c.max("longest_array", s.k.n_pub() as u64);
        bound(c, &s, &f, 2);
    });
    let t = crate::m_wtns::repo().join("packages/zkenc-cli/tests");
    x.run("committed", 3, |c| {
        let (n, i, w) = [("sudoku", "sudoku_basic", "sudoku_sudoku_basic"), ("sudoku", "sudoku_general", "sudoku_sudoku_general"), ("signature", "signature_general", "signature_signature_general")][c.idx as usize];
        let f = Files::new(&dir, "fx");
        for (a, b) in [(format!("r1cs/{}.r1cs", n), "c.r1cs"), (format!("r1cs/{}.sym", n), "c.sym"), (format!("inputs/{}.json", i), "in.json")] {
            std::fs::copy(t.join(a), f.at(b)).unwrap();
        }
        let m: Model = read_r1cs(&std::fs::read(f.at("c.r1cs")).unwrap());
        let w = read_wtns(&std::fs::read(t.join(format!("inputs/{}.wtns", w))).unwrap());
        let want: Vec<String> = w[1..=(m.n_pub_in + m.n_pub_out) as usize].iter().map(|v| hex(&le(v))).collect();
        c.key(i);
        if succeeds(c, &f.encap()) {
            let got = carried(&f.encap().out(0).unwrap());
            c.check(got == want, "the ciphertext does not carry exactly the public values in wire order", || json!({"input": i, "carries": got, "public": want}));
        }
    });
}

// ------------------------------------------------------------------------------------------------ C32
pub fn c32(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    let parts = |ct: &[u8]| -> Option<Vec<Vec<u8>>> {
        let d = Ct::deserialize_compressed(ct).ok()?;
        Some(vec![bytes(&d.encap_key.alpha_g1), bytes(&d.encap_key.beta_g2), bytes(&d.encap_key.delta_g2)])
    };
    let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
    x.run("commands", x.q(4, 60), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "f");
        f.scene(&mut c.rng, &s);
        f.put("msg", b"the same message");
        c.key(c.idx);
        c.sample(s.describe());
        let res = par(
            (0..64)
                .map(|i| {
                    let f = &f;
                    move || {
                        if i % 2 == 0 {
                            let e = f.encap().to(&f.dir, &format!("e{}", i));
                            (e.run(), e.out(0).unwrap_or_default(), e.out(1).unwrap_or_default())
                        } else {
                            let e = f.encrypt(i % 4 == 1).to(&f.dir, &format!("n{}", i));
                            let o = e.run();
                            match e.out(0).and_then(|b| split(&b)) {
                                Some(p) => (o, p.ct, p.sealed),
                                None => (o, vec![], vec![]),
                            }
                        }
                    }
                })
                .collect(),
        );
        for (i, (o, ct, key)) in res.into_iter().enumerate() {
            let Some(p) = parts(&ct) else {
                c.fail("a command gave no ciphertext", o.show());
                continue;
            };
            if i % 2 == 0 {
                c.check(key.len() == 32, "the key file is not 32 bytes", || json!({"bytes": key.len()}));
            }
            for (n, v) in ["alpha", "beta", "delta", "ciphertext", "key or sealed message"].iter().zip(p.into_iter().chain([ct, key])) {
                if let Some(old) = seen.insert([n.as_bytes(), &v].concat(), format!("round {} number {}", c.idx, i)) {
                    c.fail(format!("two encapsulations share their {}", n), json!({"first": old, "second": format!("round {} number {}", c.idx, i), "value": hex(&v[..v.len().min(64)])}));
                }
            }
            c.count("command_encapsulations", 1);
            c.ops += 1;
        }
    });
    x.run("no-entropy", x.q(4, 20), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "h");
        f.scene(&mut c.rng, &s);
        f.put("msg", b"the same message");
        c.key(c.idx);
        let made: Vec<_> = (0..2)
            .map(|i| {
                let cmd = if c.idx % 2 == 1 { f.encrypt(false) } else { f.encap() }.to(&f.dir, &format!("z{}", i));
                let o = zkenc(&cmd.args(), &[("VERIF_ENTROPY_FAIL", "1".into())]);
                o.ok().then(|| cmd.out(0).unwrap_or_default())
            })
            .collect();
        c.count(if made[0].is_some() { "succeeded_without_entropy" } else { "refused_without_entropy" }, 1);
        if let [Some(a), Some(b)] = &made[..] {
            c.check(a != b, "two encapsulations without random numbers from the system are the same", || json!({"ciphertext": hex(a)}));
        }
    });
    x.run("entropy", x.q(4, 30), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "g");
        f.scene(&mut c.rng, &s);
        f.put("msg", b"the same message");
        let given = c.rng.bytes(640);
        let enc = c.idx % 2 == 1;
        let f = &f;
        let go = |tag: String, b: Vec<u8>| -> Option<(usize, Vec<Vec<u8>>)> {
            let p = f.put(&format!("{}.rnd", tag), b);
            let log = f.at(&format!("{}.log", tag));
            let cmd = if enc { f.encrypt(false) } else { f.encap() }.to(&f.dir, &tag);
            let o = zkenc(&cmd.args(), &[("VERIF_ENTROPY", p.to_string_lossy().to_string()), ("VERIF_ENTROPY_LOG", log.to_string_lossy().to_string())]);
            if !o.ok() {
                return None;
            }
            let used = std::fs::read_to_string(&log).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0);
            let (ct, key) = if enc {
                let p = split(&cmd.out(0)?)?;
                // The nonce of the sealed message, then the rest of it.
                (p.ct, p.sealed)
            } else {
                (cmd.out(0)?, cmd.out(1)?)
            };
            let mut v = parts(&ct)?;
            v.push(if enc { key.get(12..)?.to_vec() } else { key.clone() });
            if enc {
                v.push(key[..12].to_vec());
            }
            for n in [".rnd", ".log"] {
                let _ = std::fs::remove_file(f.at(&format!("{}{}", tag, n)));
            }
            Some((used, v))
        };
        c.key(c.idx);
        let (a, b) = (go("a".into(), given.clone()), go("b".into(), given.clone()));
        let (Some((used, base)), Some((_, again))) = (a, b) else {
            c.fail("a command failed under given random numbers", Value::Null);
            return;
        };
        c.check(used >= 32, "a command draws fewer than 32 random bytes", || json!({"drawn": used, "command": if enc { "encrypt" } else { "encap" }}));
        if base != again {
            c.count("not_determined_by_given_random_numbers", 1);
            return;
        }
        let flips: Vec<(usize, u8)> = (0..used.min(640)).map(|i| (i, 1 << c.rng.below(5))).collect();
        let go = &go;
        let res = par(
            flips
                .iter()
                .map(|(i, bit)| {
                    let mut v = given.clone();
                    v[*i] ^= bit;
                    move || go(format!("f{}", i), v)
                })
                .collect(),
        );
        let mut decides = vec![0usize; base.len()];
        for (_, o) in res.into_iter().flatten() {
            for j in 0..base.len() {
                decides[j] += (o[j] != base[j]) as usize;
            }
        }
        for (j, n) in ["alpha", "beta", "delta", "key", "nonce"].iter().enumerate().take(base.len()) {
            let need = if *n == "nonce" { 8 } else { 16 };
            c.check(decides[j] >= need, "too few random bytes decide a secret of the encapsulation", || json!({"secret": n, "bytes_deciding": decides[j], "bytes_drawn": used, "command": if enc { "encrypt" } else { "encap" }}));
            c.set(&format!("bytes_deciding_{}_{}", n, if enc { "encrypt" } else { "encap" }), decides[j] as u64);
        }
    });
}

// ------------------------------------------------------------------------------------------------ C33
/// Combined ciphertext with this witness ciphertext in it.
fn combine(p: &Combined, ct: &[u8]) -> Vec<u8> {
    let mut b = vec![p.flag];
    b.extend((ct.len() as u32).to_be_bytes());
    b.extend(ct);
    if let Some(t) = &p.public {
        b.extend((t.len() as u32).to_be_bytes());
        b.extend(t);
    }
    b.extend(&p.sealed);
    b
}
pub fn c33(x: &mut Ctx) {
    use ark_bn254::{G1Affine, G2Affine};
    use ark_ec::AffineRepr;
    let names = Names::new(x);
    let dir = x.scratch.clone();
    // Key and ciphertext files hold nothing but the serialised values, whatever bytes they begin and end with.
    x.run("files", x.q(6, 80), |c| {
        let k = Circ::generate(&mut c.rng, &Shape { outs: 0, ins: 1, prv: 1, mid: 0, lc: 1 });
        let s = scene_of(&mut c.rng, &names, k);
        let f = Files::new(&dir, "k");
        f.scene(&mut c.rng, &s);
        c.key(c.idx);
        c.sample(s.describe());
        let res = par(
            (0..250)
                .map(|i| {
                    let f = &f;
                    move || {
                        let e = f.encap().to(&f.dir, &format!("e{}", i));
                        let d = f.decap().to(&f.dir, &format!("d{}", i)).with("ciphertext", &e.outputs[0].1);
                        let (a, b) = (e.run(), d.run());
                        (a, b, e.out(0).unwrap_or_default(), e.out(1).unwrap_or_default(), d.out(0).unwrap_or_default())
                    }
                })
                .collect(),
        );
        for (a, b, ct, key, back) in res {
            if !c.check(a.ok() && b.ok(), "a command failed on valid files", || json!({"encap": a.show(), "decap": b.show()})) {
                continue;
            }
            c.check(key.len() == 32 && back == key, "the key files are not the 32 key bytes", || json!({"encap": hex(&key), "decap": hex(&back)}));
            let again = Ct::deserialize_compressed(&ct[..]).map(|d| bytes(&d));
            c.check(again.as_ref().ok() == Some(&ct), "the ciphertext file is not the ciphertext's serialisation", || json!({"file_bytes": ct.len(), "serialised_bytes": again.as_ref().map(|a| a.len()).unwrap_or(0)}));
            c.count("key_files", 2);
            let t = Setup::new(&s.k.m, &f.dir).decap_all(Tool::Core, &s.w, &ct);
            c.check(t.as_ref().ok() == Some(&key), "the key files are not the encapsulated key", || json!({"file": hex(&key), "library": format!("{:?}", t.map(|k| hex(&k)))}));
        }
    });
    // Damaged ciphertext files, alone and inside a combined one.
    x.run("damaged", x.q(5, 200), |c| {
        let s = loop {
            let s = scene(&mut c.rng, &names);
            if s.k.n_pub() < 6 && s.k.m.n_wires < 25 {
                break s;
            }
        };
        let f = Files::new(&dir, "x");
        f.scene(&mut c.rng, &s);
        let n = c.rng.us(60);
        f.put("msg", c.rng.clone().content(n));
        let embed = c.rng.chance(1, 2);
        c.key(h64(&file(&s.k.m)));
        c.input(s.describe());
        if !succeeds(c, &f.encap()) || !succeeds(c, &f.encrypt(embed)) || !succeeds(c, &f.decap()) || !succeeds(c, &f.decrypt()) {
            return;
        }
        let ct = f.encap().out(0).unwrap();
        let Some(p) = split(&f.encrypt(embed).out(0).unwrap()) else {
            c.fail("the combined file is not complete", Value::Null);
            return;
        };
        let mut bad: Vec<(usize, Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>, Value)> = vec![];
        let mut i = 0;
        let mut add = |g: Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>, d: Value| {
            bad.push((i, g, d));
            i += 1;
        };
        for n in 0..ct.len() {
            add(Box::new(move |b| Some(b[..n].to_vec())), json!({"cut_to": n, "of": ct.len()}));
        }
        for at in [32usize, 96] {
            let q = crate::m_kem::outside(&mut c.rng);
            add(Box::new(move |b| { let mut d = b.to_vec(); d[at..at + 64].copy_from_slice(&q); Some(d) }), json!({"point_outside_the_group_at": at}));
        }
        for at in [0usize, 32, 64, 96, 128] {
            add(Box::new(move |b| { let mut d = b.to_vec(); d[at..at + 31].fill(0xff); d[at + 31] = 0x3f; Some(d) }), json!({"coordinate_beyond_the_modulus_at": at}));
        }
        // A coordinate no curve point has.
        for at in [0usize] {
            let off = loop {
                let mut b = c.rng.bytes(32);
                b[31] &= 0x1f;
                if G1Affine::deserialize_compressed(&b[..]).is_err() {
                    break b;
                }
            };
            add(Box::new(move |b| { let mut d = b.to_vec(); d[at..at + 32].copy_from_slice(&off); Some(d) }), json!({"point_off_the_curve_at": at}));
        }
        for at in [160usize] {
            for v in [u64::MAX, u64::MAX / 32, 1 << 32, 1 << 61, 1 << 59, 100000, 1 << 63] {
                add(Box::new(move |b| { let mut d = b.to_vec(); d[at..at + 8].copy_from_slice(&u64::to_le_bytes(v)); Some(d) }), json!({"count_at": at, "set_to": v}));
            }
        }
        if s.k.n_pub() > 0 {
            add(Box::new(|b| { let n = b.len(); let mut d = b.to_vec(); d[n - 32..].copy_from_slice(&prime()); Some(d) }), json!({"public_input": "the modulus itself"}));
        }
        let _ = G2Affine::generator();
        let mut jobs = vec![];
        for (i, g, d) in &bad {
            if let Some(b) = g(&ct) {
                let q = f.put(&format!("b{}", i), b);
                jobs.push((f.decap().with("ciphertext", &q).to(&f.dir, &format!("k{}", i)), d.clone()));
            }
            if let Some(b) = (p.ct.len() == ct.len() || *i >= ct.len()).then(|| g(&p.ct)).flatten() {
                let q = f.put(&format!("c{}", i), combine(&p, &b));
                jobs.push((f.decrypt().with("ciphertext", &q).to(&f.dir, &format!("m{}", i)), d.clone()));
            }
        }
        must_fail(c, jobs, true);
    });
}
// ------------------------------------------------------------------------------------------------ C38
pub fn c38(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    x.run("files", x.q(24, 800), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "a");
        f.scene(&mut c.rng, &s);
        let n = 1 + c.rng.size(200);
        let msg = if c.idx % 3 == 0 { c.rng.bytes(n + 40) } else { c.rng.content(n) };
        f.put("msg", &msg);
        let embed = c.idx % 2 == 0;
        c.key(h64(&file(&s.k.m)));
        c.input(s.describe());
        c.sample(s.describe());
        let (circuit, input) = (std::fs::read(f.at("c.r1cs")).unwrap(), std::fs::read(f.at("in.json")).unwrap());
        let others: [(&str, &[u8]); 3] = [("the circuit file", &circuit), ("the input file", &input), ("the symbol file", s.sym.as_bytes())];
        let st = Setup::new(&s.k.m, &f.dir);
        if succeeds(c, &f.encap()) {
            let (ct, key) = (f.encap().out(0).unwrap(), f.encap().out(1).unwrap());
            match Ct::deserialize_compressed(&ct[..]) {
                Ok(d) => crate::m_kem::attacked(c, &d, &ct, &ct, &key, &others, json!("encap")),
                Err(e) => c.fail("the command gave no ciphertext", json!(format!("{:?}", e))),
            }
        }
        if succeeds(c, &f.encrypt(embed)) {
            let b = f.encrypt(embed).out(0).unwrap();
            let Some(p) = split(&b) else {
                c.fail("the combined file is not complete", json!({"bytes": b.len()}));
                return;
            };
            let Ok(d) = Ct::deserialize_compressed(&p.ct[..]) else {
                c.fail("the combined file holds no ciphertext", Value::Null);
                return;
            };
            let Some(key) = c.sut_ok("decapsulation", || st.decap_all(Tool::Core, &s.w, &p.ct)) else { return };
            crate::m_kem::attacked(c, &d, &p.ct, &b, &key, &others, json!("encrypt"));
            // The message must not open under a key made from public bytes, whatever the witness gives.
            let a = crate::m_kem::Attack::new(&d, &p.ct, &others);
            for (n, t) in &a.strings {
                for (h, k) in crate::m_kem::ways(t) {
                    if k[..] != key[..] && zkenc_cli::crypto::decrypt_gcm(&k, &p.sealed).is_ok() {
                        c.fail("the message opens under a key computed from public bytes", json!({"from": n, "how": h}));
                        return;
                    }
                }
            }
            if msg.len() >= 16 && c.idx % 3 == 0 {
                let at = b.windows(16).position(|w| msg.windows(16).any(|m| m == w));
                c.check(at.is_none(), "the message stands in the combined file", || json!({"at": at}));
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------ C36
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Want {
    Fail,
    /// Fail properly, or succeed with exactly the expected outputs.
    Either,
}
pub fn c36(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    // One scene: every command, every input file, every fault.
    x.run("faults", x.q(36, 1500), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "q");
        c.input(s.describe());
        c.sample(s.describe());
        c.key(h64(&file(&s.k.m)));
        f.scene(&mut c.rng, &s);
        let n = c.rng.size(120);
        let msg = c.rng.content(n);
        f.put("msg", &msg);
        let embed = c.idx % 2 == 0;
        let cmds = [f.encap(), f.decap(), f.encrypt(embed), f.decrypt()];
        for i in [0, 1, 2, 3] {
            if !succeeds(c, &cmds[i]) {
                return;
            }
        }
        let key = cmds[0].out(1).unwrap();
        let combined = cmds[2].out(0).unwrap();
        c.check(cmds[1].out(0).as_ref() == Some(&key) && key.len() == 32, "the key file is not complete", || json!({"bytes": key.len()}));
        c.check(cmds[3].out(0).as_ref() == Some(&msg), "the message file is not complete", || Value::Null);
        let Some(parts) = split(&combined) else {
            c.fail("the combined file is not complete", json!({"bytes": combined.len()}));
            return;
        };
        let mut seq = 0;
        let mut jobs: Vec<(Cmd, Want, Value)> = vec![];
        let mut dirs: Vec<(Cmd, Want, Value)> = vec![];
        let mut push = |cmd: usize, input: &str, bytes: Option<Vec<u8>>, want: Want, why: String| {
            seq += 1;
            let p = f.at(&format!("x{}", seq));
            if let Some(b) = bytes {
                std::fs::write(&p, b).unwrap();
            }
            jobs.push((cmds[cmd].to(&f.dir, &format!("x{}", seq)).with(input, &p), want, json!({"input": input, "fault": why})));
        };
        let public = s.k.n_pub() > 0;
        for (ci, cmd) in cmds.iter().enumerate() {
            for (input, path) in &cmd.inputs {
                let good = std::fs::read(path).unwrap();
                let r = &mut c.rng;
                push(ci, input, None, Want::Fail, "missing".into());
                let d = f.at(&format!("dir{}{}", ci, input));
                std::fs::create_dir_all(&d).unwrap();
                dirs.push((cmds[ci].to(&f.dir, &format!("z{}{}", ci, input)).with(input, &d), Want::Fail, json!({"input": input, "fault": "a directory"})));
                if *input == "message" {
                    continue;
                }
                // A symbol file that names no public wire only fails when there are some.
                let hollow = if *input == "sym" && !public { Want::Either } else { Want::Fail };
                push(ci, input, Some(vec![]), hollow, "empty".into());
                for k in 0..2 {
                    let n = 1 + r.size(600);
                    let mut g = r.bytes(n);
                    if k == 1 {
                        g = g.iter().map(|b| b"0123456789abcdef,.{}[]\" \n"[*b as usize % 25]).collect();
                    }
                    let w = if *input == "input" && serde_json::from_slice::<Value>(&g).is_ok_and(|v| v.is_object()) { Want::Either } else { hollow };
                    push(ci, input, Some(g), w, "garbage".into());
                }
                for (oi, op) in [("circuit", "c.r1cs"), ("sym", "c.sym"), ("input", "in.json"), ("witness", "w.wtns"), ("ciphertext", if ci == 1 { "o.ct" } else { "o.enc" }), ("message", "msg")] {
                    if oi != *input && oi != "message" {
                        push(ci, input, Some(std::fs::read(f.at(op)).unwrap()), hollow, format!("the {} file instead", oi));
                    }
                }
                // Truncations.
                let len = good.len();
                let labels = if *input == "circuit" { 12 + 8 * s.k.m.n_labels as usize } else { 0 };
                for _ in 0..6 {
                    let n = match r.below(3) {
                        0 => len - 1 - r.us(len.min(8)),
                        1 => r.us(len.min(64)),
                        _ => r.us(len),
                    };
                    let want = match *input {
                        "circuit" if n >= len - labels => Want::Either,
                        "sym" => Want::Either,
                        "input" => {
                            let brace = good.iter().rposition(|b| *b == b'}').unwrap();
                            if n > brace {
                                Want::Either
                            } else {
                                Want::Fail
                            }
                        }
                        _ => Want::Fail,
                    };
                    push(ci, input, Some(good[..n].to_vec()), want, format!("cut to {} of {} bytes", n, len));
                }
                // Changed bits.
                for _ in 0..6 {
                    let mut b = good.clone();
                    let i = r.us(len);
                    b[i] ^= 1 << r.below(8);
                    let want = if ci == 3 && *input == "ciphertext" { flipped(&parts, i, b[0]) } else { Want::Either };
                    push(ci, input, Some(b), want, format!("a bit of byte {} of {} changed", i, len));
                }
            }
        }
        jobs.extend(dirs);
        judge(c, &s, jobs, &key, &msg);
    });
    // Every truncation and every bit of the frame of a combined ciphertext.
    let thorough = x.thorough;
    x.run("combined", x.q(12, 300), |c| {
        let s = loop {
            let s = scene(&mut c.rng, &names);
            if s.k.n_pub() < 6 {
                break s;
            }
        };
        let f = Files::new(&dir, "r");
        f.scene(&mut c.rng, &s);
        let n = c.rng.us(40);
        let msg = c.rng.content(n);
        f.put("msg", &msg);
        let embed = c.idx % 2 == 0;
        let (e, d) = (f.encrypt(embed), f.decrypt());
        if !succeeds(c, &e) || !succeeds(c, &d) {
            return;
        }
        let b = e.out(0).unwrap();
        let Some(parts) = split(&b) else {
            c.fail("the combined file is not complete", json!({"bytes": b.len()}));
            return;
        };
        c.key(h64(&b));
        c.sample(json!({"bytes": b.len(), "embedded": embed, "scene": s.describe()}));
        let mut jobs = vec![];
        let mut add = |tag: String, v: Vec<u8>, w: Want, why: String| {
            let p = f.put(&tag, v);
            jobs.push((d.with("ciphertext", &p).to(&f.dir, &format!("{}o", tag)), w, json!({"input": "ciphertext", "fault": why, "embedded": embed})));
        };
        let stride = if thorough { 1 } else { 1 + b.len() / 220 };
        for n in (0..b.len()).filter(|n| n % stride == 0 || *n < 12 || b.len() - n < 40) {
            add(format!("t{}", n), b[..n].to_vec(), Want::Fail, format!("cut to {} of {} bytes", n, b.len()));
        }
        let p = 5 + parts.ct.len();
        let mut at: Vec<usize> = (0..5).chain(b.len() - parts.sealed.len()..b.len()).collect();
        if embed {
            at.extend(p..p + 4);
        }
        for i in at {
            for bit in 0..8 {
                if i >= 9 && bit != c.rng.below(8) && !(embed && (p..p + 4).contains(&i)) {
                    continue;
                }
                let mut v = b.clone();
                v[i] ^= 1 << bit;
                let w = flipped(&parts, i, v[0]);
                add(format!("f{}-{}", i, bit), v, w, format!("bit {} of byte {} of {} changed", bit, i, b.len()));
            }
        }
        // Lengths set to boundary values.
        for at in if embed { vec![1, p] } else { vec![1] } {
            let real = u32::from_be_bytes(b[at..at + 4].try_into().unwrap());
            for v in [0, 1, 4, real - 1, real + 1, b.len() as u32, b.len() as u32 - 5, b.len() as u32 - 4, b.len() as u32 - 9, 0x7fffffff, 0x80000000, 0xfffffffb, 0xffffffff] {
                if v != real {
                    let mut w = b.clone();
                    w[at..at + 4].copy_from_slice(&v.to_be_bytes());
                    add(format!("l{}-{}", at, v), w, Want::Fail, format!("the length at byte {} set to {} from {}", at, v, real));
                }
            }
        }
        let mut w = b.clone();
        w.push(0);
        add("longer".into(), w, Want::Fail, "a byte appended".into());
        judge(c, &s, jobs, &[], &msg);
    });
    // Output files that cannot be written, and arguments that are missing.
    x.run("outputs", x.q(4, 60), |c| {
        let s = scene(&mut c.rng, &names);
        let f = Files::new(&dir, "o");
        f.scene(&mut c.rng, &s);
        let msg = c.rng.content(200);
        f.put("msg", &msg);
        c.key(c.idx);
        let cmds = [f.encap(), f.decap(), f.encrypt(true), f.decrypt()];
        for cmd in &cmds {
            if !succeeds(c, cmd) {
                return;
            }
        }
        std::fs::create_dir_all(f.at("adir")).unwrap();
        let mut runs: Vec<(Cmd, Vec<String>, String)> = vec![];
        for cmd in &cmds {
            for (i, (o, _)) in cmd.outputs.iter().enumerate() {
                for (bad, why) in [(f.at("nowhere/at/all"), "in a directory that does not exist"), (f.at("adir"), "a directory"), (PathBuf::from(""), "an empty name")] {
                    let mut k = cmd.to(&f.dir, &format!("o{}{}", cmd.name, why.len()));
                    k.outputs[i].1 = bad;
                    let a = k.args();
                    runs.push((k, a, format!("--{} is {}", o, why)));
                }
            }
            let a = cmd.args();
            for i in (1..a.len() - cmd.extra.len()).step_by(2) {
                let mut b = a.clone();
                b.drain(i..i + 2);
                runs.push((cmd.clone(), b, format!("without {}", a[i])));
            }
            let mut b = a.clone();
            b.push("--surplus".into());
            runs.push((cmd.clone(), b, "with an unknown option".into()));
        }
        runs.push((cmds[0].clone(), vec![], "no command".into()));
        runs.push((cmds[0].clone(), vec!["recrypt".into()], "unknown command".into()));
        let res = par(runs.iter().map(|(_, a, _)| move || zkenc(a, &[])).collect());
        let mut ended: Vec<(Cmd, String, Out)> = runs.into_iter().zip(res).map(|((k, _, w), o)| (k, w, o)).collect();
        full_device(c, &f, &cmds, &mut ended);
        for (cmd, why, o) in &ended {
            c.count("unwritable_or_misused", 1);
            let proper = o.signal.is_none() && o.code != Some(0) && o.code != Some(101) && !o.err.trim().is_empty() && !o.err.contains("panicked at");
            c.check(proper, "a command that cannot do its work does not end with a failure status and a message", || json!({"command": cmd.name, "why_it_cannot": why, "ended": o.show()}));
        }
    });
}
/// The commands with each output in turn on the full device. They run as a user who has files of its own only,
/// so that a command that renames a file into place cannot replace the device.
fn full_device(c: &mut Case, f: &Files, cmds: &[Cmd], ended: &mut Vec<(Cmd, String, Out)>) {
    use std::os::unix::fs::PermissionsExt;
    let dev = PathBuf::from("/dev/full");
    if !is_full_device(&dev) {
        c.count("no_full_device_here", 1);
        return;
    }
    let open = |p: &Path, m| std::fs::set_permissions(p, std::fs::Permissions::from_mode(m));
    let mine = f.at("nobody");
    let exe = f.at("zkenc");
    std::fs::create_dir_all(&mine).unwrap();
    std::fs::copy(bin(), &exe).unwrap();
    let _ = open(&exe, 0o755);
    let _ = open(&mine, 0o777);
    let _ = open(&f.dir, 0o755);
    let _ = f.dir.parent().map(|p| open(p, 0o755));
    for e in std::fs::read_dir(&f.dir).unwrap().flatten() {
        if e.path().is_file() && e.path() != exe {
            let _ = open(&e.path(), 0o644);
        }
    }
    for cmd in cmds {
        let k = cmd.to(&mine, cmd.name);
        // The same command with ordinary outputs shows that the user is able to run it.
        match start(&exe, &k.args(), &[], true) {
            Some(o) if o.ok() => {}
            _ => {
                c.count("not_runnable_unprivileged", 1);
                continue;
            }
        }
        for i in 0..k.outputs.len() {
            let mut b = k.clone();
            b.outputs[i].1 = dev.clone();
            if let Some(o) = start(&exe, &b.args(), &[], true) {
                c.count("runs_on_a_full_device", 1);
                ended.push((b, format!("--{} is a full device", k.outputs[i].0), o));
            }
        }
    }
    let _ = std::fs::remove_file(&exe);
}
/// What has to come of a combined ciphertext whose byte `i` was changed, its first byte now being `flag`.
fn flipped(p: &Combined, i: usize, flag: u8) -> Want {
    let ct = 5 + p.ct.len();
    let text = ct + if p.public.is_some() { 4 } else { 0 };
    let sealed = text + p.public.as_ref().map_or(0, |t| t.len());
    if i == 0 {
        // Not embedded stays not embedded under any other flag but 1.
        if p.flag == 0 && flag != 1 {
            Want::Either
        } else {
            Want::Fail
        }
    } else if i < 5 || (ct..text).contains(&i) || i >= sealed {
        Want::Fail
    } else {
        Want::Either
    }
}
fn judge(c: &mut Case, s: &Scene, mut jobs: Vec<(Cmd, Want, Value)>, key: &[u8], msg: &[u8]) {
    apart(&mut jobs, |j| &j.0);
    let res = par(
        jobs.iter()
            .enumerate()
            .map(|(i, (cmd, want, d))| {
                let whole = d["input"] == "sym" || d["input"] == "input";
                move || {
                    let before: Vec<_> = cmd
                        .outputs
                        .iter()
                        .map(|(_, p)| {
                            if i % 2 == 1 {
                                std::fs::write(p, b"what was here before").unwrap();
                            }
                            std::fs::read(p).ok()
                        })
                        .collect();
                    let o = cmd.run();
                    let e = if *want == Want::Either && o.ok() {
                        // Complete outputs, and where only the circuit's opening is at stake, the right ones.
                        let out = |i| cmd.out(i).unwrap_or_default();
                        let ct_ok = |ct: &[u8]| Ct::deserialize_compressed(ct).is_ok_and(|d| bytes(&d) == ct);
                        match cmd.name {
                            "encap" if !ct_ok(&out(0)) || out(1).len() != 32 => Some("reported success with incomplete output files".to_string()),
                            "encrypt" if !split(&out(0)).is_some_and(|p| ct_ok(&p.ct) && p.sealed.len() == msg.len() + 28) => Some("reported success with an incomplete output file".to_string()),
                            "decap" if out(0).len() != 32 => Some("reported success with an incomplete key file".to_string()),
                            "decap" if d["input"] == "witness" && out(0) != key => Some("reported success with another key".to_string()),
                            "decrypt" if out(0) != msg => Some("reported success with another message".to_string()),
                            "encap" if whole && s.k.n_pub() > 0 && carried(&out(0)).len() != s.k.n_pub() => Some("reported success with public values missing".to_string()),
                            _ => None,
                        }
                    } else {
                        improper(&o, cmd, &before)
                    };
                    for p in cmd.outputs.iter().map(|o| &o.1) {
                        let _ = std::fs::remove_file(p);
                    }
                    (o, e)
                }
            })
            .collect(),
    );
    for ((cmd, want, d), (o, e)) in jobs.iter().zip(res) {
        c.ops += 1;
        c.count(&format!("{}_{}", cmd.name, if o.ok() { "still_succeeded" } else { "refused" }), 1);
        if let Some(e) = e {
            c.fail(format!("a command {} {}", if *want == Want::Fail { "that cannot do its work" } else { "on changed files" }, e), json!({"command": cmd.name, "fault": d, "ended": o.show()}));
        }
    }
}

//! C47: what a command does depends on its options and on the files they name, not on the world around it.
use crate::circ::*;
use crate::kemlib::*;
use crate::m_cli::*;
use crate::m_files::*;
use crate::util::*;
use ark_bn254::Fr;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use std::ffi::OsString;
use std::io::{Read, Write};
use std::os::fd::{FromRawFd, OwnedFd};
use std::os::unix::ffi::OsStringExt;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default)]
struct World {
    clear: bool,
    env: Vec<(OsString, OsString)>,
    unset: Vec<&'static str>,
    cwd: Cwd,
    relative: bool,
    stdin: In,
    stdout: To,
    umask: Option<u32>,
    one_cpu: bool,
    arg0: Option<&'static str>,
    clock: Option<String>,
    pid: Option<u32>,
    nobody: bool,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
enum Cwd {
    #[default]
    Work,
    Elsewhere,
    Link,
    Root,
    Gone,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
enum In {
    #[default]
    Null,
    Closed,
    Silent,
    Text,
    File,
}
#[derive(Clone, Copy, Debug, Default, PartialEq)]
enum To {
    #[default]
    File,
    Pipe,
    Null,
    Terminal,
    Closed,
}
/// Names a tool might read without being told to.
const NAMES: [&str; 62] = [
    "ZKENC_SEED", "ZKENC_RNG_SEED", "ZKENC_KEY", "ZKENC_DEBUG", "ZKENC_INSECURE", "ZKENC_TEST", "ZKENC_DETERMINISTIC", "ZKENC_SKIP_CHECKS", "ZKENC_NO_VERIFY", "ZKENC_CACHE", "ZKENC_CACHE_DIR", "ZKENC_CONFIG", "ZKENC_HOME", "ZKENC_CIRCUIT", "ZKENC_SYM", "ZKENC_INPUT",
    "ZKENC_WITNESS", "ZKENC_OUTPUT", "ZKENC_MESSAGE", "ZKENC_CIPHERTEXT", "ZKENC_NO_PUBLIC_INPUT", "ZKENC_LOG", "ZKENC_FIELD", "ZKENC_THREADS", "ZKENC_FORMAT", "CIRCUIT", "SYM", "INPUT", "WITNESS", "OUTPUT", "MESSAGE", "CIPHERTEXT", "KEY", "NO_PUBLIC_INPUT", "SEED", "RNG_SEED",
    "DEBUG", "TEST", "CI", "VERBOSE", "QUIET", "LOG", "RUST_LOG", "NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "TERM", "COLUMNS", "LINES", "LANG", "LC_ALL", "LC_NUMERIC", "TZ", "USER", "LOGNAME", "SHELL", "EDITOR", "SOURCE_DATE_EPOCH", "RAYON_NUM_THREADS", "OMP_NUM_THREADS", "PWD",
    "NODE_ENV",
];
const CONFIGS: [&str; 22] = [
    ".zkenc", ".zkencrc", ".zkenc.json", ".zkenc.toml", "zkenc.toml", "zkenc.json", "zkenc.yaml", "config.json", "config.toml", ".env", "circuit.r1cs", "circuit.sym", "circuit.wasm", "input.json", "public.json", "witness.wtns", "message.txt", "key.bin", "ciphertext.bin", ".config/zkenc/config.toml",
    ".cache/zkenc/circuit", "seed",
];
fn os(s: &str) -> OsString {
    s.into()
}
/// A variable that belongs to the loader, the language runtime or these monitors.
fn theirs(n: &str) -> bool {
    ["LD_", "VERIF_", "MALLOC", "GLIBC_", "RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "ASAN_", "LSAN_", "UBSAN_"].iter().any(|p| n.starts_with(p)) || n.is_empty() || n.contains('=') || n.contains('\0')
}
impl World {
    fn random(r: &mut Rng, names: &[String], h: &Home) -> World {
        let mut w = World::default();
        let set = |w: &mut World, n: &str, v: OsString| w.env.push((os(n), v));
        match r.below(3) {
            0 => w.clear = true,
            1 => w.unset = vec!["HOME", "PATH", "USER", "TMPDIR", "LANG", "PWD", "SHELL"],
            _ => {}
        }
        // The same value for many, or each its own.
        if r.chance(4, 5) {
            let value = |r: &mut Rng| -> OsString {
                match r.below(12) {
                    0..=2 => os("1"),
                    3 => os("0"),
                    4 => os("true"),
                    5 => os(""),
                    6 => os("/nonexistent/thing"),
                    7 => OsString::from_vec(vec![0xff, 0xfe, 1]),
                    8 => h.work().join("other.json").into_os_string(),
                    9 => os(&"7".repeat(5000)),
                    10 => os("tr_TR.UTF-8"),
                    _ => os(r.pick(&["debug", "trace", "yes", "42", "-1", "3.14", "C", "de_DE@euro", "json", "none"])),
                }
            };
            let one = value(r);
            let all = r.chance(1, 2);
            for n in names {
                if !theirs(n) && r.chance(2, 3) {
                    let v = if all { one.clone() } else { value(r) };
                    set(&mut w, n, v);
                }
            }
        }
        for (n, vals) in [
            ("HOME", ["/nonexistent", "", "/dev/null", "decoys"]),
            ("TMPDIR", ["/nonexistent", "", "/dev/null", "decoys"]),
            ("XDG_CONFIG_HOME", ["/nonexistent", "decoys", "decoys", "decoys"]),
            ("XDG_CACHE_HOME", ["/nonexistent", "decoys", "decoys", "/dev/null"]),
            ("PATH", ["", "decoys", "/nonexistent", "."]),
            ("LC_ALL", ["C", "tr_TR.UTF-8", "ar_EG", "xx"]),
            ("TZ", ["Asia/Kathmandu", "nonsense", "", ":/dev/null"]),
        ] {
            if r.chance(1, 2) {
                let v = match *r.pick(&vals) {
                    "decoys" => h.root.join("home").into_os_string(),
                    v => os(v),
                };
                set(&mut w, n, v);
            }
        }
        w.cwd = *r.pick(&[Cwd::Work, Cwd::Work, Cwd::Elsewhere, Cwd::Elsewhere, Cwd::Link, Cwd::Root, Cwd::Gone]);
        w.relative = r.chance(2, 3) && !matches!(w.cwd, Cwd::Root | Cwd::Gone);
        w.stdin = *r.pick(&[In::Null, In::Closed, In::Silent, In::Text, In::File]);
        w.stdout = *r.pick(&[To::File, To::File, To::Pipe, To::Null, To::Terminal, To::Closed]);
        w.umask = r.chance(1, 2).then(|| *r.pick(&[0, 0o22, 0o77]));
        w.one_cpu = r.chance(1, 3);
        if r.chance(1, 3) {
            w.arg0 = Some(r.pick(&["encap", "decrypt", "", "zkenc-js", "/no/such/zkenc", "--help"]));
        }
        if r.chance(1, 2) {
            w.clock = Some(r.pick(&["=0", "=1", "=-86400", "=2147483648", "=4294967297", "=1700000000", "315360000", "-1000000000", "86400"]).to_string());
        }
        if r.chance(1, 3) {
            w.pid = Some(*r.pick(&[1, 2, 4242, 32768]));
        }
        w.nobody = r.chance(1, 6);
        if w.nobody {
            w.umask = None;
        }
        w
    }
    fn show(&self) -> Value {
        let v: Vec<String> = self.env.iter().take(40).map(|(k, v)| format!("{}={}", k.to_string_lossy(), v.to_string_lossy().chars().take(40).collect::<String>())).collect();
        json!({"environment_cleared": self.clear, "unset": self.unset, "variables": v, "more_variables": self.env.len().saturating_sub(40), "working_directory": format!("{:?}", self.cwd), "relative_paths": self.relative, "stdin": format!("{:?}", self.stdin),
            "stdout": format!("{:?}", self.stdout), "umask": self.umask.map(|u| format!("{:o}", u)), "one_cpu": self.one_cpu, "called": self.arg0, "clock": self.clock, "process_number": self.pid, "unprivileged": self.nobody})
    }
    fn dir(&self, h: &Home) -> PathBuf {
        match self.cwd {
            Cwd::Work => h.work(),
            Cwd::Elsewhere => h.root.join("else/where"),
            Cwd::Link => h.root.join("link"),
            Cwd::Root => "/".into(),
            Cwd::Gone => h.root.join(format!("gone-{:?}", std::thread::current().id())),
        }
    }
    /// How a file of the working directory is named from here.
    fn name(&self, h: &Home, f: &str) -> String {
        let p = match (self.relative, self.cwd) {
            (false, _) => h.work().join(f),
            (true, Cwd::Elsewhere) => Path::new("../../work").join(f),
            (true, _) => f.into(),
        };
        p.to_string_lossy().to_string()
    }
    /// None: not possible here.
    fn run(&self, h: &Home, args: &[String], log: Option<&Path>) -> Option<Run> {
        self.run_of(&bin(), h, args, log)
    }
    fn run_of(&self, program: &Path, h: &Home, args: &[String], log: Option<&Path>) -> Option<Run> {
        let mut c = Command::new(program);
        c.args(args);
        if self.clear {
            c.env_clear();
        }
        for n in &self.unset {
            c.env_remove(n);
        }
        for (k, v) in &self.env {
            c.env(k, v);
        }
        c.env("RUST_BACKTRACE", "0");
        // AddressSanitizer does not go with a preloaded library.
        if std::env::var_os("VERIF_ASAN").is_none() && (log.is_some() || self.clock.is_some() || self.pid.is_some()) {
            c.env("LD_PRELOAD", bin().with_file_name("libworld.so"));
            if let Some(l) = log {
                c.env("VERIF_WORLD_LOG", l);
            }
            if let Some(s) = &self.clock {
                c.env("VERIF_WORLD_CLOCK", s);
            }
            if let Some(p) = self.pid {
                c.env("VERIF_WORLD_PID", p.to_string());
            }
        }
        if let Some(a) = self.arg0 {
            c.arg0(a);
        }
        let dir = self.dir(h);
        if self.cwd == Cwd::Gone {
            std::fs::create_dir_all(&dir).unwrap();
        }
        c.current_dir(&dir);
        let tag = format!("{:?}-{}", std::thread::current().id(), self.nobody);
        let (op, ep) = (h.root.join(format!("out-{}", tag)), h.root.join(format!("err-{}", tag)));
        match self.stdin {
            In::Null | In::Closed => c.stdin(Stdio::null()),
            In::Silent | In::Text => c.stdin(Stdio::piped()),
            In::File => c.stdin(std::fs::File::open(h.work().join("other.json")).unwrap()),
        };
        let mut pty: Option<(OwnedFd, OwnedFd)> = None;
        let mut to = self.stdout;
        if to == To::Terminal {
            let (mut m, mut s) = (0, 0);
            if unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) } == 0 {
                unsafe {
                    for f in [m, s] {
                        libc::fcntl(f, libc::F_SETFD, libc::FD_CLOEXEC);
                    }
                    pty = Some((OwnedFd::from_raw_fd(m), OwnedFd::from_raw_fd(s)));
                }
            } else {
                to = To::Null;
            }
        }
        c.stderr(std::fs::File::create(&ep).unwrap());
        match to {
            To::File => c.stdout(std::fs::File::create(&op).unwrap()),
            To::Pipe => c.stdout(Stdio::piped()),
            To::Null | To::Closed => c.stdout(Stdio::null()),
            To::Terminal => {
                let s = &pty.as_ref().unwrap().1;
                if self.stdin == In::Null {
                    c.stdin(s.try_clone().unwrap());
                }
                c.stdout(s.try_clone().unwrap())
            }
        };
        let close: Vec<i32> = [(self.stdin == In::Closed, 0), (to == To::Closed, 1)].iter().filter(|x| x.0).map(|x| x.1).collect();
        let (umask, one, nobody, gone) = (self.umask, self.one_cpu, self.nobody, (self.cwd == Cwd::Gone).then(|| std::ffi::CString::new(dir.to_string_lossy().as_bytes()).unwrap()));
        let probe = std::ffi::CString::new(h.work().join("c.r1cs").to_string_lossy().as_bytes()).unwrap();
        let shadowed = std::env::var_os("VERIF_ASAN").is_some();
        unsafe {
            c.pre_exec(move || {
                let lim = |r, v| libc::setrlimit(r, &libc::rlimit { rlim_cur: v, rlim_max: v });
                lim(libc::RLIMIT_CPU, 60);
                if !shadowed {
                    lim(libc::RLIMIT_AS, 4 << 30);
                }
                lim(libc::RLIMIT_CORE, 0);
                if let Some(g) = &gone {
                    libc::rmdir(g.as_ptr());
                }
                if let Some(u) = umask {
                    libc::umask(u);
                }
                if one {
                    let mut set: libc::cpu_set_t = std::mem::zeroed();
                    if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                        let first = (0..1024).find(|i| libc::CPU_ISSET(*i, &set)).unwrap_or(0);
                        let mut only: libc::cpu_set_t = std::mem::zeroed();
                        libc::CPU_SET(first, &mut only);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&only), &only);
                    }
                }
                if nobody {
                    if libc::setgroups(0, std::ptr::null()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    let f = libc::open(probe.as_ptr(), libc::O_RDONLY);
                    if f < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    libc::close(f);
                }
                for f in &close {
                    libc::close(*f);
                }
                Ok(())
            });
        }
        let mut child = match c.spawn() {
            Ok(c) => c,
            Err(_) if self.nobody => return None,
            Err(e) => panic!("the command starts: {}", e),
        };
        drop(c);
        let mut keep = child.stdin.take();
        if self.stdin == In::Text {
            if let Some(mut i) = keep.take() {
                let _ = i.write_all(b"{\"a\": \"1\"}\ny\nyes\n");
            }
        }
        let drains: Vec<_> = child
            .stdout
            .take()
            .map(|mut o| {
                std::thread::spawn(move || {
                    let mut b = vec![];
                    let _ = o.read_to_end(&mut b);
                    b
                })
            })
            .into_iter()
            .chain(pty.map(|(m, s)| {
                drop(s);
                std::thread::spawn(move || {
                    let mut f = std::fs::File::from(m);
                    let (mut b, mut p) = (vec![], [0; 4096]);
                    while let Ok(n) = f.read(&mut p) {
                        if n == 0 {
                            break;
                        }
                        b.extend_from_slice(&p[..n]);
                    }
                    b
                })
            }))
            .collect();
        let begun = Instant::now();
        let st = loop {
            match child.try_wait().unwrap() {
                Some(s) => break Some(s),
                None if begun.elapsed() > Duration::from_secs(90) => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break None;
                }
                None => std::thread::sleep(Duration::from_millis(if begun.elapsed().as_millis() < 50 { 1 } else { 10 })),
            }
        };
        drop(keep);
        let mut out: Vec<u8> = drains.into_iter().flat_map(|d| d.join().unwrap()).collect();
        if let Ok(b) = std::fs::read(&op) {
            out.extend(b);
        }
        let err = std::fs::read(&ep).unwrap_or_default();
        for p in [op, ep] {
            let _ = std::fs::remove_file(p);
        }
        if self.cwd == Cwd::Gone {
            let _ = std::fs::remove_dir(&dir);
        }
        Some(match st {
            Some(s) => Run { code: s.code(), signal: s.signal(), out, err },
            None => Run { code: None, signal: Some(0), out, err: b"(still running after 90 seconds)".to_vec() },
        })
    }
}
/// A command line of plain options.
fn args(w: &World, h: &Home, cmd: &str, opts: &[(&str, &str)], plain: bool) -> Vec<String> {
    let mut a = vec![cmd.to_string()];
    for (o, f) in opts {
        a.push(format!("--{}", o));
        a.push(w.name(h, f));
    }
    if plain {
        a.push("--no-public-input".into());
    }
    a
}
struct Ref {
    key: Vec<u8>,
    msg: Vec<u8>,
    public: Vec<String>,
    input: Vec<u8>,
    bad_witness: bool,
    bad_input: bool,
}
/// The library's calls on the files of the directory `d`, in a process of their own: what each gave, one line each.
pub fn calls(d: &Path, out: &Path) {
    use zkenc_cli::{circom::*, crypto::*, r1cs::R1csFile, serializable as cli, sym_parser::*, witness::WitnessFile};
    let at = |n: &str| d.join(n);
    let name = |n: &str| d.join(n).to_str().unwrap().to_string();
    let get = |n: &str| std::fs::read(at(n)).unwrap_or_default();
    let mut lines: Vec<String> = vec![];
    let mut say = |what: &str, r: Result<String, String>| lines.push(format!("{} {}", what, r.map_or("refused".into(), |v| format!("{:016x} {:.200}", h64(&v), v.replace('\n', " ")))));
    fn e<T, E>(r: Result<T, E>, f: impl FnOnce(T) -> String) -> Result<String, String> {
        r.map(f).map_err(|_| String::new())
    }
    let map = |m: std::collections::HashMap<String, u32>| format!("{:?}", m.into_iter().collect::<std::collections::BTreeMap<_, _>>());
    for (c, i, s, w) in [("c.r1cs", "in.json", "c.sym", "w.wtns"), ("cut.r1cs", "other.json", "odd.sym", "bad.wtns"), ("absent", "absent", "absent", "absent"), ("msg", "msg", "in.json", "cut.wtns")] {
        say("R1csFile", e(R1csFile::from_file(at(c)), |f| f.to_serializable().to_json().unwrap()));
        say("parse_inputs", e(parse_inputs(at(i)), |m| format!("{:?}", m.into_iter().collect::<std::collections::BTreeMap<_, _>>())));
        say("load_circom_circuit", e(load_circom_circuit(at(c), at(i)), |v| format!("{:?}", v)));
        let text = String::from_utf8_lossy(&get(s)).to_string();
        say("parse_sym_file", e(parse_sym_file(&text), map));
        say("get_input_signals", e(parse_sym_file(&text), |m| map(get_input_signals(&m, Some(3)))));
        say("WitnessFile", e(WitnessFile::from_file(&name(w)), |f| e(f.to_field_elements::<Fr>(), |m| format!("{:?}", m.into_iter().map(|(k, v)| (k, le(&v))).collect::<std::collections::BTreeMap<_, _>>())).unwrap_or_default()));
    }
    for (f, own) in [("x.json", true), ("x.bin", false), ("cut.json", true), ("cut.bin", false), ("absent", true), ("absent", false)] {
        if own {
            say("load_json", e(cli::SerializableCircuit::load_json(&name(f)), |c| c.to_json().unwrap()));
        } else {
            say("load_bincode", e(cli::SerializableCircuit::load_bincode(&name(f)), |c| c.to_json().unwrap()));
        }
    }
    if let Ok(c) = cli::SerializableCircuit::load_json(&name("x.json")) {
        let (j, b) = (format!("{}.j", out.display()), format!("{}.b", out.display()));
        say("save_json", e(c.save_json(&j), |_| String::from_utf8_lossy(&std::fs::read(&j).unwrap_or_default()).to_string()));
        say("save_bincode", e(c.save_bincode(&b), |_| format!("{:?}", std::fs::read(&b).ok())));
        say("save_json nowhere", e(c.save_json(&name("nowhere/x")), |_| String::new()));
        for p in [j, b] {
            let _ = std::fs::remove_file(p);
        }
    }
    let (key, msg) = (get("ref.key"), get("msg"));
    let open = |m: Vec<u8>| format!("{:?}", m);
    for f in ["sealed", "sealed-bad", "msg"] {
        say("decrypt_gcm", e(decrypt_gcm(&key, &get(f)), open));
    }
    say("decrypt_ctr", e(decrypt_ctr(&key, &get("sealed-ctr")), open));
    for k in [&key[..key.len().min(31)], &[]] {
        say("encrypt_gcm with a short key", e(encrypt_gcm(k, &msg), |_| String::new()));
        say("encrypt_ctr with a short key", e(encrypt_ctr(k, &msg), |_| String::new()));
    }
    say("wasm_decap", e(zkenc_js::wasm_decap(&get("c.r1cs"), &get("w.wtns"), &get("ref.ct")), |k| hex(&k)));
    say("wasm_decap with another witness", e(zkenc_js::wasm_decap(&get("c.r1cs"), &get("bad.wtns"), &get("ref.ct")), |k| hex(&k)));
    let mut fresh: Vec<String> = vec![];
    for _ in 0..3 {
        say("encrypt_gcm", e(encrypt_gcm(&key, &msg), |c| {
            fresh.push(hex(&c[..12]));
            format!("{:?}", decrypt_gcm(&key, &c).ok())
        }));
        say("encrypt_ctr", e(encrypt_ctr(&key, &msg), |c| {
            fresh.push(hex(&c[..16]));
            format!("{:?}", decrypt_ctr(&key, &c).ok())
        }));
    }
    say("wasm_encap", e(zkenc_js::wasm_encap(&get("c.r1cs"), &get("w.wtns")), |r| {
        fresh.push(hex(&r.key()));
        format!("{:?} {:?}", carried(&r.ciphertext()), e(zkenc_js::wasm_decap(&get("c.r1cs"), &get("w.wtns"), &r.ciphertext()), |k| (k == r.key()).to_string()))
    }));
    lines.extend(fresh.into_iter().map(|f| format!("FRESH {}", f)));
    std::fs::write(out, lines.join("\n")).unwrap();
}
/// Whether the library's calls give in this world what they gave in the plain one.
fn called(h: &Home, w: &World, want: &[String], out: &str, seen: &mut Vec<(Vec<u8>, Vec<u8>)>, bad: &mut Bad) -> Option<Vec<String>> {
    let dir = w.name(h, "");
    let a = vec!["calls".to_string(), if dir.is_empty() { ".".into() } else { dir }, w.name(h, out)];
    let r = w.run_of(&std::env::current_exe().unwrap(), h, &a, None)?;
    let text = body(h, out).map(|b| String::from_utf8_lossy(&b).to_string());
    let _ = std::fs::remove_file(h.work().join(out));
    let tell = |m: &str, d: Value| (m.to_string(), json!({"world": w.show(), "ended": r.show(), "what": d}));
    let Some(text) = text.filter(|_| r.ok()) else {
        bad.push(tell("library calls do not end properly in this environment", json!(null)));
        return None;
    };
    let (fresh, got): (Vec<String>, Vec<String>) = text.lines().map(String::from).partition(|l| l.starts_with("FRESH "));
    for f in fresh {
        seen.push((f.into_bytes(), vec![]));
    }
    if let Some((a, b)) = want.iter().zip(&got).find(|(a, b)| a != b).filter(|_| !want.is_empty()) {
        bad.push(tell("a library call gives something else in this environment", json!({"elsewhere": format!("{:.300}", a), "here": format!("{:.300}", b)})));
    }
    Some(got)
}
/// Everything once in this world.
fn tour(h: &Home, w: &World, rf: &Ref, st: &Setup, wit: &[Fr], tag: &str, seen: &mut Vec<(Vec<u8>, Vec<u8>)>, plain: bool, log: Option<&Path>) -> (Bad, u64) {
    let (mut bad, mut n): (Bad, u64) = (vec![], 0);
    let o = |x: &str| format!("{}-{}", tag, x);
    let (ct, key, dkey, rkey, enc, dmsg, rmsg) = (o("ct"), o("key"), o("dkey"), o("rkey"), o("enc"), o("dmsg"), o("rmsg"));
    let mut go = |a: Vec<String>, works: bool, outputs: &[&String], bad: &mut Bad| -> bool {
        let Some(r) = w.run(h, &a, log) else { return false };
        n += 1;
        let tell = |m: &str| (m.to_string(), json!({"command": a, "world": w.show(), "ended": r.show()}));
        if r.signal == Some(0) {
            bad.push(tell("a command does not end in this environment"));
        } else if works && !r.ok() {
            bad.push(tell("a command that works elsewhere fails in this environment"));
        } else if !works && r.ok() {
            bad.push(tell("a command that fails elsewhere succeeds in this environment"));
        } else if !works && (r.signal.is_some() || r.code == Some(101)) {
            bad.push(tell("a command that fails properly elsewhere crashes in this environment"));
        } else if !works && outputs.iter().any(|p| h.work().join(p).exists()) {
            bad.push(tell("a failing command leaves an output in this environment"));
        } else if !works && r.err.is_empty() && r.out.is_empty() && w.stdout != To::Null && w.stdout != To::Closed {
            bad.push(tell("a failing command says nothing in this environment"));
        }
        r.ok()
    };
    let wrong = |m: &str, d: String, bad: &mut Bad| bad.push((m.to_string(), json!({"what": d, "world": w.show()})));
    // What was made elsewhere opens here.
    if go(args(w, h, "decap", &[("circuit", "c.r1cs"), ("witness", "w.wtns"), ("ciphertext", "ref.ct"), ("key", &rkey)], false), true, &[], &mut bad) && body(h, &rkey) != Some(rf.key.clone()) {
        wrong("a key recovered in this environment is another", format!("{:?}", body(h, &rkey).map(|b| hex(&b))), &mut bad);
    }
    if go(args(w, h, "decrypt", &[("circuit", "c.r1cs"), ("witness", "w.wtns"), ("ciphertext", "ref.enc"), ("output", &rmsg)], false), true, &[], &mut bad) && body(h, &rmsg) != Some(rf.msg.clone()) {
        wrong("a message recovered in this environment is another", format!("{:?} bytes", body(h, &rmsg).map(|b| b.len())), &mut bad);
    }
    // What is made here opens everywhere.
    if go(args(w, h, "encap", &[("circuit", "c.r1cs"), ("sym", "c.sym"), ("input", "in.json"), ("ciphertext", &ct), ("key", &key)], false), true, &[], &mut bad) {
        let (c, k) = (body(h, &ct).unwrap_or_default(), body(h, &key).unwrap_or_default());
        if carried(&c) != rf.public {
            wrong("a ciphertext made in this environment is bound to other public inputs", format!("{:?}", carried(&c)), &mut bad);
        }
        match st.decap_all(Tool::Core, wit, &c) {
            Ok(d) if d == k && k.len() == 32 => {}
            e => wrong("a ciphertext made in this environment does not hold its key", format!("{:?}", e.map(|k| hex(&k))), &mut bad),
        }
        seen.push((k.clone(), c.get(..64).unwrap_or(&c).to_vec()));
        if go(args(w, h, "decap", &[("circuit", "c.r1cs"), ("witness", "w.wtns"), ("ciphertext", &ct), ("key", &dkey)], false), true, &[], &mut bad) && body(h, &dkey) != Some(k) {
            wrong("the key recovered in this environment is not the one encapsulated in it", String::new(), &mut bad);
        }
    }
    if go(args(w, h, "encrypt", &[("circuit", "c.r1cs"), ("sym", "c.sym"), ("input", "in.json"), ("message", "msg"), ("output", &enc)], plain), true, &[], &mut bad) {
        match body(h, &enc).and_then(|b| split(&b)) {
            Some(p) => {
                if carried(&p.ct) != rf.public || p.flag != !plain as u8 || (!plain && p.public.as_ref() != Some(&rf.input)) {
                    wrong("a combined ciphertext made in this environment holds other things", json!({"flag": p.flag, "public": carried(&p.ct)}).to_string(), &mut bad);
                }
                match st.decap_all(Tool::Core, wit, &p.ct).map(|k| (zkenc_cli::crypto::decrypt_gcm(&k, &p.sealed), k)) {
                    Ok((Ok(m), k)) => {
                        if m != rf.msg {
                            wrong("a combined ciphertext made in this environment holds another message", format!("{} bytes", m.len()), &mut bad);
                        }
                        seen.push((k, p.sealed.get(..12).unwrap_or(&[]).to_vec()));
                    }
                    e => wrong("a combined ciphertext made in this environment does not open", format!("{:?}", e.map(|e| e.0.map_err(|e| e.to_string()))), &mut bad),
                }
            }
            None => wrong("a combined ciphertext made in this environment is none", String::new(), &mut bad),
        }
        if go(args(w, h, "decrypt", &[("circuit", "c.r1cs"), ("witness", "w.wtns"), ("ciphertext", &enc), ("output", &dmsg)], false), true, &[], &mut bad) && body(h, &dmsg) != Some(rf.msg.clone()) {
            wrong("the message decrypted in this environment is not the one encrypted in it", String::new(), &mut bad);
        }
    }
    // What fails elsewhere fails here.
    let x = o("none");
    if rf.bad_witness {
        go(args(w, h, "decap", &[("circuit", "c.r1cs"), ("witness", "bad.wtns"), ("ciphertext", "ref.ct"), ("key", &x)], false), false, &[&x], &mut bad);
        go(args(w, h, "decrypt", &[("circuit", "c.r1cs"), ("witness", "bad.wtns"), ("ciphertext", "ref.enc"), ("output", &x)], false), false, &[&x], &mut bad);
    }
    if rf.bad_input {
        let y = o("none2");
        go(args(w, h, "encap", &[("circuit", "c.r1cs"), ("sym", "c.sym"), ("input", "bad.json"), ("ciphertext", &x), ("key", &y)], false), false, &[&x, &y], &mut bad);
        go(args(w, h, "encrypt", &[("circuit", "c.r1cs"), ("sym", "c.sym"), ("input", "bad.json"), ("message", "msg"), ("output", &x)], plain), false, &[&x], &mut bad);
    }
    go(args(w, h, "decrypt", &[("circuit", "c.r1cs"), ("witness", "w.wtns"), ("ciphertext", "bad.enc"), ("output", &x)], false), false, &[&x], &mut bad);
    go(args(w, h, "encap", &[("circuit", "absent.r1cs"), ("sym", "c.sym"), ("input", "in.json"), ("ciphertext", &x), ("key", &o("none3"))], false), false, &[&x, &o("none3")], &mut bad);
    for f in [&ct, &key, &dkey, &rkey, &enc, &dmsg, &rmsg, &x, &o("none2"), &o("none3")] {
        let _ = std::fs::remove_file(h.work().join(f));
    }
    (bad, n)
}
/// Files nobody names, with what another scene's files hold.
fn decoys(r: &mut Rng, h: &Home, other: &Scene, looked: &BTreeSet<PathBuf>, dict: &[String]) -> u64 {
    let mut n = 0;
    let mut lay = |r: &mut Rng, p: &Path| {
        if p.exists() || !p.starts_with(&h.root) || p.components().any(|c| c == std::path::Component::ParentDir) {
            return;
        }
        let name = p.to_string_lossy().to_string();
        let b = match () {
            _ if name.ends_with("r1cs") => file(&other.k.m),
            _ if name.ends_with("sym") => other.sym.clone().into_bytes(),
            _ if name.ends_with("wtns") => wtns(&other.w),
            _ if name.ends_with("toml") || name.ends_with(".env") || name.ends_with("rc") => b"seed = 1\nSEED=1\nZKENC_SEED=1\ndebug = true\nno_public_input = true\n".to_vec(),
            _ if name.ends_with("json") => match r.below(2) {
                0 => b"{\"seed\": 1, \"debug\": true, \"includePublicInput\": false}".to_vec(),
                _ => {
                    let k = other.keys(r);
                    object(r, k).into_bytes()
                }
            },
            _ => match r.below(4) {
                0 => file(&other.k.m),
                1 => vec![7; 32],
                2 => wtns(&other.w),
                _ => b"1".to_vec(),
            },
        };
        if p.parent().is_some_and(|d| std::fs::create_dir_all(d).is_ok()) && std::fs::write(p, b).is_ok() {
            n += 1;
        }
    };
    for p in looked {
        lay(r, p);
    }
    for d in [h.work(), h.root.join("home"), h.root.join("else/where"), h.root.join("tmp")] {
        for c in CONFIGS.iter().filter(|_| r.chance(1, 2)).collect::<Vec<_>>() {
            lay(r, &d.join(c));
        }
        for c in dict {
            if r.chance(1, 2) {
                lay(r, &d.join(c));
            }
        }
    }
    // Beside the named files, under names derived from theirs.
    for f in ["c.r1cs", "c.sym", "in.json", "w.wtns", "msg", "ref.ct", "ref.enc", "x.json", "x.bin", "other.json", "sealed"] {
        for x in [".cache", ".bin", ".json", ".sig", ".key", ".sym", ".wtns", ".r1cs", "~", ".zk", ".idx", ".gz"] {
            if r.chance(1, 2) {
                lay(r, &h.work().join(format!("{}{}", f, x)));
                lay(r, &h.work().join(f).with_extension(&x[1..]));
            }
        }
    }
    n
}
pub fn c47(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    let envs: Vec<String> = x.dict_strs.iter().filter(|s| s.len() >= 3 && s.bytes().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || b == b'_') && !s.as_bytes()[0].is_ascii_digit()).cloned().collect();
    let files: Vec<String> = x.dict_strs.iter().filter(|s| s.len() <= 40 && !s.contains("..") && (s.starts_with('.') && s.len() > 3 || s.contains('.') && !s.ends_with('.')) && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"._-/".contains(&b)) && !s.starts_with('/')).take(60).cloned().collect();
    // Where an unprivileged user may pass.
    let _ = std::fs::set_permissions(&dir, std::fs::Permissions::from_mode(0o711));
    let worlds = x.q(4, 10);
    x.run("worlds", x.q(24, 900), |c| {
        let jobs: Vec<_> = (0..8).map(|i| (scene(&mut c.rng, &names), scene(&mut c.rng, &names), c.rng.u64(), Home::new(&dir, &format!("h{}", i)))).collect();
        c.sample(jobs[0].0.describe());
        c.key(h64(&jobs.iter().map(|j| j.2).collect::<Vec<_>>()));
        let (envs, files) = (&envs, &files);
        let res = par(
            jobs.iter()
                .map(|(s, other, seed, h)| {
                    move || {
                        let r = &mut Rng::new(*seed);
                        let (mut bad, mut n): (Bad, u64) = (vec![], 0);
                        let set = Set { ct: "ref.ct".into(), key: "ref.key".into(), dkey: "ref.dkey".into(), enc: "ref.enc".into(), dmsg: "ref.msg".into(), ..Set::plain() };
                        let l = r.us(200);
                        let msg = r.bytes(l);
                        set.write(h, r, s, &msg);
                        let w = h.work();
                        std::fs::create_dir_all(h.root.join("else/where")).unwrap();
                        std::os::unix::fs::symlink(h.work(), h.root.join("link")).unwrap();
                        let k = other.keys(r);
                        std::fs::write(w.join("other.json"), object(r, k)).unwrap();
                        let st = Setup::new(&s.k.m, &h.root);
                        // What must fail.
                        let mut wrong = s.w.clone();
                        let bad_witness = (0..20).any(|_| {
                            wrong = s.w.clone();
                            let i = 1 + r.us((wrong.len() - 1).max(1));
                            if let Some(v) = wrong.get_mut(i) {
                                *v = near(r, *v);
                            }
                            broken(&s.k.m, &wrong).is_some()
                        });
                        std::fs::write(w.join("bad.wtns"), wtns(&wrong)).unwrap();
                        let mut k = s.keys(r);
                        let bad_input = k.pop().is_some();
                        std::fs::write(w.join("bad.json"), object(r, k)).unwrap();
                        // The reference, in the world the monitors live in; what it looks at is recorded.
                        let log = h.root.join("log");
                        let here = World { relative: true, ..World::default() };
                        for (cmd, o) in [("encap", set.encap()), ("encrypt", set.encrypt())] {
                            let o: Vec<(&str, &str)> = o.iter().map(|(a, b)| (*a, b.as_str())).collect();
                            let a = args(&here, h, cmd, &o, false);
                            match here.run(h, &a, Some(&log)) {
                                Some(e) if e.ok() => {}
                                e => {
                                    bad.push(("a command on valid files failed".into(), json!({"command": a, "ended": e.map(|e| e.show())})));
                                    return (bad, n, 0, 0, 0, 0);
                                }
                            }
                        }
                        let mut cut = body(h, &set.enc).unwrap_or_default();
                        if let Some(b) = cut.last_mut() {
                            *b ^= 1;
                        }
                        std::fs::write(w.join("bad.enc"), cut).unwrap();
                        let (f, all) = (file(&s.k.m), wtns(&s.w));
                        let export = zkenc_cli::r1cs::R1csFile::from_file(w.join("c.r1cs")).map(|f| f.to_serializable());
                        let (xj, xb) = export.as_ref().map_or((vec![], vec![]), |x| (x.to_json().unwrap().into_bytes(), x.to_bincode().unwrap()));
                        let key = body(h, &set.key).unwrap_or_default();
                        let sealed = zkenc_cli::crypto::encrypt_gcm(&key, &msg).unwrap_or_default();
                        let mut broke = sealed.clone();
                        if let Some(b) = broke.get_mut(20) {
                            *b ^= 4;
                        }
                        for (n, b) in [
                            ("cut.r1cs", f[..f.len() / 2].to_vec()),
                            ("cut.wtns", all[..all.len() / 2].to_vec()),
                            ("odd.sym", s.sym.replace('\n', "\r\n").into_bytes()),
                            ("cut.json", xj[..xj.len() / 2].to_vec()),
                            ("cut.bin", xb[..xb.len() / 2].to_vec()),
                            ("x.json", xj),
                            ("x.bin", xb),
                            ("sealed-ctr", zkenc_cli::crypto::encrypt_ctr(&key, &msg).unwrap_or_default()),
                            ("sealed", sealed),
                            ("sealed-bad", broke),
                        ] {
                            std::fs::write(w.join(n), b).unwrap();
                        }
                        let rf = Ref { key: body(h, &set.key).unwrap_or_default(), msg: msg.clone(), public: s.public_hex(), input: body(h, &set.input).unwrap_or_default(), bad_witness, bad_input };
                        let mut seen = vec![(rf.key.clone(), vec![])];
                        let (b, m) = tour(h, &here, &rf, &st, &s.w, "here", &mut seen, r.chance(1, 2), Some(&log));
                        bad.extend(b);
                        n += m;
                        let want = called(h, &here, &[], "here-calls", &mut seen, &mut bad).unwrap_or_default();
                        let given = want.iter().filter(|l| !l.ends_with(" refused")).count() as u64;
                        let told: HashSet<PathBuf> = std::fs::read_dir(&w).unwrap().map(|e| e.unwrap().path()).collect();
                        let (mut asked, mut looked): (BTreeSet<String>, BTreeSet<PathBuf>) = Default::default();
                        for l in String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).lines() {
                            if let Some(e) = l.strip_prefix("E ") {
                                asked.insert(e.to_string());
                            }
                            if let Some(p) = l.strip_prefix("P ").filter(|p| !p.is_empty()) {
                                let p = w.join(p);
                                if p.starts_with(&h.root) && !told.contains(&p) && !p.to_string_lossy().contains("/here-") && p.file_name().is_some_and(|f| f != "absent.r1cs") && !set.all().iter().any(|n| w.join(n) == p) {
                                    looked.insert(p);
                                }
                            }
                        }
                        let mut all: Vec<String> = NAMES.iter().map(|s| s.to_string()).chain(envs.iter().cloned()).chain(asked.iter().cloned()).collect();
                        all.sort();
                        all.dedup();
                        let laid = if r.chance(3, 4) { decoys(r, h, other, &looked, files) } else { 0 };
                        // The time the files seem to be from.
                        if r.chance(1, 2) {
                            for e in std::fs::read_dir(&w).unwrap() {
                                let t = std::time::UNIX_EPOCH + Duration::from_secs(*r.pick(&[0, 1, 86400, 1 << 31, 4_000_000_000]));
                                if let Ok(f) = std::fs::File::options().write(true).open(e.unwrap().path()) {
                                    let _ = f.set_modified(t);
                                }
                            }
                        }
                        for d in [h.root.clone(), w.clone(), h.root.join("else"), h.root.join("else/where"), h.root.join("home"), h.root.join("tmp")] {
                            let _ = std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o777));
                        }
                        let mut low = 0;
                        for i in 0..worlds {
                            let wd = World::random(r, &all, h);
                            let (b, m) = tour(h, &wd, &rf, &st, &s.w, &format!("w{}", i), &mut seen, r.chance(1, 2), None);
                            n += m;
                            low += m * wd.nobody as u64;
                            n += called(h, &wd, &want, &format!("w{}-calls", i), &mut seen, &mut bad).map_or(0, |v| v.len() as u64);
                            bad.extend(b);
                        }
                        // However alike the worlds, nothing repeats.
                        let still = World { clear: true, clock: Some("=1000".into()), pid: Some(77), relative: true, ..World::default() };
                        for i in 0..2 {
                            let (b, m) = tour(h, &still, &rf, &st, &s.w, &format!("s{}", i), &mut seen, false, None);
                            n += m + called(h, &still, &want, &format!("s{}-calls", i), &mut seen, &mut bad).map_or(0, |v| v.len() as u64);
                            bad.extend(b);
                        }
                        let (mut ks, mut fs) = (HashSet::new(), HashSet::new());
                        for (k, f) in &seen {
                            if !ks.insert(k.clone()) {
                                bad.push(("two encapsulations in look-alike environments give the same key".into(), json!({"key": hex(k)})));
                            }
                            if !f.is_empty() && !fs.insert(f.clone()) {
                                bad.push(("two encryptions in look-alike environments share a nonce or a group element".into(), json!({"bytes": hex(f)})));
                            }
                        }
                        (bad, n, laid, asked.len() as u64, low, given)
                    }
                })
                .collect(),
        );
        for ((s, ..), (bad, n, laid, asked, low, given)) in jobs.iter().zip(res) {
            c.ops += n;
            c.count("commands_and_calls", n);
            c.count("worlds", worlds + 3);
            c.count("unprivileged_commands", low);
            c.max("library_calls_that_give_something", given);
            c.count("decoy_files", laid);
            c.max("variables_asked_for", asked);
            for (m, d) in bad {
                c.fail(m, json!({"scene": s.describe(), "detail": d}));
            }
        }
    });
}

//! What the command-line tool does to the world around it: C41 (files), C42 (output streams), C43 (options).
use crate::circ::*;
use crate::kemlib::*;
use crate::m_cli::*;
use crate::m_kem::Given;
use crate::util::*;
use ark_bn254::Fr;
use ark_ff::UniformRand;
use ark_std::rand::SeedableRng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

// ------------------------------------------------------------------------------------------------ running
#[derive(Debug)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> Value {
        json!({"exit": self.code, "signal": self.signal, "stderr": String::from_utf8_lossy(&self.err).chars().take(400).collect::<String>()})
    }
    fn both(&self) -> Vec<u8> {
        [&self.out[..], b"\n", &self.err].concat()
    }
}
/// A home of its own for a command: everything it is told about lies inside.
#[derive(Clone)]
pub struct Home {
    pub root: PathBuf,
}
impl Home {
    pub fn new(base: &Path, tag: &str) -> Home {
        let root = base.join(tag);
        let _ = std::fs::remove_dir_all(&root);
        for d in ["work", "home", "tmp"] {
            std::fs::create_dir_all(root.join(d)).unwrap();
        }
        Home { root }
    }
    pub fn work(&self) -> PathBuf {
        self.root.join("work")
    }
    fn start(&self, args: &[String], env: &[(&str, String)]) -> Child {
        let mut c = Command::new(bin());
        c.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).current_dir(self.work());
        c.env("RUST_BACKTRACE", "0").env("RAYON_NUM_THREADS", "2").env("HOME", self.root.join("home")).env("TMPDIR", self.root.join("tmp"));
        for v in ["XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME"] {
            c.env_remove(v);
        }
        for (k, v) in env {
            c.env(k, v);
        }
        shortly(&mut c);
        // AddressSanitizer maps its shadow over terabytes.
        let shadowed = std::env::var_os("VERIF_ASAN").is_some();
        unsafe {
            c.pre_exec(move || {
                let lim = |r, v| libc::setrlimit(r, &libc::rlimit { rlim_cur: v, rlim_max: v });
                lim(libc::RLIMIT_CPU, 60);
                if !shadowed {
                    lim(libc::RLIMIT_AS, 4 << 30);
                }
                lim(libc::RLIMIT_CORE, 0);
                Ok(())
            });
        }
        c.spawn().expect("the command starts")
    }
    fn run(&self, args: &[String], env: &[(&str, String)]) -> Run {
        end(self.start(args, env))
    }
    /// Everything in this home: kind, permissions and content of each path.
    fn seen(&self) -> BTreeMap<PathBuf, (u32, Vec<u8>)> {
        fn walk(d: &Path, root: &Path, out: &mut BTreeMap<PathBuf, (u32, Vec<u8>)>) {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                let m = std::fs::symlink_metadata(&p).unwrap();
                let body = if m.is_file() { std::fs::read(&p).unwrap() } else { vec![] };
                out.insert(p.strip_prefix(root).unwrap().to_path_buf(), (m.permissions().mode(), body));
                if m.is_dir() {
                    walk(&p, root, out);
                }
            }
        }
        let mut out = BTreeMap::new();
        walk(&self.root, &self.root, &mut out);
        out
    }
}
impl Drop for Home {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}
fn end(c: Child) -> Run {
    let o = c.wait_with_output().expect("the command ends");
    Run { code: o.status.code(), signal: o.status.signal(), out: o.stdout, err: o.stderr }
}
/// What changed between two looks, apart from these files.
fn changed(a: &BTreeMap<PathBuf, (u32, Vec<u8>)>, b: &BTreeMap<PathBuf, (u32, Vec<u8>)>, outputs: &[PathBuf]) -> Option<String> {
    for (p, v) in a {
        if outputs.contains(p) {
            continue;
        }
        match b.get(p) {
            None => return Some(format!("{} is gone", p.display())),
            Some(w) if w.1 != v.1 => return Some(format!("{} has another content", p.display())),
            Some(w) if w.0 != v.0 => return Some(format!("{} has other permissions", p.display())),
            _ => {}
        }
    }
    for p in b.keys() {
        if !a.contains_key(p) && !outputs.contains(p) {
            return Some(format!("{} is new", p.display()));
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------ files of a scene
/// The files of one scene, each by the name it has from the working directory.
#[derive(Clone)]
pub struct Set {
    pub circuit: String,
    pub sym: String,
    pub input: String,
    pub witness: String,
    pub message: String,
    pub ct: String,
    pub key: String,
    pub dkey: String,
    pub enc: String,
    pub dmsg: String,
}
const ODD: [&str; 26] = [
    "a", "a b", "ä ö", "x.y.z", ".hidden", "sub/f", "sub/deep/er/f", "./here", "sub/../up", "名前", "o'quote", "q\"d", "semi;colon", "am&per", "star*", "back\\slash", "tab\tx", "UPPER", "per%cent", "do$lar", "eq=ual", "com,ma", "tilde~", "#hash", "-dash", "😀",
];
fn file_name(r: &mut Rng, taken: &mut HashSet<String>, ext: &str) -> String {
    loop {
        let mut n = r.pick(&ODD).to_string();
        if r.chance(1, 12) {
            n = "n".repeat(180 + r.us(50));
        }
        if r.chance(1, 2) {
            n = format!("{}{}", n, r.below(30));
        }
        let n = match r.below(4) {
            0 => n,
            1 => format!("{}.dat", n),
            _ => format!("{}{}", n, ext),
        };
        if taken.insert(n.replace("./", "").replace("sub/../", "")) {
            return n;
        }
    }
}
impl Set {
    pub fn odd(r: &mut Rng) -> Set {
        let mut t = HashSet::new();
        let mut f = |e| file_name(r, &mut t, e);
        Set { circuit: f(".r1cs"), sym: f(".sym"), input: f(".json"), witness: f(".wtns"), message: f(".txt"), ct: f(".ct"), key: f(".key"), dkey: f(".key"), enc: f(".enc"), dmsg: f(".txt") }
    }
    pub fn all(&self) -> [&String; 10] {
        [&self.circuit, &self.sym, &self.input, &self.witness, &self.message, &self.ct, &self.key, &self.dkey, &self.enc, &self.dmsg]
    }
    pub fn plain() -> Set {
        let s = |x: &str| x.to_string();
        Set { circuit: s("c.r1cs"), sym: s("c.sym"), input: s("in.json"), witness: s("w.wtns"), message: s("msg"), ct: s("o.ct"), key: s("o.key"), dkey: s("d.key"), enc: s("o.enc"), dmsg: s("d.msg") }
    }
    pub fn write(&self, h: &Home, r: &mut Rng, s: &Scene, msg: &[u8]) {
        let w = h.work();
        std::fs::create_dir_all(w.join("sub/deep/er")).unwrap();
        let keys = s.keys(r);
        let input = object(r, keys);
        for (n, b) in [(&self.circuit, file(&s.k.m)), (&self.sym, s.sym.clone().into_bytes()), (&self.input, input.into_bytes()), (&self.witness, wtns(&s.w)), (&self.message, msg.to_vec())] {
            std::fs::write(w.join(n), b).unwrap();
        }
    }
    pub fn encap(&self) -> Vec<(&'static str, String)> {
        vec![("circuit", self.circuit.clone()), ("sym", self.sym.clone()), ("input", self.input.clone()), ("ciphertext", self.ct.clone()), ("key", self.key.clone())]
    }
    pub fn decap(&self) -> Vec<(&'static str, String)> {
        vec![("circuit", self.circuit.clone()), ("witness", self.witness.clone()), ("ciphertext", self.ct.clone()), ("key", self.dkey.clone())]
    }
    pub fn encrypt(&self) -> Vec<(&'static str, String)> {
        vec![("circuit", self.circuit.clone()), ("sym", self.sym.clone()), ("input", self.input.clone()), ("message", self.message.clone()), ("output", self.enc.clone())]
    }
    pub fn decrypt(&self) -> Vec<(&'static str, String)> {
        vec![("circuit", self.circuit.clone()), ("witness", self.witness.clone()), ("ciphertext", self.enc.clone()), ("output", self.dmsg.clone())]
    }
}
/// `--option=path`, every path either as it is or made absolute.
fn line(r: &mut Rng, h: &Home, cmd: &str, opts: &[(&'static str, String)], embed: bool) -> Vec<String> {
    let mut a = vec![cmd.to_string()];
    for (o, p) in opts {
        let p = if r.chance(1, 4) { h.work().join(p).to_string_lossy().to_string() } else { p.clone() };
        a.push(format!("--{}={}", o, p));
    }
    if cmd == "encrypt" && !embed {
        a.push("--no-public-input".into());
    }
    a
}
/// The paths of these files from the home's root, in the form `seen` gives them.
fn outs(h: &Home, names: &[&String]) -> Vec<PathBuf> {
    names
        .iter()
        .map(|n| {
            let mut p = PathBuf::from("work");
            for c in Path::new(n.as_str()).components() {
                match c {
                    std::path::Component::CurDir => {}
                    std::path::Component::ParentDir => {
                        p.pop();
                    }
                    c => p.push(c),
                }
            }
            p
        })
        .inspect(|p| assert!(h.root.join(p).parent().unwrap().is_dir()))
        .collect()
}
pub fn body(h: &Home, n: &str) -> Option<Vec<u8>> {
    std::fs::read(h.work().join(n)).ok()
}
/// Cut within what it says, not only in white space at its end.
pub fn truncated(b: &[u8], r: &mut Rng) -> Vec<u8> {
    b[..r.us(b.trim_ascii_end().len().max(1))].to_vec()
}

// ------------------------------------------------------------------------------------------------ C41
pub type Bad = Vec<(String, Value)>;
/// One command under watch.
fn watched(h: &Home, args: &[String], outputs: &[&String], works: impl Into<Option<bool>>, bad: &mut Bad, n: &mut u64) -> bool {
    let works: Option<bool> = works.into();
    let before = h.seen();
    let o = h.run(args, &[]);
    let after = h.seen();
    *n += 1;
    let outputs = outs(h, outputs);
    let allowed: &[PathBuf] = if o.ok() { &outputs } else { &[] };
    if let Some(e) = changed(&before, &after, allowed) {
        bad.push((format!("a command that {} touched a file it was not told to write", if o.ok() { "succeeded" } else { "failed" }), json!({"command": args, "what": e})));
    }
    if works.is_some_and(|w| w != o.ok()) {
        let works = !o.ok();
        bad.push((format!("a command on {} files {}", if works { "valid" } else { "unusable" }, if works { "failed" } else { "succeeded" }), json!({"command": args, "ended": o.show()})));
    }
    works.is_none_or(|w| w == o.ok())
}
fn one_scene(h: &Home, set: &Set, s: &Scene, r: &mut Rng, msg: &[u8]) -> (Bad, u64) {
    let (mut bad, mut n) = (vec![], 0);
    set.write(h, r, s, msg);
    // Things that lie about: neighbours of every file, with names programs like to use for their own.
    let w = h.work();
    let all = [&set.circuit, &set.ct, &set.key, &set.enc, &set.dmsg, &set.dkey];
    for i in 0..4 {
        let p = w.join(format!("{}{}", all[r.us(all.len())], [".tmp", "~", ".bak", ".part", ".lock", ".old", ".1"][r.us(7)]));
        let _ = std::fs::write(&p, format!("neighbour {}", i));
    }
    for n in ["key", "ciphertext", "ciphertext.bin", "key.bin", "output", "tmp", "witness.wtns", ".zkenc"] {
        if r.chance(1, 4) && !w.join(n).exists() {
            std::fs::write(w.join(n), b"mine").unwrap();
        }
    }
    // Longer files where outputs go.
    if r.chance(1, 3) {
        for p in [&set.ct, &set.key, &set.enc, &set.dmsg, &set.dkey] {
            if r.chance(1, 2) {
                std::fs::write(w.join(p), vec![7; 9000]).unwrap();
            }
        }
    }
    let embed = r.chance(1, 2);
    let mut go = |r: &mut Rng, cmd: &str, o: &[(&'static str, String)], outputs: &[&String], works: Option<bool>| watched(h, &line(r, h, cmd, o, embed), outputs, works, &mut bad, &mut n);
    let (a, b) = (
        go(r, "encap", &set.encap(), &[&set.ct, &set.key], Some(true)) && go(r, "decap", &set.decap(), &[&set.dkey], Some(true)),
        go(r, "encrypt", &set.encrypt(), &[&set.enc], Some(true)) && go(r, "decrypt", &set.decrypt(), &[&set.dmsg], Some(true)),
    );
    if a && b {
        // The same with an input that cannot be used.
        for (cmd, opts, outputs) in [("encap", set.encap(), vec![&set.ct, &set.key]), ("decap", set.decap(), vec![&set.dkey]), ("encrypt", set.encrypt(), vec![&set.enc]), ("decrypt", set.decrypt(), vec![&set.dmsg])] {
            let ins: Vec<&(&str, String)> = opts.iter().filter(|o| !outputs.contains(&&o.1) && !["message", "sym"].contains(&o.0)).collect();
            let victim = ins[r.us(ins.len())].1.clone();
            let good = body(h, &victim).unwrap_or_default();
            if r.chance(1, 3) {
                std::fs::remove_file(w.join(&victim)).unwrap();
            } else {
                std::fs::write(w.join(&victim), truncated(&good, r)).unwrap();
            }
            go(r, cmd, &opts, &outputs, Some(false));
            std::fs::write(w.join(&victim), &good).unwrap();
            // And with one that is damaged, whatever the command makes of it.
            for _ in 0..2 {
                let victim = ins[r.us(ins.len())].1.clone();
                let good = body(h, &victim).unwrap_or_default();
                let mut b = good.clone();
                for _ in 0..1 + r.us(2) {
                    let at = if r.chance(1, 2) { r.us(b.len().clamp(1, 8)) } else { r.us(b.len().max(1)) };
                    if let Some(v) = b.get_mut(at) {
                        *v = if r.chance(1, 2) { r.u64() as u8 } else { v.wrapping_add(1) };
                    }
                }
                std::fs::write(w.join(&victim), &b).unwrap();
                go(r, cmd, &opts, &outputs, None);
                std::fs::write(w.join(&victim), &good).unwrap();
                // What it wrote, if it took the file, is not what the comparisons below are about.
                if cmd == "encap" {
                    go(r, "encap", &set.encap(), &[&set.ct, &set.key], Some(true));
                    go(r, "decap", &set.decap(), &[&set.dkey], Some(true));
                }
                if cmd == "encrypt" {
                    go(r, "encrypt", &set.encrypt(), &[&set.enc], Some(true));
                }
                if cmd == "decap" {
                    go(r, "decap", &set.decap(), &[&set.dkey], Some(true));
                }
                if cmd == "encrypt" || cmd == "decrypt" {
                    go(r, "decrypt", &set.decrypt(), &[&set.dmsg], Some(true));
                }
            }
        }
    }
    if a {
        let (k, d) = (body(h, &set.key), body(h, &set.dkey));
        if k != d || k.as_ref().map(Vec::len) != Some(32) {
            bad.push(("the key decapsulated is not the key encapsulated".into(), json!({"files": [set.key, set.dkey]})));
        }
    }
    if b && body(h, &set.dmsg).as_deref() != Some(msg) {
        bad.push(("the message decrypted is not the message encrypted".into(), json!({"bytes": msg.len()})));
    }
    (bad, n)
}
pub fn c41(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    x.run("commands", x.q(90, 4000), |c| {
        let jobs: Vec<_> = (0..8)
            .map(|i| {
                let s = scene(&mut c.rng, &names);
                let n = c.rng.size(2000);
                (s, if c.rng.chance(1, 4) { Set::plain() } else { Set::odd(&mut c.rng) }, c.rng.content(n), c.rng.u64(), Home::new(&dir, &format!("h{}", i)))
            })
            .collect();
        c.sample(jobs[0].0.describe());
        c.key(h64(&jobs.iter().map(|j| j.3).collect::<Vec<_>>()));
        let res = par(jobs.iter().map(|(s, set, m, sd, h)| move || one_scene(h, set, s, &mut Rng::new(*sd), m)).collect());
        for ((s, ..), (bad, n)) in jobs.iter().zip(res) {
            c.ops += n;
            c.count("commands_watched", n);
            for (m, d) in bad {
                c.fail(m, json!({"scene": s.describe(), "detail": d}));
            }
        }
    });
    // An output that stands where an input stood.
    x.run("in-place", x.q(40, 2000), |c| {
        let s = scene(&mut c.rng, &names);
        let n = c.rng.size(4000);
        let msg = c.rng.content(n);
        c.key((file(&s.k.m), c.idx));
        c.input(s.describe());
        let base = Set::plain();
        // (command, option that takes the output, option whose file is replaced)
        let over = [
            ("encap", "ciphertext", "input"), ("encap", "key", "input"), ("encap", "ciphertext", "sym"), ("encap", "key", "circuit"), ("encap", "ciphertext", "circuit"),
            ("decap", "key", "ciphertext"), ("decap", "key", "witness"), ("decap", "key", "circuit"),
            ("encrypt", "output", "message"), ("encrypt", "output", "input"), ("encrypt", "output", "sym"), ("encrypt", "output", "circuit"),
            ("decrypt", "output", "ciphertext"), ("decrypt", "output", "witness"), ("decrypt", "output", "circuit"),
        ];
        let seed = c.rng.u64();
        let res = par(
            over.iter()
                .enumerate()
                .map(|(i, (cmd, out, inp))| {
                    let (s, msg, base, dir) = (&s, &msg, &base, &dir);
                    move || -> Result<(), String> {
                        let mut r = Rng::new(seed ^ i as u64);
                        let h = Home::new(dir, &format!("p{}", i));
                        base.write(&h, &mut r, s, msg);
                        let embed = r.chance(1, 2);
                        let run = |r: &mut Rng, cmd: &str, o: Vec<(&'static str, String)>| -> Result<(), String> {
                            let o = h.run(&line(r, &h, cmd, &o, embed), &[]);
                            if o.ok() { Ok(()) } else { Err(format!("{} failed: {}", cmd, o.show())) }
                        };
                        // What has to be there first, and copies of what is replaced.
                        if *cmd == "decap" {
                            run(&mut r, "encap", base.encap())?;
                        }
                        if *cmd == "decrypt" {
                            run(&mut r, "encrypt", base.encrypt())?;
                        }
                        let mut opts = match *cmd { "encap" => base.encap(), "decap" => base.decap(), "encrypt" => base.encrypt(), _ => base.decrypt() };
                        let at = opts.iter().find(|o| o.0 == *inp).unwrap().1.clone();
                        std::fs::copy(h.work().join(&at), h.work().join("copy")).unwrap();
                        opts.iter_mut().find(|o| o.0 == *out).unwrap().1 = at.clone();
                        run(&mut r, cmd, opts)?;
                        let got = body(&h, &at).unwrap();
                        let mut back = base.clone();
                        match *cmd {
                            "encap" => {
                                if *out == "ciphertext" { back.ct = at.clone() } else { back.key = at.clone() }
                                if *inp == "circuit" { back.circuit = "copy".into() }
                                run(&mut r, "decap", back.decap())?;
                                if body(&h, &back.key) != body(&h, &back.dkey) { return Err("the two keys differ".into()) }
                            }
                            "decap" => if Some(got) != body(&h, &base.key) { return Err("the two keys differ".into()) },
                            "encrypt" => {
                                back.enc = at.clone();
                                if *inp == "circuit" { back.circuit = "copy".into() }
                                run(&mut r, "decrypt", back.decrypt())?;
                                if body(&h, &back.dmsg).as_ref() != Some(msg) { return Err("another message came back".into()) }
                            }
                            _ => if got != *msg { return Err("another message came back".into()) },
                        }
                        Ok(())
                    }
                })
                .collect(),
        );
        for ((cmd, out, inp), e) in over.iter().zip(res) {
            c.ops += 1;
            c.count("outputs_over_inputs", 1);
            if let Err(e) = e {
                c.fail("a command whose output takes the place of one of its inputs does not do its work", json!({"command": cmd, "output": out, "in_place_of": inp, "what": e}));
            }
        }
    });
    // Files that are known by other names: symbolic links for inputs and outputs, relative and absolute, one after another.
    x.run("links", x.q(20, 600), |c| {
        let s = scene(&mut c.rng, &names);
        let n = c.rng.size(4000);
        let msg = c.rng.content(n);
        c.key((file(&s.k.m), c.idx));
        c.input(s.describe());
        let h = Home::new(&dir, "ln");
        let base = Set::plain();
        base.write(&h, &mut c.rng, &s, &msg);
        let w = h.work();
        std::fs::create_dir(w.join("far")).unwrap();
        let mut set = base.clone();
        let mut n = 0;
        let mut link = |r: &mut Rng, name: &mut String, output: bool| {
            n += 1;
            if r.chance(1, 4) {
                return;
            }
            let real = if output { format!("far/{}", name) } else { name.clone() };
            if output && r.chance(1, 2) {
                // Longer than what will be written.
                std::fs::write(w.join(&real), vec![9; 12000]).unwrap();
            } else if output {
                std::fs::write(w.join(&real), b"").unwrap();
            }
            let mut to = if r.chance(1, 2) { w.join(&real).to_string_lossy().to_string() } else { real.clone() };
            for i in 0..1 + r.us(2) {
                let l = format!("l{}-{}", n, i);
                std::os::unix::fs::symlink(&to, w.join(&l)).unwrap();
                to = l;
            }
            *name = to;
        };
        for (f, output) in [(&mut set.circuit, false), (&mut set.sym, false), (&mut set.input, false), (&mut set.witness, false), (&mut set.message, false), (&mut set.ct, true), (&mut set.key, true), (&mut set.dkey, true), (&mut set.enc, true), (&mut set.dmsg, true)] {
            link(&mut c.rng, f, output);
        }
        let ins = |h: &Home| -> Vec<Option<Vec<u8>>> { [&base.circuit, &base.sym, &base.input, &base.witness, &base.message].map(|n| body(h, n)).to_vec() };
        let before = ins(&h);
        let embed = c.rng.chance(1, 2);
        for (cmd, o) in [("encap", set.encap()), ("decap", set.decap()), ("encrypt", set.encrypt()), ("decrypt", set.decrypt())] {
            let l = line(&mut c.rng, &h, cmd, &o, embed);
            let r = h.run(&l, &[]);
            c.count("commands_on_links", 1);
            if !c.check(r.ok(), "a command on valid files known by symbolic links failed", || json!({"command": l, "ended": r.show()})) {
                return;
            }
        }
        c.check(ins(&h) == before, "commands changed inputs they were given through symbolic links", || json!({"files": format!("{:?}", set.all())}));
        let key = body(&h, &set.key);
        c.check(key.as_ref().is_some_and(|k| k.len() == 32) && key == body(&h, &set.dkey), "through symbolic links: the key decapsulated is not the key encapsulated", || json!({"files": format!("{:?}", set.all())}));
        c.check(body(&h, &set.dmsg).as_ref() == Some(&msg), "through symbolic links: the message decrypted is not the message encrypted", || json!({"files": format!("{:?}", set.all())}));
    });
    // Commands at the same time in one directory.
    let mut seen_orders = HashSet::new();
    x.run("overlap", x.q(90, 4000), |c| {
        let big = c.idx % 4 == 3;
        let s = if big {
            let sh = Shape { outs: c.rng.us(3), ins: c.rng.us(5), prv: 4, mid: 300, lc: 4 };
            let k = Circ::generate(&mut c.rng, &sh);
            scene_of(&mut c.rng, &names, k)
        } else {
            scene(&mut c.rng, &names)
        };
        c.key((file(&s.k.m), c.idx));
        c.input(s.describe());
        c.sample(s.describe());
        let h = Home::new(&dir, "o");
        let base = Set::plain();
        base.write(&h, &mut c.rng, &s, b"");
        let k = 5 + c.rng.us(5);
        // Output names that share stems, extensions and lengths.
        let kind = c.rng.below(4);
        let sets: Vec<Set> = (0..k)
            .map(|i| {
                let mut t = base.clone();
                let name = |what: &str| match kind {
                    0 => format!("out.{}{}", what, i),
                    1 => format!("{}-{}", i, what),
                    2 => format!("out{}.{}", ["", ".tmp", "~", ".bak", ".new", ".part", ".lock", ".1", ".old", ".swp"][i], what),
                    _ => format!("out.{}{}", what, ["", ".tmp", "~", ".bak", ".new", ".part", ".lock", ".1", ".old", ".swp"][i]),
                };
                (t.ct, t.key, t.dkey, t.enc, t.dmsg, t.message) = (name("ct"), name("key"), name("dkey"), name("enc"), name("dmsg"), name("msg"));
                t
            })
            .collect();
        let msgs: Vec<Vec<u8>> = sets.iter().map(|t| { let n = c.rng.size(3000); let m = c.rng.bytes(n); std::fs::write(h.work().join(&t.message), &m).unwrap(); m }).collect();
        let before = h.seen();
        let mut orders: Vec<Vec<usize>> = vec![];
        for phase in 0..2 {
            let mut todo: Vec<(usize, &str, Vec<String>)> = vec![];
            for (i, t) in sets.iter().enumerate() {
                let embed = c.rng.chance(1, 2);
                let two = if phase == 0 { [("encap", t.encap()), ("encrypt", t.encrypt())] } else { [("decap", t.decap()), ("decrypt", t.decrypt())] };
                for (n, o) in two {
                    let l = line(&mut c.rng, &h, n, &o, embed);
                    todo.push((i, n, l));
                }
            }
            c.rng.shuffle(&mut todo);
            // Everything starts at once; some are held up for a moment at a point of their own.
            let started: Vec<Child> = todo.iter().map(|(_, _, a)| h.start(a, &[])).collect();
            let pids: Vec<(i32, u64, u64)> = started.iter().map(|p| (p.id() as i32, if big { c.rng.below(30000) } else { c.rng.below(4000) }, c.rng.below(30))).collect();
            let held = std::sync::atomic::AtomicU64::new(0);
            let done = std::sync::Mutex::new(vec![]);
            let ends: Vec<Run> = std::thread::scope(|sc| {
                let t: Vec<_> = started
                    .into_iter()
                    .zip(&pids)
                    .enumerate()
                    .map(|(n, (mut p, (pid, wait, hold)))| {
                        let (held, done) = (&held, &done);
                        sc.spawn(move || {
                            if n % 2 == 0 {
                                std::thread::sleep(std::time::Duration::from_micros(*wait));
                                // Only a child that has not been waited for can be held up.
                                if let Ok(None) = p.try_wait() {
                                    unsafe { libc::kill(*pid, libc::SIGSTOP) };
                                    std::thread::sleep(std::time::Duration::from_millis(*hold));
                                    unsafe { libc::kill(*pid, libc::SIGCONT) };
                                    held.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                }
                            }
                            let o = end(p);
                            done.lock().unwrap().push(n);
                            o
                        })
                    })
                    .collect();
                t.into_iter().map(|t| t.join().unwrap()).collect()
            });
            orders.push(done.into_inner().unwrap());
            c.count("commands_held_up", held.into_inner());
            for ((i, n, _), o) in todo.iter().zip(&ends) {
                c.ops += 1;
                c.count("overlapping_commands", 1);
                if !c.check(o.ok(), "a command failed while others ran in the same directory", || json!({"command": n, "which": i, "ended": o.show()})) {
                    return;
                }
            }
        }
        seen_orders.insert(h64(&orders));
        c.set("distinct_completion_orders", seen_orders.len() as u64);
        let mut keys = HashSet::new();
        for (t, m) in sets.iter().zip(&msgs) {
            let key = body(&h, &t.key);
            c.check(key.is_some() && key == body(&h, &t.dkey), "overlapping commands: the key decapsulated is not the key encapsulated", || json!({"files": [t.key, t.dkey]}));
            c.check(keys.insert(key), "overlapping commands gave the same key", || json!({"file": t.key}));
            c.check(body(&h, &t.dmsg).as_ref() == Some(m), "overlapping commands: the message decrypted is not the message encrypted", || json!({"files": [t.message, t.dmsg]}));
        }
        let all: Vec<&String> = sets.iter().flat_map(|t| [&t.ct, &t.key, &t.dkey, &t.enc, &t.dmsg]).collect();
        let o = outs(&h, &all);
        let d = changed(&before, &h.seen(), &o);
        c.check(d.is_none(), "overlapping commands touched a file none was told to write", || json!({"what": d}));
    });
}

// ------------------------------------------------------------------------------------------------ C42
/// Byte strings and numbers that must not be seen, and how they could be spelled.
struct Secrets {
    /// Byte strings of which no stretch of `.2` bytes may appear.
    bytes: Vec<(String, Vec<u8>, usize)>,
    numbers: Vec<(String, Fr)>,
}
fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
        }
    }
    s
}
fn has(hay: &[u8], needle: &[u8]) -> bool {
    !needle.is_empty() && hay.len() >= needle.len() && hay.windows(needle.len()).any(|w| w == needle)
}
impl Secrets {
    /// What of this is in the text.
    fn found(&self, text: &[u8]) -> Option<String> {
        let lower: Vec<u8> = text.to_ascii_lowercase();
        // Digits only, hexadecimal digits only: separators and line breaks make no difference.
        let tight: Vec<u8> = lower.iter().copied().filter(|b| b.is_ascii_hexdigit()).collect();
        let spaced: String = {
            let mut s = String::new();
            for b in &lower {
                if b.is_ascii_digit() {
                    s.push(*b as char);
                } else if !s.ends_with(' ') {
                    s.push(' ');
                }
            }
            s
        };
        let plain: Vec<u8> = text.iter().copied().filter(|b| !b.is_ascii_whitespace()).map(|b| match b { b'-' => b'+', b'_' => b'/', b => b }).collect();
        for (name, b, n) in &self.bytes {
            if b.len() < *n {
                continue;
            }
            for (at, w) in b.windows(*n).enumerate() {
                if has(text, w) {
                    return Some(format!("{} as raw bytes, from byte {}", name, at));
                }
                if at % 4 == 0 {
                    if has(&lower, hex(w).as_bytes()) || has(&tight, hex(w).as_bytes()) {
                        return Some(format!("{} in hexadecimal, from byte {}", name, at));
                    }
                    let l: Vec<String> = w.iter().map(|b| b.to_string()).collect();
                    if has(spaced.as_bytes(), format!(" {} ", l.join(" ")).as_bytes()) {
                        return Some(format!("{} as a list of numbers, from byte {}", name, at));
                    }
                }
                if at % 3 == 0 {
                    let k = n / 3 * 3;
                    if has(&plain, base64(&w[..k]).as_bytes()) {
                        return Some(format!("{} in base 64, from byte {}", name, at));
                    }
                }
            }
        }
        for (name, v) in &self.numbers {
            let b = le(v);
            if has(&lower, decimal(&b).as_bytes()) {
                return Some(format!("{} in decimal", name));
            }
            let be: Vec<u8> = b.iter().rev().copied().collect();
            for w in [&b, &be] {
                if has(&tight, hex(&w[8..24]).as_bytes()) {
                    return Some(format!("{} in hexadecimal", name));
                }
                let l: Vec<String> = w[8..20].iter().map(|b| b.to_string()).collect();
                if has(spaced.as_bytes(), l.join(" ").as_bytes()) {
                    return Some(format!("{} as a list of bytes", name));
                }
            }
            for l in b.chunks(8).map(|l| u64::from_le_bytes(l.try_into().unwrap())) {
                if l > 1 << 50 && has(&lower, l.to_string().as_bytes()) {
                    return Some(format!("{} by its limbs", name));
                }
            }
        }
        None
    }
    /// Private values of a witness that no public value gives away.
    fn witness(&mut self, s: &Scene) {
        let p = s.k.n_pub();
        // The middle of a number stands for it; it must not be that of a public one.
        let mid = |v: &Fr| le(v)[8..24].to_vec();
        let public: HashSet<Vec<u8>> = s.w[..=p].iter().flat_map(|v| [mid(v), mid(&-*v)]).collect();
        for (i, v) in s.w.iter().enumerate().skip(p + 1) {
            let (a, m) = (mid(v), mid(&-*v));
            if [&a, &m].iter().all(|b| b[2..].iter().any(|x| *x != 0) && b[2..].iter().any(|x| *x != 0xff)) && !public.contains(&a) && !public.contains(&m) {
                self.numbers.push((format!("private wire {}", i), *v));
            }
        }
    }
    /// Scalars drawn from these random bytes, and the bytes themselves.
    fn drawn(&mut self, b: &[u8]) {
        let mut g = Given { bytes: b.to_vec(), at: 0 };
        let mut h = ark_std::rand::rngs::StdRng::from_seed(b[..32].try_into().unwrap());
        for i in 0..5 {
            self.numbers.push((format!("random scalar {}", i), Fr::rand(&mut g)));
            self.numbers.push((format!("random scalar {} of the seeded generator", i), Fr::rand(&mut h)));
        }
        self.bytes.push(("the random bytes drawn".into(), b[..160].to_vec(), 10));
    }
}
fn text(r: &mut Rng) -> Vec<u8> {
    let n = 30 + r.us(80);
    match r.below(3) {
        0 => r.bytes(n),
        _ => (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789,.")).collect(),
    }
}
/// What is written to the standard streams while this runs.
fn captured<T>(file: &Path, f: impl FnOnce() -> T) -> (T, Vec<u8>) {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let out = std::fs::File::create(file).unwrap();
    let _ = std::io::stdout().flush();
    let r;
    unsafe {
        let (a, b) = (libc::dup(1), libc::dup(2));
        libc::dup2(out.as_raw_fd(), 1);
        libc::dup2(out.as_raw_fd(), 2);
        r = f();
        let _ = std::io::stdout().flush();
        libc::dup2(a, 1);
        libc::dup2(b, 2);
        libc::close(a);
        libc::close(b);
    }
    drop(out);
    let mut v = vec![];
    std::fs::File::open(file).unwrap().read_to_end(&mut v).unwrap();
    (r, v)
}
pub fn c42(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    // A private value that stands out in every private wire.
    let secret_scene = |r: &mut Rng| loop {
        let s = scene(r, &names);
        let mut t = Secrets { bytes: vec![], numbers: vec![] };
        t.witness(&s);
        if !t.numbers.is_empty() || r.chance(1, 12) {
            return s;
        }
    };
    x.run("commands", x.q(30, 1500), |c| {
        let jobs: Vec<_> = (0..8).map(|i| (secret_scene(&mut c.rng), c.rng.u64(), Home::new(&dir, &format!("h{}", i)))).collect();
        c.sample(jobs[0].0.describe());
        c.key(h64(&jobs.iter().map(|j| j.1).collect::<Vec<_>>()));
        let res = par(
            jobs.iter()
                .map(|(s, seed, h)| {
                    move || {
                        let r = &mut Rng::new(*seed);
                        let (mut bad, mut n, mut looked, mut secrets): (Bad, u64, u64, u64) = (vec![], 0, 0, 0);
                        let set = Set::plain();
                        let msg = text(r);
                        set.write(h, r, s, &msg);
                        let given = r.bytes(400);
                        let drawn_file = h.root.join("entropy");
                        std::fs::write(&drawn_file, &given).unwrap();
                        let env = vec![("VERIF_ENTROPY", drawn_file.to_string_lossy().to_string())];
                        let embed = r.chance(1, 2);
                        let mut logs: Vec<(String, Vec<u8>)> = vec![];
                        let mut go = |r: &mut Rng, cmd: &str, o: Vec<(&'static str, String)>, why: &str| {
                            let o = h.run(&line(r, h, cmd, &o, embed), &env);
                            logs.push((format!("{}{}", cmd, why), o.both()));
                            o.ok()
                        };
                        let ok = go(r, "encap", set.encap(), "") & go(r, "decap", set.decap(), "") & go(r, "encrypt", set.encrypt(), "") & go(r, "decrypt", set.decrypt(), "");
                        let mut t = Secrets { bytes: vec![("the message".into(), msg.clone(), 12)], numbers: vec![] };
                        t.witness(s);
                        t.drawn(&given);
                        for f in [&set.key, &set.dkey] {
                            if let Some(k) = body(h, f) {
                                t.bytes.push(("the key".into(), k, 8));
                            }
                        }
                        if let Some(p) = body(h, &set.enc).and_then(|b| split(&b)) {
                            if let Ok(k) = Setup::new(&s.k.m, &h.root).decap_all(Tool::Core, &s.w, &p.ct) {
                                t.bytes.push(("the message's key".into(), k, 8));
                            }
                        }
                        // Wrong in some way: what is told about it must not give secrets away either.
                        let w = h.work();
                        for (cmd, opts) in [("encap", set.encap()), ("decap", set.decap()), ("encrypt", set.encrypt()), ("decrypt", set.decrypt())] {
                            let outputs: &[&str] = match cmd { "encap" => &["ciphertext", "key"], "decap" => &["key"], _ => &["output"] };
                            for (o, p) in &opts {
                                if outputs.contains(o) {
                                    // An output that cannot be written.
                                    let mut v = opts.clone();
                                    v.iter_mut().find(|q| q.0 == *o).unwrap().1 = "nowhere/at/all".into();
                                    go(r, cmd, v, " to nowhere");
                                    continue;
                                }
                                let good = std::fs::read(w.join(p)).unwrap_or_default();
                                let mut b = good.clone();
                                match r.below(4) {
                                    0 => b.truncate(r.us(b.len().max(1))),
                                    1 => { let n = 1 + r.us(40); b.extend(r.bytes(n)) }
                                    2 if !b.is_empty() => for _ in 0..1 + r.us(3) { let i = r.us(b.len()); b[i] ^= 1 << r.below(8) },
                                    _ => b = good.iter().rev().copied().collect(),
                                }
                                std::fs::write(w.join(p), &b).unwrap();
                                go(r, cmd, opts.clone(), &format!(" with a damaged {}", o));
                                std::fs::write(w.join(p), &good).unwrap();
                            }
                            if let Some(j) = opts.iter().find(|o| o.0 == "witness") {
                                // A witness that is nearly right.
                                let mut v = s.w.clone();
                                let i = 1 + r.us(v.len().max(2) - 1);
                                if i < v.len() {
                                    v[i] = near(r, v[i]);
                                    std::fs::write(w.join(&j.1), wtns(&v)).unwrap();
                                    go(r, cmd, opts.clone(), " with a wrong witness");
                                    std::fs::write(w.join(&j.1), wtns(&s.w)).unwrap();
                                }
                            }
                        }
                        if !ok {
                            bad.push(("a command failed on valid files".into(), json!(String::from_utf8_lossy(&logs[0].1).chars().take(300).collect::<String>())));
                        }
                        secrets += (t.bytes.len() + t.numbers.len()) as u64;
                        for (what, l) in &logs {
                            n += 1;
                            looked += l.len() as u64;
                            if let Some(e) = t.found(l) {
                                bad.push(("a secret is printed".into(), json!({"command": what, "secret": e, "output": String::from_utf8_lossy(l).chars().take(3000).collect::<String>()})));
                            }
                        }
                        (bad, n, looked, secrets)
                    }
                })
                .collect(),
        );
        for ((s, ..), (bad, n, looked, secrets)) in jobs.iter().zip(res) {
            c.ops += n;
            c.count("commands_overheard", n);
            c.count("bytes_looked_through", looked);
            c.count("secrets_looked_for", secrets);
            for (m, d) in bad {
                c.fail(m, json!({"scene": s.describe(), "detail": d}));
            }
        }
    });
    // The library and the bindings in this process.
    let log = dir.join("overheard");
    x.run("library", x.q(120, 5000), |c| {
        let s = secret_scene(&mut c.rng);
        let tool = TOOLS[c.idx as usize % 3];
        let st = Setup::new(&s.k.m, &dir);
        c.key(h64(&st.bytes));
        c.input(s.describe());
        let given = c.rng.bytes(400);
        let mut t = Secrets { bytes: vec![], numbers: vec![] };
        t.witness(&s);
        t.drawn(&given);
        let mut logs: Vec<(&str, Vec<u8>)> = vec![];
        let (made, l) = captured(&log, || {
            getrandom::control::set(Some(given.clone()));
            let mut g = Given { bytes: given.clone(), at: 0 };
            let r = st.encap_with(tool, &s.w, &mut g);
            getrandom::control::set(None);
            r
        });
        logs.push(("encapsulation", l));
        let Some((ct, key)) = c.sut_ok("encapsulation", || made) else { return };
        t.bytes.push(("the key".into(), key.clone(), 8));
        let (k, l) = captured(&log, || st.decap_all(tool, &s.w, &ct));
        logs.push(("decapsulation", l));
        if let Ok(k) = k {
            t.bytes.push(("the key recovered".into(), k, 8));
        }
        for round in 0..4 {
            let mut w = s.w.clone();
            let mut d = ct.clone();
            match round {
                0 | 1 => {
                    let i = c.rng.us(w.len());
                    w[i] = near(&mut c.rng, w[i]);
                    if i > s.k.n_pub() {
                        // The value that was tried is as private as the right one.
                        t.witness(&Scene { w: w.clone(), ..s.clone() });
                    }
                }
                2 => d.truncate(c.rng.us(d.len())),
                _ => { let i = c.rng.us(d.len()); d[i] ^= 1 << c.rng.below(8) }
            }
            let (r, l) = captured(&log, || guard(|| st.decap_all(tool, &w, &d)));
            let mut l = l;
            if let Ok(Err(e)) = r {
                l.extend(e.into_bytes());
            }
            logs.push((["decapsulation with a wrong witness", "decapsulation with a wrong witness", "decapsulation of a cut ciphertext", "decapsulation of a changed ciphertext"][round], l));
        }
        c.count("secrets_looked_for", (t.bytes.len() + t.numbers.len()) as u64);
        for (what, l) in &logs {
            c.ops += 1;
            c.count(&format!("operations_overheard_{:?}", tool), 1);
            c.count("bytes_looked_through", l.len() as u64);
            if let Some(e) = t.found(l) {
                c.fail("a secret is printed", json!({"tool": format!("{:?}", tool), "operation": what, "secret": e, "output": String::from_utf8_lossy(l).chars().take(3000).collect::<String>()}));
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------ C43
/// Documented options: long name, short name.
const OPTS: [(&str, &[(&str, &str)]); 4] = [
    ("encap", &[("circuit", "c"), ("sym", "s"), ("input", "i"), ("ciphertext", ""), ("key", "k")]),
    ("decap", &[("circuit", "c"), ("witness", "w"), ("ciphertext", ""), ("key", "k")]),
    ("encrypt", &[("circuit", "c"), ("sym", "s"), ("input", "i"), ("message", "m"), ("output", "o")]),
    ("decrypt", &[("circuit", "c"), ("witness", "w"), ("ciphertext", "i"), ("output", "o")]),
];
fn spelled(r: &mut Rng, cmd: &str, opts: &[(&'static str, String)], flag: bool) -> Vec<String> {
    let known = OPTS.iter().find(|o| o.0 == cmd).unwrap().1;
    let mut parts: Vec<Vec<String>> = opts
        .iter()
        .map(|(o, p)| {
            let s = known.iter().find(|k| k.0 == *o).unwrap().1;
            match if s.is_empty() { r.below(2) } else { r.below(5) } {
                0 => vec![format!("--{}", o), p.clone()],
                1 => vec![format!("--{}={}", o, p)],
                2 => vec![format!("-{}", s), p.clone()],
                3 => vec![format!("-{}{}", s, p)],
                _ => vec![format!("-{}={}", s, p)],
            }
        })
        .collect();
    if flag {
        parts.push(vec!["--no-public-input".into()]);
    }
    r.shuffle(&mut parts);
    let mut a = vec![cmd.to_string()];
    a.extend(parts.concat());
    a
}
pub fn c43(x: &mut Ctx) {
    let names = Names::new(x);
    let dir = x.scratch.clone();
    x.run("spellings", x.q(90, 4000), |c| {
        let jobs: Vec<_> = (0..8).map(|i| (scene(&mut c.rng, &names), c.rng.u64(), Home::new(&dir, &format!("h{}", i)))).collect();
        c.sample(jobs[0].0.describe());
        c.key(h64(&jobs.iter().map(|j| j.1).collect::<Vec<_>>()));
        let res = par(
            jobs.iter()
                .map(|(s, seed, h)| {
                    move || {
                        let r = &mut Rng::new(*seed);
                        let (mut bad, mut n): (Bad, u64) = (vec![], 0);
                        // Odd names too, but none that reads as an option.
                        let set = loop {
                            let t = if r.chance(1, 2) { Set::plain() } else { Set::odd(r) };
                            if t.all().iter().all(|n| !n.starts_with('-')) {
                                break t;
                            }
                        };
                        let l = 1 + r.us(100);
                        let msg = r.bytes(l);
                        set.write(h, r, s, &msg);
                        let st = Setup::new(&s.k.m, &h.root);
                        let public = s.public_hex();
                        for _ in 0..2 {
                            let flag = r.chance(1, 2);
                            for f in [&set.ct, &set.key, &set.dkey, &set.enc, &set.dmsg] {
                                let _ = std::fs::remove_file(h.work().join(f));
                            }
                            for (cmd, opts, fl) in [("encap", set.encap(), false), ("decap", set.decap(), false), ("encrypt", set.encrypt(), flag), ("decrypt", set.decrypt(), false)] {
                                let a = spelled(r, cmd, &opts, fl);
                                let o = h.run(&a, &[]);
                                n += 1;
                                if !o.ok() {
                                    bad.push(("a documented way to give a command's options is refused".into(), json!({"command": a, "ended": o.show()})));
                                    continue;
                                }
                                let wrong = match cmd {
                                    "encap" => {
                                        let (ct, key) = (body(h, &set.ct).unwrap_or_default(), body(h, &set.key).unwrap_or_default());
                                        match st.decap_all(Tool::Core, &s.w, &ct) {
                                            Ok(k) if k == key && carried(&ct) == public => None,
                                            e => Some(format!("the ciphertext and key files do not hold what they should ({:?})", e.map(|k| hex(&k)))),
                                        }
                                    }
                                    "decap" => (body(h, &set.key) != body(h, &set.dkey)).then(|| "the key file does not hold the key".to_string()),
                                    "encrypt" => match body(h, &set.enc).and_then(|b| split(&b)) {
                                        Some(p) if carried(&p.ct) == public => {
                                            if (p.flag == 1) == fl {
                                                Some(format!("the public input is {}", if fl { "embedded" } else { "not embedded" }))
                                            } else if !fl && p.public != body(h, &set.input) {
                                                Some("another file is embedded as public input".into())
                                            } else {
                                                None
                                            }
                                        }
                                        _ => Some("the output is not a combined ciphertext for this input".into()),
                                    },
                                    _ => (body(h, &set.dmsg).as_ref() != Some(&msg)).then(|| "the output is not the message".to_string()),
                                };
                                if let Some(w) = wrong {
                                    bad.push(("a command does not use the files its options name".into(), json!({"command": a, "what": w})));
                                }
                            }
                        }
                        (bad, n)
                    }
                })
                .collect(),
        );
        for ((s, ..), (bad, n)) in jobs.iter().zip(res) {
            c.ops += n;
            c.count("command_lines_run", n);
            for (m, d) in bad {
                c.fail(m, json!({"scene": s.describe(), "detail": d}));
            }
        }
    });
    // File names the code itself mentions, and those a default could well be.
    let lying: Vec<String> = x
        .dict_strs
        .iter()
        .filter(|s| s.contains('.') && s.len() <= 40 && !s.starts_with(['.', '-']) && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"._-".contains(&b)))
        .cloned()
        .chain(["circuit.r1cs", "circuit.sym", "input.json", "witness.wtns", "message.txt", "ciphertext.bin", "encrypted.bin", "ciphertext", "message"].map(String::from))
        .take(120)
        .collect();
    // Command lines that say too little or something unknown.
    x.run("refused", x.q(30, 1000), |c| {
        let s = scene(&mut c.rng, &names);
        let h = Home::new(&dir, "r");
        let set = Set::plain();
        c.key((file(&s.k.m), c.idx));
        set.write(&h, &mut c.rng, &s, b"a message");
        let mut lines: Vec<(Vec<String>, String)> = vec![];
        for (cmd, opts) in [("encap", set.encap()), ("encrypt", set.encrypt())] {
            if !h.run(&spelled(&mut c.rng, cmd, &opts, false), &[]).ok() {
                return c.fail("a documented way to give a command's options is refused", json!({"command": cmd}));
            }
        }
        for (cmd, opts) in [("encap", set.encap()), ("decap", set.decap()), ("encrypt", set.encrypt()), ("decrypt", set.decrypt())] {
            for i in 0..opts.len() {
                let mut o = opts.clone();
                let gone = o.remove(i);
                lines.push((spelled(&mut c.rng, cmd, &o, false), format!("no --{}", gone.0)));
            }
            let mut a = spelled(&mut c.rng, cmd, &opts, false);
            a.push(c.rng.pick(&["--nonsense", "--nonsense=1", "-Z", "stray", "--public-input"]).to_string());
            lines.push((a, "an unknown option".into()));
            // Another command's option.
            let mut a = spelled(&mut c.rng, cmd, &opts, false);
            a.push(if ["encap", "encrypt"].contains(&cmd) { "--witness=w.wtns" } else { "--sym=c.sym" }.into());
            lines.push((a, "an option of another command".into()));
            if cmd != "encrypt" {
                let mut a = spelled(&mut c.rng, cmd, &opts, false);
                a.push("--no-public-input".into());
                lines.push((a, "a flag of another command".into()));
            }
            let mut a = spelled(&mut c.rng, cmd, &opts, false);
            a[0] = c.rng.pick(&["encode", "", "ENCAP", "encryptx"]).to_string();
            lines.push((a, "an unknown command".into()));
        }
        lines.push((vec![], "nothing at all".into()));
        let before = h.seen();
        let res = par(lines.iter().map(|(a, _)| { let h = &h; move || h.run(a, &[]) }).collect());
        let after = h.seen();
        for ((a, why), o) in lines.iter().zip(&res) {
            c.ops += 1;
            c.count("command_lines_refused", 1);
            c.check(!o.ok() && o.signal.is_none() && o.code != Some(101), "a command line that cannot be understood is not refused", || json!({"command": a, "why_it_cannot": why, "ended": o.show()}));
            c.check(!o.err.is_empty() || !o.out.is_empty(), "a command line is refused without a word", || json!({"command": a, "why_it_cannot": why}));
        }
        let d = changed(&before, &after, &[]);
        c.check(d.is_none(), "a command line that is refused touched a file", || json!({"what": d}));
        // The same where the file that is not named lies about under every name the code knows.
        for (cmd, opts) in [("encap", set.encap()), ("decap", set.decap()), ("encrypt", set.encrypt()), ("decrypt", set.decrypt())] {
            for gone in opts.iter().filter(|o| h.work().join(&o.1).exists()) {
                let good = body(&h, &gone.1).unwrap();
                let laid: Vec<PathBuf> = lying.iter().map(|n| h.work().join(n)).filter(|p| !p.exists()).collect();
                for p in &laid {
                    std::fs::write(p, &good).unwrap();
                }
                let rest: Vec<_> = opts.iter().filter(|o| o.0 != gone.0).cloned().collect();
                let a = spelled(&mut c.rng, cmd, &rest, false);
                let o = h.run(&a, &[]);
                c.ops += 1;
                c.count("command_lines_refused_among_lookalikes", 1);
                c.check(!o.ok(), "a command line that cannot be understood is not refused", || json!({"command": a, "why_it_cannot": format!("no --{}", gone.0), "ended": o.show()}));
                for p in &laid {
                    let _ = std::fs::remove_file(p);
                }
            }
        }
    });
}

//! C39: every file-based entry point of the library under injected I/O failures.
use crate::m_r1cs;
use crate::m_serial::{b_circ, cli, core, gen_circ, gen_tc, gen_wit, j_circ, j_tc, j_wit, Circ, Tc, Wit};
use crate::util::*;
use serde_json::json;
use std::path::{Path, PathBuf};
use zkenc_cli::{circom::{load_circom_circuit, parse_inputs}, r1cs::R1csFile};

type Loader = (&'static str, fn(&str) -> Result<(), String>);
macro_rules! l {
    ($n:expr, $e:expr) => {
        ($n, (|p: &str| { let f: fn(&str) -> Result<_, _> = $e; f(p).map(|_| ()).map_err(|e| e.to_string()) }) as fn(&str) -> Result<(), String>)
    };
}
fn loaders() -> Vec<Loader> {
    vec![
        l!("R1csFile::from_file", |p| R1csFile::from_file(p)),
        l!("parse_inputs", |p| parse_inputs(p)),
        l!("cli circuit load_json", |p| cli::C::load_json(p)),
        l!("cli circuit load_bincode", |p| cli::C::load_bincode(p)),
        l!("cli witness load_json", |p| cli::W::load_json(p)),
        l!("cli test case load_json", |p| cli::T::load_json(p)),
        l!("core circuit load_json", |p| core::C::load_json(p)),
        l!("core circuit load_bincode", |p| core::C::load_bincode(p)),
        l!("core witness load_json", |p| core::W::load_json(p)),
        l!("core test case load_json", |p| core::T::load_json(p)),
        ("load_circom_circuit (as the R1CS file)", |p| load_circom_circuit(p, "/dev/null").map(|_| ()).map_err(|e| e.to_string())),
        ("load_circom_circuit (as the WASM file)", |p| load_circom_circuit("/dev/null", p).map(|_| ()).map_err(|e| e.to_string())),
    ]
}
pub struct Vals {
    pub c: Circ,
    pub w: Wit,
    pub t: Tc,
}
const SAVERS: [&str; 8] = ["cli circuit save_json", "cli circuit save_bincode", "cli witness save_json", "cli test case save_json", "core circuit save_json", "core circuit save_bincode", "core witness save_json", "core test case save_json"];
fn save(k: usize, v: &Vals, p: &str) -> Result<(), String> {
    match k {
        0 => cli::c(&v.c).save_json(p),
        1 => cli::c(&v.c).save_bincode(p),
        2 => cli::w(&v.w).save_json(p),
        3 => cli::t(&v.t).save_json(p),
        4 => core::c(&v.c).save_json(p),
        5 => core::c(&v.c).save_bincode(p),
        6 => core::w(&v.w).save_json(p),
        _ => core::t(&v.t).save_json(p),
    }
    .map_err(|e| e.to_string())
}
/// Does the file hold exactly the value saved?
fn complete(k: usize, v: &Vals, p: &str) -> bool {
    let Ok(b) = std::fs::read(p) else { return false };
    let js = || serde_json::from_slice::<serde_json::Value>(&b).ok();
    match k % 4 {
        0 => js() == Some(j_circ(&v.c)),
        1 => {
            if v.c.labels.as_ref().map_or(0, |l| l.len()) <= 1 {
                b == b_circ(&v.c).0
            } else {
                b.len() == b_circ(&v.c).0.len()
            }
        }
        2 => js() == Some(j_wit(&v.w)),
        _ => js() == Some(j_tc(&v.t)),
    }
}
fn vals(r: &mut Rng, big: bool) -> Vals {
    let mut v = Vals { c: gen_circ(r, 4), w: gen_wit(r, 10), t: gen_tc(r) };
    if big {
        for i in 0..400u32 {
            v.c.cons.push([vec![(i, r.bytes(32))], vec![], vec![(i, r.bytes(32))]]);
            v.w.insert(i, r.bytes(32));
        }
        v.t.circ = v.c.clone();
    }
    v
}

pub fn c39(x: &mut Ctx) {
    let dir = x.scratch.clone();
    unsafe { libc::signal(libc::SIGXFSZ, libc::SIG_IGN) };
    let ls = loaders();
    // ------------------------------------------------ reads that cannot work
    let d = dir.join("a-directory");
    std::fs::create_dir_all(&d).unwrap();
    let f = dir.join("a-file");
    m_r1cs::put(&f, b"x");
    let dangling = dir.join("dangling");
    let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &dangling);
    let looped = dir.join("looped");
    let _ = std::os::unix::fs::symlink(&looped, &looped);
    let s = |p: PathBuf| p.to_str().unwrap().to_string();
    let bad: Vec<(&str, String)> = vec![
        ("missing file", s(dir.join("missing.bin"))),
        ("missing parent", s(dir.join("no/such/dir/file"))),
        ("directory", s(d.clone())),
        ("file used as a directory", s(f.join("inside"))),
        ("dangling link", s(dangling.clone())),
        ("link to itself", s(looped)),
        ("empty path", String::new()),
        ("NUL in path", s(dir.join("a\0b"))),
        ("name too long", s(dir.join("n".repeat(300)))),
        ("path too long", format!("{}/{}", s(dir.clone()), "p/".repeat(3000))),
        ("read error (EIO)", "/proc/self/mem".to_string()),
    ];
    let n = (ls.len() * bad.len()) as u64;
    x.run("unreadable", n, |c| {
        let (what, p) = &bad[c.idx as usize % bad.len()];
        let (who, lf) = ls[c.idx as usize / bad.len()];
        c.key((what, who));
        c.input(json!({"loader": who, "fault": what}));
        c.sample(json!({"loader": who, "fault": what}));
        let Some(r) = c.sut(who, || lf(p)) else { return };
        c.check(r.is_err(), "reading reported success although the file cannot be read", || json!({"loader": who, "fault": what}));
        c.count("faults_injected", 1);
    });
    // ------------------------------------------------ permission, in a process without privileges
    x.run("forbidden", 1, |c| {
        let p = dir.join("secret");
        let v = vals(&mut c.rng, false);
        m_r1cs::put(&p, b"{}");
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o000)).unwrap();
        let ps = s(p.clone());
        let mut fd = [0i32; 2];
        unsafe {
            libc::pipe(fd.as_mut_ptr());
            let pid = libc::fork();
            if pid == 0 {
                // Result bits: 0 error, 1 success, 2 panic.
                if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                    libc::_exit(9);
                }
                let mut out = vec![];
                for (_, lf) in &ls {
                    out.push(match guard(|| lf(&ps)) { Ok(Err(_)) => 0u8, Ok(Ok(_)) => 1, Err(_) => 2 });
                }
                for k in 0..SAVERS.len() {
                    out.push(match guard(|| save(k, &v, &ps)) { Ok(Err(_)) => 0u8, Ok(Ok(_)) => 1, Err(_) => 2 });
                }
                libc::write(fd[1], out.as_ptr() as *const _, out.len());
                libc::_exit(0);
            }
            libc::close(fd[1]);
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            let mut buf = [9u8; 64];
            let n = libc::read(fd[0], buf.as_mut_ptr() as *mut _, 64).max(0) as usize;
            libc::close(fd[0]);
            if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 9 {
                c.count("privileges_cannot_be_dropped", 1);
                return;
            }
            c.key(1);
            c.check(n == ls.len() + SAVERS.len(), "a load or save crashed without permission", || json!({"status": st, "results": n}));
            for (i, b) in buf[..n].iter().enumerate() {
                let who = if i < ls.len() { ls[i].0 } else { SAVERS[i - ls.len()] };
                c.check(*b == 0, "a load or save reported success (1) or panicked (2) without permission", || json!({"entry": who, "result": b}));
            }
            c.count("faults_injected", n as u64);
        }
    });
    // ------------------------------------------------ writes that cannot work
    let badw: Vec<(&str, String)> = vec![
        // Only ever tried without the rights to replace the device, see `as_nobody`.
        ("full device", "/dev/full".to_string()),
        ("missing parent", s(dir.join("no/such/dir/file"))),
        ("directory", s(d.clone())),
        ("file used as a directory", s(f.join("inside"))),
        ("empty path", String::new()),
        ("NUL in path", s(dir.join("a\0b"))),
        ("name too long", s(dir.join("n".repeat(300)))),
    ];
    x.run("unwritable", (SAVERS.len() * badw.len()) as u64 * x.q(4, 40), |c| {
        let i = c.idx as usize;
        let (what, p) = &badw[i % badw.len()];
        let k = i / badw.len() % SAVERS.len();
        let full = *what == "full device";
        if full && !is_full_device(Path::new(p)) {
            c.count("no_full_device_here", 1);
            return;
        }
        let big = c.rng.chance(1, 3);
        let v = vals(&mut c.rng, big);
        c.key((what, k, big, c.idx));
        c.input(json!({"saver": SAVERS[k], "fault": what, "large": big}));
        c.sample(json!({"saver": SAVERS[k], "fault": what, "large": big}));
        let r = if full {
            match as_nobody(|| c.sut(SAVERS[k], || save(k, &v, p))) {
                Some(r) => r,
                None => {
                    c.count("privileges_cannot_be_dropped", 1);
                    return;
                }
            }
        } else {
            c.sut(SAVERS[k], || save(k, &v, p))
        };
        let Some(r) = r else { return };
        c.check(r.is_err(), "saving reported success although the file cannot be written", || json!({"saver": SAVERS[k], "fault": what}));
        c.count("faults_injected", 1);
    });
    // ------------------------------------------------ the disk fills up after n bytes
    x.run("size_limit", x.q(400, 6000), |c| {
        let k = c.idx as usize % SAVERS.len();
        let big = c.rng.chance(1, 3);
        let v = vals(&mut c.rng, big);
        let p = dir.join(format!("lim-{}", c.idx % 3));
        let ps = s(p.clone());
        let existing = c.rng.chance(1, 2);
        if existing {
            let n = c.rng.size(3000);
            m_r1cs::put(&p, &c.rng.bytes(n));
        } else {
            let _ = std::fs::remove_file(&p);
        }
        let probe = dir.join("probe");
        let _ = std::fs::remove_file(&probe);
        let Some(()) = c.sut_ok(SAVERS[k], || save(k, &v, probe.to_str().unwrap())) else { return };
        let full = std::fs::metadata(&probe).map(|m| m.len()).unwrap_or(0);
        let lim = match c.rng.below(6) {
            0 => full.saturating_sub(1),
            1 => full,
            2 => full + 1,
            3 => c.rng.below(full + 1) / 8192 * 8192,
            4 => full.saturating_sub(1 + c.rng.below(64)),
            _ => c.rng.below(full + 1),
        };
        c.key((k, full, lim));
        c.input(json!({"saver": SAVERS[k], "full_size": full, "size_limit": lim, "over_existing": existing}));
        c.sample(json!({"saver": SAVERS[k], "full_size": full, "size_limit": lim, "over_existing": existing}));
        let old = unsafe {
            let mut o: libc::rlimit = std::mem::zeroed();
            libc::getrlimit(libc::RLIMIT_FSIZE, &mut o);
            let nl = libc::rlimit { rlim_cur: lim, rlim_max: o.rlim_max };
            libc::setrlimit(libc::RLIMIT_FSIZE, &nl);
            o
        };
        let r = c.sut(SAVERS[k], || save(k, &v, &ps));
        unsafe { libc::setrlimit(libc::RLIMIT_FSIZE, &old) };
        let Some(r) = r else { return };
        c.count("faults_injected", (lim < full) as u64);
        match r {
            Ok(()) => {
                c.check(complete(k, &v, &ps), "saving reported success with incomplete content", || json!({"saver": SAVERS[k], "full_size": full, "size_limit": lim, "size_on_disk": std::fs::metadata(&p).map(|m| m.len()).ok()}));
            }
            Err(e) => {
                c.check(lim < full, "saving failed although there was room", || json!({"error": e, "limit": lim, "size": full}));
            }
        }
    });
    // ------------------------------------------------ success means complete, through links and over old content
    x.run("success", x.q(600, 10000), |c| {
        let k = c.idx as usize % SAVERS.len();
        let big = c.rng.chance(1, 4);
        let v = vals(&mut c.rng, big);
        let p = dir.join(format!("ok-{}", c.rng.us(3)));
        let link = dir.join("ok-link");
        let via = c.rng.chance(1, 5);
        if via {
            let _ = std::fs::remove_file(&link);
            let _ = std::os::unix::fs::symlink(&p, &link);
        }
        let ps = s(if via { link.clone() } else { p.clone() });
        c.key((k, via, c.idx));
        c.input(json!({"saver": SAVERS[k], "through_link": via}));
        let Some(()) = c.sut_ok(SAVERS[k], || save(k, &v, &ps)) else { return };
        c.check(complete(k, &v, &ps), "saving reported success with other content", || json!({"saver": SAVERS[k]}));
    });
    // ------------------------------------------------ the R1CS and WASM pair
    let states = ["good", "empty", "missing", "directory", "dangling"];
    x.run("pair", 25 * x.q(2, 10), |c| {
        let (a, b) = (c.idx as usize % 5, c.idx as usize / 5 % 5);
        let mk = |n: &str, st: &str, sz: usize, r: &mut Rng| -> PathBuf {
            let p = dir.join(format!("pair-{}", n));
            let _ = std::fs::remove_file(&p);
            let _ = std::fs::remove_dir(&p);
            match st {
                "good" => m_r1cs::put(&p, &r.bytes(sz)),
                "empty" => m_r1cs::put(&p, b""),
                "directory" => std::fs::create_dir(&p).unwrap(),
                "dangling" => {
                    let _ = std::os::unix::fs::symlink(dir.join("nowhere"), &p);
                }
                _ => {}
            }
            p
        };
        let n = *c.rng.pick(&[1usize, 10, 999, 1000, 1001, 5000, 70000]);
        let (pa, pb) = (mk("r1cs", states[a], n, &mut c.rng), mk("wasm", states[b], n, &mut c.rng));
        c.key((a, b, n));
        c.input(json!({"r1cs": states[a], "wasm": states[b]}));
        c.sample(json!({"r1cs": states[a], "wasm": states[b]}));
        let Some(r) = c.sut("load_circom_circuit", || load_circom_circuit(&pa, &pb)) else { return };
        c.check(r.is_ok() == (a < 2 && b < 2), "loading the pair does not succeed exactly when both can be read", || json!({"r1cs": states[a], "wasm": states[b], "succeeded": r.is_ok()}));
        let _ = std::fs::remove_dir(&pa);
        let _ = std::fs::remove_dir(&pb);
    });
    let _ = Path::new("");
}

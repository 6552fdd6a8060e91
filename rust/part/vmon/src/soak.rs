//! Long use: what one process holds - memory, descriptors, threads, files - after many calls.
use crate::util::*;
use serde_json::json;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Level {
    heap: u64,
    fds: u64,
    threads: u64,
    files: u64,
}
fn entries(d: &Path) -> u64 {
    let Ok(r) = std::fs::read_dir(d) else { return 0 };
    r.flatten().map(|e| 1 + if e.file_type().map_or(false, |t| t.is_dir()) { entries(&e.path()) } else { 0 }).sum()
}
fn level(root: &Path) -> Level {
    let n = |p: &str| std::fs::read_dir(p).map_or(0, |r| r.count() as u64);
    let (fds, threads, files) = (n("/proc/self/fd"), n("/proc/self/task"), entries(root));
    Level { heap: live() as u64, fds, threads, files }
}
/// What grew from each level to the next, by more than caches that fill up once explain.
fn grown(v: &[Level], calls: &[u64]) -> Option<&'static str> {
    let all = |f: fn(&Level) -> u64, least: &dyn Fn(u64) -> u64| v.windows(2).zip(calls).all(|(w, n)| f(&w[1]) > f(&w[0]) + least(*n));
    if all(|l| l.heap, &|n| 256 + n) {
        return Some("memory that is never released");
    }
    if all(|l| l.fds, &|n| n / 100) {
        return Some("open file descriptors");
    }
    if all(|l| l.threads, &|n| n / 100) {
        return Some("threads");
    }
    if all(|l| l.files, &|n| n / 100) {
        return Some("files that were not asked for");
    }
    None
}
/// Makes `n` calls, each with inputs of its own, that keep nothing themselves and remove the files they name, and
/// compares what the process holds after a quarter, a half and all of them; when everything grew, after twice and four
/// times as many. `root` holds the working and the temporary directory.
pub fn soak(c: &mut Case, what: &str, n: u64, root: &Path, mut call: impl FnMut(&mut Rng, u64) -> Result<(), String>) {
    let (mut at, mut judged, mut refused) = (0u64, true, None);
    let seed = c.rng.u64();
    let mut upto = |end: u64, judged: &mut bool, refused: &mut Option<(u64, String)>| {
        while at < end {
            let mut r = Rng::new(seed ^ at.wrapping_mul(0x9e37_79b9_7f4a_7c15));
            if let Err(m) = guard(|| call(&mut r, at)).unwrap_or_else(|m| Err(format!("panicked: {}", m))) {
                if at < n / 8 {
                    *judged = false;
                } else if refused.is_none() {
                    *refused = Some((at, m));
                }
            }
            at += 1;
        }
        level(root)
    };
    let mut v = vec![];
    let mut ends = vec![n / 4, n / 2, n];
    for e in ends.clone() {
        v.push(upto(e, &mut judged, &mut refused));
    }
    let gaps = |e: &[u64]| e.windows(2).map(|w| w[1] - w[0]).collect::<Vec<_>>();
    if grown(&v, &gaps(&ends)).is_some() {
        for e in [2 * n, 4 * n] {
            v.push(upto(e, &mut judged, &mut refused));
            ends.push(e);
        }
    }
    c.ops += *ends.last().unwrap();
    c.count(&format!("calls_{}", what.replace(' ', "_")), *ends.last().unwrap());
    c.key(h64(&(what, seed)));
    c.sample(json!({"calls": what, "after": ends, "held": v.iter().map(|l| format!("{:?}", l)).collect::<Vec<_>>()}));
    let detail = json!({"calls": ends, "held": v.iter().map(|l| format!("{:?}", l)).collect::<Vec<_>>()});
    if let Some(g) = grown(&v, &gaps(&ends)) {
        c.fail(format!("{}: every call leaves behind {}", what, g), detail);
    } else if let (true, Some((i, m))) = (judged, refused) {
        c.fail(format!("{}: calls succeed at first and fail later: call {}: {:.300}", what, i, m), detail);
    }
    if !judged {
        c.count("wrong_from_the_start", 1);
    }
}

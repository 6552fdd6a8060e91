//! Storms: calls from many threads at once, each judged by what it gives alone.
use crate::util::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};

/// A call and the judgement of its result. The argument is a number no other call in progress has, for private paths.
pub type Job = Box<dyn Fn(usize) -> Result<(), (String, Value)> + Send + Sync>;
pub struct Task {
    pub kind: &'static str,
    pub job: Job,
}
pub fn task(kind: &'static str, job: impl Fn(usize) -> Result<(), (String, Value)> + Send + Sync + 'static) -> Task {
    Task { kind, job: Box::new(job) }
}
pub fn wrong<T>(m: impl Into<String>, d: Value) -> Result<T, (String, Value)> {
    Err((m.into(), d))
}
/// What a call on valid input gives, or the complaint that it failed.
pub fn must<T, E: std::fmt::Display>(what: &str, r: Result<T, E>) -> Result<T, (String, Value)> {
    r.map_err(|e| (format!("{} failed on valid input: {:.300}", what, e.to_string()), Value::Null))
}
/// Runs a task; panics become complaints.
fn once(t: &Task, slot: usize) -> Result<(), (String, Value)> {
    guard(|| (t.job)(slot)).unwrap_or_else(|m| wrong(format!("panicked: {}", m), Value::Null))
}
fn cpu() -> Duration {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
    }
}
/// A thread told to halt rests for a moment wherever it is, between any two instructions.
static HALT: AtomicU64 = AtomicU64::new(0);
extern "C" fn halt(_: libc::c_int) {
    let n = HALT.fetch_add(0x9e37_79b9_7f4a_7c15, SeqCst);
    let n = (n ^ (n >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9) >> 40;
    // Mostly short, sometimes long enough for another call to run from its beginning to its end.
    let us = if n % 16 == 0 { n / 16 % 4000 } else { n / 16 % 200 };
    unsafe {
        let e = *libc::__errno_location();
        libc::nanosleep(&libc::timespec { tv_sec: 0, tv_nsec: us as i64 * 1000 }, std::ptr::null_mut());
        *libc::__errno_location() = e;
    }
}
fn halt_signal() -> libc::c_int {
    // Not a real-time signal: those queue up.
    let sig = libc::SIGUSR2;
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = halt as *const () as usize;
        a.sa_flags = libc::SA_RESTART;
        libc::sigaction(sig, &a, std::ptr::null_mut());
    }
    sig
}
pub const EXIT_DEADLOCK: i32 = 79;

/// Runs every task alone, then `steps` random ones in each of `threads` threads at once, then each alone again.
/// A task whose result is wrong when alone is nothing this monitor can judge, and is left out.
pub fn storm(c: &mut Case, tasks: Vec<Task>, threads: usize, steps: usize) {
    let all = tasks.len();
    let tasks: Vec<Task> = tasks.into_iter().filter(|t| once(t, 0).is_ok()).collect();
    c.count("tasks", tasks.len() as u64);
    c.count("tasks_wrong_alone", (all - tasks.len()) as u64);
    if tasks.is_empty() {
        return;
    }
    let seeds: Vec<u64> = (0..threads).map(|_| c.rng.u64()).collect();
    let barrier = Barrier::new(threads);
    let (active, met, done) = (AtomicUsize::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let (order, pairs) = (Mutex::new(vec![]), Mutex::new(HashSet::new()));
    let running: Vec<AtomicUsize> = (0..threads).map(|_| AtomicUsize::new(usize::MAX)).collect();
    let bad: Mutex<Vec<(String, &str, Value)>> = Mutex::new(vec![]);
    let over = Mutex::new(false);
    let sig = halt_signal();
    let ids: Vec<Mutex<Option<libc::pthread_t>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let halts = AtomicU64::new(0);
    let wake = std::sync::Condvar::new();
    jitter(Some(seeds[0]));
    short::slow(true);
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (tasks, seeds, barrier, active, met, done, order, pairs, running, bad, ids) = (&tasks, &seeds, &barrier, &active, &met, &done, &order, &pairs, &running, &bad, &ids);
                s.spawn(move || {
                    let mut r = Rng::new(seeds[t]);
                    // Threads that do mostly the same, or each something else.
                    let few: Vec<usize> = (0..1 + r.us(4)).map(|_| r.us(tasks.len())).collect();
                    let narrow = r.chance(1, 2);
                    *ids[t].lock().unwrap() = Some(unsafe { libc::pthread_self() });
                    barrier.wait();
                    for _ in 0..steps {
                        let i = if narrow { *r.pick(&few) } else { r.us(tasks.len()) };
                        running[t].store(i, SeqCst);
                        let others = active.fetch_add(1, SeqCst);
                        if others > 0 {
                            met.fetch_add(1, SeqCst);
                            let mut p = pairs.lock().unwrap();
                            for o in running.iter().enumerate().filter(|o| o.0 != t).map(|o| o.1.load(SeqCst)).filter(|o| *o != usize::MAX) {
                                p.insert((i.min(o), i.max(o)));
                            }
                        }
                        let res = once(&tasks[i], t + 1);
                        active.fetch_sub(1, SeqCst);
                        running[t].store(usize::MAX, SeqCst);
                        done.fetch_add(1, SeqCst);
                        order.lock().unwrap().push((t, i));
                        if let Err((m, d)) = res {
                            bad.lock().unwrap().push((m, tasks[i].kind, d));
                        }
                    }
                    *ids[t].lock().unwrap() = None;
                })
            })
            .collect();
        // A storm in which nothing ends and nothing computes has locked itself up.
        let (done, over, wake) = (&done, &over, &wake);
        let watch = s.spawn(move || {
            let (mut seen, mut at, mut used) = (u64::MAX, Instant::now(), cpu());
            let mut o = over.lock().unwrap();
            while !*o {
                o = wake.wait_timeout(o, Duration::from_millis(200)).unwrap().0;
                if done.load(SeqCst) != seen || cpu() - used > Duration::from_secs(2) {
                    (seen, at, used) = (done.load(SeqCst), Instant::now(), cpu());
                } else if at.elapsed() > Duration::from_secs(45) {
                    eprintln!("DEADLOCK-MONITOR calls from several threads wait for each other without end");
                    unsafe { libc::_exit(EXIT_DEADLOCK) }
                }
            }
        });
        let (ids, halts, seed) = (&ids, &halts, seeds[0] ^ 1);
        let halter = s.spawn(move || {
            let mut r = Rng::new(seed);
            HALT.store(r.u64(), SeqCst);
            while !*over.lock().unwrap() {
                if let Some(id) = *ids[r.us(ids.len())].lock().unwrap() {
                    unsafe { libc::pthread_kill(id, sig) };
                    halts.fetch_add(1, SeqCst);
                }
                std::thread::sleep(Duration::from_micros(r.below(60)));
            }
        });
        for h in hs {
            let _ = h.join();
        }
        *over.lock().unwrap() = true;
        wake.notify_all();
        let _ = watch.join();
        let _ = halter.join();
    });
    jitter(None);
    short::slow(false);
    c.ops += done.load(SeqCst);
    c.count("calls_in_storms", done.load(SeqCst));
    c.count("threads_halted_between_instructions", halts.load(SeqCst));
    c.count("calls_begun_beside_others", met.load(SeqCst));
    c.count("pairs_of_calls_seen_overlapping", pairs.lock().unwrap().len() as u64);
    c.key(h64(&*order.lock().unwrap()));
    let mut by: BTreeMap<&str, u64> = BTreeMap::new();
    for (_, i) in order.lock().unwrap().iter() {
        *by.entry(tasks[*i].kind).or_insert(0) += 1;
    }
    for (k, n) in by {
        c.count(&format!("calls_{}", k.replace(' ', "_")), n);
    }
    for (m, kind, d) in bad.into_inner().unwrap().into_iter().take(3) {
        c.fail(format!("beside other threads' calls: {}: {}", kind, m), json!({"threads": threads, "detail": d}));
    }
    for t in &tasks {
        if let Err((m, d)) = once(t, 0) {
            c.fail(format!("after calls from many threads: {}: {}", t.kind, m), json!({"threads": threads, "detail": d}));
            break;
        }
    }
}

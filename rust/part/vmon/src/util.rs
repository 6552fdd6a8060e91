//! Monitor runtime: seeded generators, the violation recorder, the allocation monitor, the CPU-time monitor.
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[path = "../../../full/short/src/lib.rs"]
pub mod short;

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e3779b97f4a7c15, 0xda3e39cb94b95bdb ^ seed.rotate_left(32));
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    fn mix(z: u64) -> u64 {
        let z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        self.1 = self.1.rotate_left(23) ^ self.0;
        Self::mix(self.0).wrapping_add(Self::mix(self.1))
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.u64() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.us(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(i + 1);
            v.swap(i, j);
        }
    }
    /// Small-biased size with heavy tail.
    pub fn size(&mut self, max: usize) -> usize {
        match self.below(10) {
            0..=4 => self.us(max.min(5) + 1),
            5..=7 => self.us(max.min(40) + 1),
            8 => self.us(max.min(300) + 1),
            _ => self.us(max + 1),
        }
    }
    pub fn u32_edge(&mut self) -> u32 {
        match self.below(8) {
            0 => 0,
            1 => u32::MAX,
            2 => 1 << self.below(32),
            3 => (1u32 << self.below(32)).wrapping_sub(1),
            4 => (1u32 << self.below(32)).wrapping_add(1),
            5 => self.below(300) as u32,
            _ => self.u32(),
        }
    }
    pub fn u64_edge(&mut self) -> u64 {
        match self.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.below(64),
            3 => (1u64 << self.below(64)).wrapping_sub(1),
            4 => self.u32() as u64,
            5 => self.below(300),
            _ => self.u64(),
        }
    }
    /// Bytes with structure: random, constant, zero-tailed, ascii, repeating, counter.
    pub fn content(&mut self, n: usize) -> Vec<u8> {
        match self.below(12) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => {
                let b = self.u64() as u8;
                vec![b; n]
            }
            3 => {
                let mut v = self.bytes(n);
                let k = self.us(n + 1);
                for x in v.iter_mut().skip(k) {
                    *x = 0;
                }
                v
            }
            4 => {
                let mut v = self.bytes(n);
                let k = self.us(n + 1);
                for x in v.iter_mut().take(k) {
                    *x = 0;
                }
                v
            }
            5 => (0..n).map(|i| b"the quick brown fox\n\r\t{}[]\"01234"[i % 32]).collect(),
            6 => (0..n).map(|i| i as u8).collect(),
            7 | 8 => {
                // Text and other bytes that begin or end in something a reader of text might drop or change.
                let edges = EDGES;
                let mut v: Vec<u8> = match self.below(4) {
                    0 => (0..n).map(|_| b"0123456789abcdefABCDEF"[self.us(22)]).collect(),
                    1 => (0..n).map(|_| b"abcdefghijklmnopqrstuvwxyz \r\n\t,.;{}[]\"\\"[self.us(39)]).collect(),
                    2 => "aé漢😀\u{feff}\u{2028}z".bytes().cycle().take(n).collect(),
                    _ => self.bytes(n),
                };
                if self.chance(2, 3) {
                    let e = edges[self.us(edges.len())];
                    let k = e.len().min(n);
                    v[n - k..].copy_from_slice(&e[e.len() - k..]);
                }
                if self.chance(1, 3) {
                    let e = edges[self.us(edges.len())];
                    let k = e.len().min(n);
                    v[..k].copy_from_slice(&e[..k]);
                }
                v
            }
            _ => self.bytes(n),
        }
    }
}

/// What a reader of text might drop, add or change where a message begins or ends.
pub const EDGES: [&[u8]; 24] = [
    b"\n", b"\r\n", b"\r", b"\0", b" ", b"\t", b"\xef\xbb\xbf", b"\x1a", b"=", b"\n\n", b"\\", b"\"", b"\xff\xfe", b"\x80", b"\xc3", b"0x", b"#!", b"\x1f\x8b", b"\0\0\0\0", b"\x0b", b"\x0c", b"\xe2\x80\xa8", b"\xc2\xa0", b"\x04",
];
/// Every edge alone, and in front of, behind, around and twice behind a text.
pub fn edge_messages() -> Vec<Vec<u8>> {
    let t: &[u8] = b"a message";
    EDGES.iter().flat_map(|e| [e.to_vec(), [e, t].concat(), [t, e].concat(), [e, t, e].concat(), [t, e, e].concat()]).collect()
}

pub fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn hex(b: &[u8]) -> String {
    let n = b.len().min(96);
    let mut s: String = b[..n].iter().map(|x| format!("{:02x}", x)).collect();
    if b.len() > n {
        s += &format!("...({} bytes)", b.len());
    }
    s
}

// ---------------------------------------------------------------- allocation monitor
pub struct Alloc;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
static REQ: AtomicUsize = AtomicUsize::new(0);
pub const EXIT_MEM: i32 = 77;
pub const EXIT_CPU: i32 = 78;

fn breach(size: usize) -> ! {
    // Nothing here allocates: the journal already names the case in flight.
    let mut buf = [0u8; 64];
    let mut n = 0;
    for &c in b"MEMORY-MONITOR request=" {
        buf[n] = c;
        n += 1;
    }
    let mut d = [0u8; 20];
    let mut k = 0;
    let mut s = size;
    loop {
        d[k] = b'0' + (s % 10) as u8;
        k += 1;
        s /= 10;
        if s == 0 {
            break;
        }
    }
    while k > 0 {
        k -= 1;
        buf[n] = d[k];
        n += 1;
    }
    buf[n] = b'\n';
    n += 1;
    unsafe {
        libc::write(2, buf.as_ptr() as *const _, n);
        libc::_exit(EXIT_MEM)
    }
}
/// Delays injected where the code under test allocates, so that threads meet in more places than the scheduler's
/// own time slices make them: 0, or a counter.
static JITTER: AtomicU64 = AtomicU64::new(0);
pub fn jitter(seed: Option<u64>) {
    JITTER.store(seed.map_or(0, |s| s | 1), SeqCst);
}
#[inline]
fn pause() {
    if JITTER.load(std::sync::atomic::Ordering::Relaxed) != 0 {
        match Rng::mix(JITTER.fetch_add(2, std::sync::atomic::Ordering::Relaxed)) % 1024 {
            0..=3 => unsafe {
                let t = libc::timespec { tv_sec: 0, tv_nsec: 60_000 };
                libc::nanosleep(&t, std::ptr::null_mut());
            },
            4..=23 => unsafe {
                libc::sched_yield();
            },
            _ => {}
        }
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        pause();
        let live = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        if l.size() > LIMIT.load(SeqCst) || live > LIMIT.load(SeqCst) {
            breach(l.size());
        }
        PEAK.fetch_max(live, SeqCst);
        REQ.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let live = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        if l.size() > LIMIT.load(SeqCst) || live > LIMIT.load(SeqCst) {
            breach(l.size());
        }
        PEAK.fetch_max(live, SeqCst);
        REQ.fetch_add(l.size(), SeqCst);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            let live = LIVE.fetch_add(n - l.size(), SeqCst) + n - l.size();
            if live > LIMIT.load(SeqCst) {
                breach(n);
            }
            PEAK.fetch_max(live, SeqCst);
            REQ.fetch_add(n - l.size(), SeqCst);
        } else {
            LIVE.fetch_sub(l.size() - n, SeqCst);
        }
        System.realloc(p, l, n)
    }
}
/// Bytes ever requested.
pub fn requested() -> usize {
    REQ.load(SeqCst)
}
/// Bytes allocated and not yet freed.
pub fn live() -> usize {
    LIVE.load(SeqCst)
}
/// Peak bytes live above the starting level while `f` runs; going over `limit` ends the process with EXIT_MEM.
pub fn metered<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.load(SeqCst);
    PEAK.store(base, SeqCst);
    LIMIT.store(base.saturating_add(limit), SeqCst);
    let r = f();
    LIMIT.store(usize::MAX, SeqCst);
    (r, PEAK.load(SeqCst).saturating_sub(base))
}

// ---------------------------------------------------------------- panics, CPU watchdog, journal
thread_local! { static IN_SUT: Cell<bool> = const { Cell::new(false) }; }
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static SUT_ACTIVE: AtomicBool = AtomicBool::new(false);
pub static CPU_LIMIT_S: AtomicU64 = AtomicU64::new(60);

fn cpu_seconds() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}

pub fn install() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.to_string().replace('\n', " ");
        if IN_SUT.with(|c| c.get()) {
            LIMIT.store(usize::MAX, SeqCst);
            *LAST_PANIC.lock().unwrap() = msg;
        } else {
            eprintln!("HARNESS-PANIC {}", msg);
        }
    }));
    std::thread::spawn(|| {
        let (mut seen, mut at) = (u64::MAX, cpu_seconds());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = CASE_NO.load(SeqCst);
            if c != seen || !SUT_ACTIVE.load(SeqCst) {
                seen = c;
                at = cpu_seconds();
            } else if cpu_seconds() - at > CPU_LIMIT_S.load(SeqCst) as f64 {
                eprintln!("CPU-MONITOR one case used more than {} s of CPU time", CPU_LIMIT_S.load(SeqCst));
                unsafe { libc::_exit(EXIT_CPU) }
            }
        }
    });
}

/// Run code under test on this thread; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_SUT.with(|c| c.set(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|c| c.set(false));
    r.map_err(|_| std::mem::take(&mut *LAST_PANIC.lock().unwrap()))
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: std::path::PathBuf,
    pub dict_ints: Vec<u64>,
    pub dict_strs: Vec<String>,
    pub args: BTreeMap<String, String>,
    only: Option<(String, u64)>,
    journal: Option<std::fs::File>,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    samples: Vec<Value>,
    pub viols: Vec<Value>,
    sampled: HashSet<String>,
    start: Instant,
    pub budget: Duration,
}

/// One monitored execution.
pub struct Case<'a> {
    pub rng: Rng,
    pub kind: String,
    pub idx: u64,
    fails: Vec<Value>,
    key: Option<u64>,
    sample: Option<Value>,
    what: Value,
    cnt: &'a mut BTreeMap<String, u64>,
    pub ops: u64,
}
impl<'a> Case<'a> {
    /// Describe the input, for the sample list and the replay file.
    pub fn input(&mut self, v: Value) {
        self.what = v;
    }
    pub fn key<T: Hash>(&mut self, k: T) {
        self.key = Some(h64(&k));
    }
    pub fn sample(&mut self, v: Value) {
        self.sample = Some(v);
    }
    pub fn fail(&mut self, msg: impl Into<String>, detail: Value) {
        let m: String = msg.into();
        let what = self.what.clone();
        self.fails.push(json!({"message": m, "detail": detail, "input": what}));
    }
    /// A failure that is the finding listed under this name in known_findings.txt, if it is listed there.
    pub fn fail_as(&mut self, finding: &str, msg: impl Into<String>, detail: Value) {
        self.fail(msg, detail);
        self.fails.last_mut().unwrap()["finding"] = finding.into();
        self.count(&format!("finding_{}", finding), 1);
    }
    pub fn check(&mut self, ok: bool, msg: &str, detail: impl FnOnce() -> Value) -> bool {
        self.ops += 1;
        if !ok {
            self.fail(msg, detail());
        }
        ok
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.cnt.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn count_of(&self, k: &str) -> u64 {
        self.cnt.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, n: u64) {
        self.cnt.insert(k.to_string(), n);
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.cnt.entry(k.to_string()).or_insert(0);
        *e = n.max(*e);
    }
    /// Call the code under test: a panic is a violation.
    pub fn sut<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        SUT_ACTIVE.store(true, SeqCst);
        let r = guard(f);
        SUT_ACTIVE.store(false, SeqCst);
        match r {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("{} panicked: {}", what, m), Value::Null);
                None
            }
        }
    }
    /// Call expected to succeed.
    pub fn sut_ok<T, E: std::fmt::Display>(&mut self, what: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
        match self.sut(what, f)? {
            Ok(v) => Some(v),
            Err(e) => {
                self.fail(format!("{} failed on valid input: {:.300}", what, e.to_string()), Value::Null);
                None
            }
        }
    }
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let mut args = BTreeMap::new();
        let mut it = std::env::args().skip(1);
        let prop = it.next().expect("property");
        while let Some(k) = it.next() {
            args.insert(k.trim_start_matches("--").to_string(), it.next().unwrap_or_default());
        }
        let get = |k: &str| args.get(k).cloned();
        let dict: Value = get("dict")
            .and_then(|p| std::fs::read_to_string(p).ok())
            .and_then(|s| serde_json::from_str(&s).ok())
            .unwrap_or(json!({"ints": [], "strs": []}));
        let only = get("only").map(|s| {
            let (a, b) = s.rsplit_once(':').expect("--only kind:index");
            (a.to_string(), b.parse().unwrap())
        });
        let thorough = get("tier").as_deref() == Some("thorough");
        let budget = get("budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 120 });
        Ctx {
            seed: get("seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough,
            scratch: get("scratch").expect("--scratch").into(),
            dict_ints: dict["ints"].as_array().unwrap().iter().filter_map(|v| v.as_u64()).collect(),
            dict_strs: dict["strs"].as_array().unwrap().iter().filter_map(|v| v.as_str().map(String::from)).collect(),
            only,
            journal: get("journal").map(|p| std::fs::File::create(p).unwrap()),
            prop,
            args,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            sampled: HashSet::new(),
            start: Instant::now(),
            budget: Duration::from_secs(budget),
        }
    }
    /// Integers named in the sources of the code under test, with neighbours, up to `max`.
    pub fn interesting(&self, max: u64) -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        let base = [0u64, 1, 2, 3, 4, 7, 8, 12, 15, 16, 20, 24, 28, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 255, 256, 257, 511, 512, 1000,
            1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 262144, 524288, 1048576];
        for &d in self.dict_ints.iter().chain(base.iter()) {
            for k in [d.wrapping_sub(1), d, d.wrapping_add(1)] {
                if k <= max {
                    v.push(k);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    }
    pub fn over(&self) -> bool {
        self.viols.iter().filter(|v| v["finding"].is_null()).count() >= 3 || self.start.elapsed() > self.budget
    }
    pub fn left(&self) -> f64 {
        1.0 - self.start.elapsed().as_secs_f64() / self.budget.as_secs_f64()
    }
    pub fn q(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn journal(&mut self, s: &str) {
        use std::os::unix::fs::FileExt;
        if let Some(j) = &self.journal {
            let mut b = [b' '; 120];
            let n = s.len().min(119);
            b[..n].copy_from_slice(&s.as_bytes()[..n]);
            b[119] = b'\n';
            let _ = j.write_at(&b, 0);
        }
    }
    /// Run `n` cases of a kind. Each has its own generator, seeded from (seed, property, kind, index).
    pub fn run(&mut self, kind: &str, n: u64, mut f: impl FnMut(&mut Case)) {
        for i in 0..n {
            if self.over() {
                *self.counters.entry(format!("{}_cut_short_at", kind)).or_insert(0) = i;
                break;
            }
            if let Some((k, j)) = &self.only {
                if k != kind || *j != i {
                    continue;
                }
            }
            self.journal(&format!("case {}:{}", kind, i));
            CASE_NO.fetch_add(1, SeqCst);
            let rng = Rng::new(h64(&(self.seed, &self.prop, kind, i)));
            let mut c = Case { rng, kind: kind.into(), idx: i, fails: vec![], key: None, sample: None, what: Value::Null, cnt: &mut self.counters, ops: 0 };
            // In some cases the kernel moves fewer bytes of a file at a time than it is asked to.
            let cut = short::cut();
            let h = h64(&(self.seed, &self.prop, kind, i, "short"));
            short::set((h % 3 == 0).then_some(h));
            f(&mut c);
            short::set(None);
            if short::cut() > cut {
                c.count("short_transfers", short::cut() - cut);
            }
            let Case { fails, key, sample, what, ops, .. } = c;
            self.evals += ops.max(1);
            *self.counters.entry(format!("cases_{}", kind)).or_insert(0) += 1;
            if let Some(k) = key {
                self.distinct.insert(h64(&(kind, k)));
            }
            if let Some(s) = sample {
                if self.samples.len() < 12 && self.sampled.insert(kind.to_string()) {
                    self.samples.push(json!({"case": format!("{}:{}", kind, i), "case_detail": s}));
                }
            }
            let (known, fresh): (Vec<_>, Vec<_>) = fails.into_iter().partition(|f| !f["finding"].is_null());
            for fl in fresh.into_iter().take(2).chain(known) {
                if !fl["finding"].is_null() && self.viols.iter().any(|v| v["finding"] == fl["finding"]) {
                    continue;
                }
                self.viols.push(json!({"case": format!("{}:{}", kind, i), "input": if fl["input"].is_null() { &what } else { &fl["input"] }, "message": fl["message"], "detail": fl["detail"], "finding": fl["finding"]}));
            }
        }
        self.journal("idle");
    }
    pub fn finish(self) {
        let out = json!({
            "property": self.prop, "seed": self.seed, "evaluations": self.evals, "distinct": self.distinct.len(),
            "counters": self.counters, "samples": self.samples, "violations": self.viols,
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(self.args.get("out").expect("--out"), serde_json::to_string(&out).unwrap()).unwrap();
    }
}

/// Is this the device on which every write fails for want of space?
pub fn is_full_device(p: &std::path::Path) -> bool {
    use std::os::unix::fs::{FileTypeExt, MetadataExt};
    std::fs::symlink_metadata(p).is_ok_and(|m| m.file_type().is_char_device() && m.rdev() == libc::makedev(1, 7))
}
/// Run `f` with the file rights of an unprivileged user on this thread, so that code which replaces
/// its target (a temporary file renamed into place) cannot replace a system file. None: not possible here.
pub fn as_nobody<T>(f: impl FnOnce() -> T) -> Option<T> {
    const NOBODY: u32 = 65534;
    struct Back(u32, u32);
    impl Drop for Back {
        fn drop(&mut self) {
            unsafe {
                libc::setfsuid(self.0);
                libc::setfsgid(self.1);
            }
        }
    }
    unsafe {
        let g = libc::setfsgid(NOBODY) as u32;
        let u = libc::setfsuid(NOBODY) as u32;
        let _back = Back(u, g);
        // The call reports only the previous value.
        if libc::setfsuid(NOBODY) as u32 != NOBODY {
            return None;
        }
        Some(f())
    }
}

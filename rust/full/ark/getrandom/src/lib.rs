//! getrandom with the interface of version 0.2, whose bytes a monitor can dictate and count.
//! Without a monitor's word it hands out the operating system's random bytes.
use std::cell::RefCell;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct Error(NonZeroU32);
const fn nz(c: u32) -> NonZeroU32 {
    match NonZeroU32::new(c) {
        Some(c) => c,
        None => panic!("zero"),
    }
}
impl Error {
    pub const UNSUPPORTED: Error = Error(nz(1 << 31));
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn raw_os_error(self) -> Option<i32> {
        if self.0.get() < Self::INTERNAL_START {
            Some(self.0.get() as i32)
        } else {
            None
        }
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::other(e)
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom error {}", self.0)
    }
}
impl std::error::Error for Error {}

/// A given stream of bytes, continued by a counter-driven mix of all of them.
pub struct Stream {
    pub bytes: Vec<u8>,
    pub at: u64,
}
impl Stream {
    fn fill(&mut self, d: &mut [u8]) {
        for x in d {
            *x = match self.bytes.get(self.at as usize) {
                Some(b) => *b,
                None => {
                    let mut z = (self.at / 8).wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def0;
                    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
                    (z ^ (z >> 31)).to_le_bytes()[(self.at % 8) as usize]
                }
            };
            self.at += 1;
        }
    }
}
thread_local! {
    static MINE: RefCell<Option<Stream>> = const { RefCell::new(None) };
    static FAILING: RefCell<bool> = const { RefCell::new(false) };
    static REQUESTED: RefCell<u64> = const { RefCell::new(0) };
}
pub mod control {
    use super::*;
    /// From here on this thread's random bytes are these; returns how many of the last stream were used.
    pub fn set(bytes: Option<Vec<u8>>) -> u64 {
        MINE.with(|m| m.replace(bytes.map(|bytes| Stream { bytes, at: 0 })).map_or(0, |s| s.at))
    }
    /// From here on this thread's requests fail, or no longer do.
    pub fn fail(on: bool) {
        FAILING.with(|f| *f.borrow_mut() = on)
    }
    /// Bytes this thread has asked for.
    pub fn requested() -> u64 {
        REQUESTED.with(|r| *r.borrow())
    }
}
static FILE: OnceLock<Option<std::sync::Mutex<Stream>>> = OnceLock::new();
static BROKEN: OnceLock<bool> = OnceLock::new();
static TOTAL: AtomicU64 = AtomicU64::new(0);

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    REQUESTED.with(|r| *r.borrow_mut() += dest.len() as u64);
    let total = TOTAL.fetch_add(dest.len() as u64, SeqCst) + dest.len() as u64;
    if FAILING.with(|f| *f.borrow()) || *BROKEN.get_or_init(|| std::env::var_os("VERIF_ENTROPY_FAIL").is_some()) {
        return Err(Error(nz(5)));
    }
    if MINE.with(|m| m.borrow_mut().as_mut().map(|s| s.fill(dest)).is_some()) {
        return Ok(());
    }
    let file = FILE.get_or_init(|| std::env::var("VERIF_ENTROPY").ok().map(|p| std::sync::Mutex::new(Stream { bytes: std::fs::read(p).expect("entropy"), at: 0 })));
    if let Some(s) = file {
        s.lock().unwrap().fill(dest);
        if let Ok(p) = std::env::var("VERIF_ENTROPY_LOG") {
            let _ = std::fs::write(p, total.to_string());
        }
        return Ok(());
    }
    system(dest)
}
#[cfg(target_arch = "wasm32")]
fn system(dest: &mut [u8]) -> Result<(), Error> {
    #[link(wasm_import_module = "env")]
    extern "C" {
        /// 0, or the code of an error.
        fn random(p: *mut u8, n: usize) -> u32;
    }
    match NonZeroU32::new(unsafe { random(dest.as_mut_ptr(), dest.len()) }) {
        None => Ok(()),
        Some(c) => Err(Error(c)),
    }
}
#[cfg(not(target_arch = "wasm32"))]
fn system(dest: &mut [u8]) -> Result<(), Error> {
    let mut at = 0;
    while at < dest.len() {
        let n = unsafe { libc::getrandom(dest[at..].as_mut_ptr() as *mut _, dest.len() - at, 0) };
        if n < 0 {
            let e = std::io::Error::last_os_error().raw_os_error().unwrap_or(1);
            if e == libc::EINTR {
                continue;
            }
            return Err(Error(nz(e.max(1) as u32)));
        }
        at += n as usize;
    }
    Ok(())
}
pub fn getrandom_uninit(dest: &mut [std::mem::MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    let d = unsafe { &mut *(dest as *mut [std::mem::MaybeUninit<u8>] as *mut [u8]) };
    d.fill(0);
    getrandom(d)?;
    Ok(d)
}

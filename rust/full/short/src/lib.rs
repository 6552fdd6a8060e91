//! Transfers that are shorter than asked for: a kernel may return fewer bytes from read and take fewer in write than
//! the caller offered, on any file. Stands in front of the C library's calls, for regular files only, while switched on:
//! in the monitors by `set`, in a spawned command by LD_PRELOAD and VERIF_SHORT=<seed>.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// 0: not decided yet; 1: off; anything else: the state of the generator.
static STATE: AtomicU64 = AtomicU64::new(0);
/// Transfers cut short so far.
static CUT: AtomicU64 = AtomicU64::new(0);

#[allow(dead_code)]
pub fn set(seed: Option<u64>) {
    STATE.store(seed.map_or(1, |s| s | 2), Relaxed);
}
/// The seed for a command to be started now.
#[allow(dead_code)]
pub fn now() -> Option<u64> {
    Some(STATE.load(Relaxed)).filter(|s| *s > 1)
}
#[allow(dead_code)]
pub fn cut() -> u64 {
    CUT.load(Relaxed)
}

/// Transfers are delayed at random while this is set.
static SLOW: AtomicU64 = AtomicU64::new(0);
#[allow(dead_code)]
pub fn slow(on: bool) {
    SLOW.store(on as u64, Relaxed);
}
fn delay() {
    if SLOW.load(Relaxed) == 0 {
        return;
    }
    let s = SLOW.fetch_add(1, Relaxed).wrapping_mul(0x9e3779b97f4a7c15) >> 60;
    if s < 5 {
        unsafe {
            let e = *libc::__errno_location();
            let t = libc::timespec { tv_sec: 0, tv_nsec: [0, 1, 20_000, 80_000, 200_000][s as usize] };
            libc::nanosleep(&t, std::ptr::null_mut());
            *libc::__errno_location() = e;
        }
    }
}

fn from_env() -> u64 {
    let p = unsafe { libc::getenv(c"VERIF_SHORT".as_ptr()) };
    let s = if p.is_null() { 1 } else { unsafe { libc::strtoull(p, std::ptr::null_mut(), 10) | 2 } };
    STATE.store(s, Relaxed);
    s
}
/// How many of `n` bytes to move.
fn some(fd: i32, n: usize) -> usize {
    let mut s = STATE.load(Relaxed);
    if s == 0 {
        s = from_env();
    }
    let was = s;
    delay();
    if s == 1 || n < 2 {
        return n;
    }
    let regular = unsafe {
        let e = *libc::__errno_location();
        let mut st: libc::stat = std::mem::zeroed();
        let ok = libc::fstat(fd, &mut st) == 0 && st.st_mode & libc::S_IFMT == libc::S_IFREG;
        *libc::__errno_location() = e;
        ok
    };
    if !regular {
        return n;
    }
    s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    // A concurrent `set` wins.
    let _ = STATE.compare_exchange(was, s | 2, Relaxed, Relaxed);
    let (a, b) = (s >> 60, (s >> 20) as usize & 0xff_ffff_ffff);
    let k = match a {
        0..=3 => n,
        4 | 5 => 1 + b % n.min(9),
        6 => n - 1,
        _ => 1 + b % n,
    };
    if k < n {
        CUT.fetch_add(1, Relaxed);
    }
    k
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut libc::c_void, n: usize) -> isize {
    libc::syscall(libc::SYS_read, fd, p, some(fd, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    libc::syscall(libc::SYS_write, fd, p, some(fd, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, p: *mut libc::c_void, n: usize, at: i64) -> isize {
    libc::syscall(libc::SYS_pread64, fd, p, some(fd, n), at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const libc::c_void, n: usize, at: i64) -> isize {
    libc::syscall(libc::SYS_pwrite64, fd, p, some(fd, n), at) as isize
}
/// Of several buffers, the first one that has room.
unsafe fn first(fd: i32, v: *const libc::iovec, n: i32) -> Option<libc::iovec> {
    if STATE.load(Relaxed) == 1 || n < 1 {
        delay();
        return None;
    }
    let v = std::slice::from_raw_parts(v, n as usize).iter().find(|v| v.iov_len > 0)?;
    let k = some(fd, v.iov_len);
    (k < v.iov_len).then_some(libc::iovec { iov_base: v.iov_base, iov_len: k })
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    match first(fd, v, n) {
        Some(f) => libc::syscall(libc::SYS_readv, fd, &f, 1) as isize,
        None => libc::syscall(libc::SYS_readv, fd, v, n) as isize,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const libc::iovec, n: i32) -> isize {
    match first(fd, v, n) {
        Some(f) => libc::syscall(libc::SYS_writev, fd, &f, 1) as isize,
        None => libc::syscall(libc::SYS_writev, fd, v, n) as isize,
    }
}

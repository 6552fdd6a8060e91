//! The world a command finds itself in, by LD_PRELOAD: records in the file VERIF_WORLD_LOG the environment variables it
//! asks for (`E name`) and the paths it looks at (`P path`), shows it another time of day (VERIF_WORLD_CLOCK: a shift in
//! seconds, or `=seconds` for a clock that stands still) and another process number (VERIF_WORLD_PID).
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
use std::ffi::{c_char, c_int, c_void, CStr};
use std::sync::atomic::{AtomicI32, AtomicI64, AtomicU8, AtomicUsize, Ordering::Relaxed};

static LOG: AtomicI32 = AtomicI32::new(-1);
static CLOCK: AtomicI64 = AtomicI64::new(0);
static STILL: AtomicU8 = AtomicU8::new(0);
static PID: AtomicI32 = AtomicI32::new(0);

unsafe fn next(slot: &AtomicUsize, name: &CStr) -> usize {
    let mut p = slot.load(Relaxed);
    if p == 0 {
        p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) as usize;
        slot.store(p, Relaxed);
    }
    p
}
macro_rules! real {
    ($name:literal, $t:ty) => {{
        static SLOT: AtomicUsize = AtomicUsize::new(0);
        let p = next(&SLOT, $name);
        if p == 0 {
            libc::abort();
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}
type Getenv = unsafe extern "C" fn(*const c_char) -> *mut c_char;

extern "C" fn init() {
    unsafe {
        let get = real!(c"getenv", Getenv);
        let p = get(c"VERIF_WORLD_CLOCK".as_ptr());
        if !p.is_null() {
            let still = *p == b'=' as c_char;
            STILL.store(still as u8, Relaxed);
            CLOCK.store(libc::strtoll(p.add(still as usize), std::ptr::null_mut(), 10), Relaxed);
        }
        let p = get(c"VERIF_WORLD_PID".as_ptr());
        if !p.is_null() {
            PID.store(libc::atoi(p), Relaxed);
        }
        let p = get(c"VERIF_WORLD_LOG".as_ptr());
        if !p.is_null() {
            let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND | libc::O_CLOEXEC, 0o644);
            LOG.store(fd as i32, Relaxed);
        }
    }
}
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

unsafe fn note(kind: u8, s: *const c_char) {
    let fd = LOG.load(Relaxed);
    if fd < 0 || s.is_null() {
        return;
    }
    let e = *libc::__errno_location();
    let n = libc::strlen(s).min(4000);
    let mut b = [0u8; 4096];
    b[0] = kind;
    b[1] = b' ';
    std::ptr::copy_nonoverlapping(s as *const u8, b.as_mut_ptr().add(2), n);
    b[n + 2] = b'\n';
    libc::syscall(libc::SYS_write, fd, b.as_ptr(), n + 3);
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    note(b'E', name);
    real!(c"getenv", Getenv)(name)
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: *const c_char) -> *mut c_char {
    note(b'E', name);
    real!(c"secure_getenv", Getenv)(name)
}
macro_rules! looks {
    ($($name:ident, $lit:literal, ($($a:ident: $t:ty),*), $path:ident;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            note(b'P', $path);
            real!($lit, unsafe extern "C" fn($($t),*) -> c_int)($($a),*)
        }
    )*};
}
looks! {
    open, c"open", (path: *const c_char, flags: c_int, mode: libc::mode_t), path;
    open64, c"open64", (path: *const c_char, flags: c_int, mode: libc::mode_t), path;
    openat, c"openat", (d: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t), path;
    openat64, c"openat64", (d: c_int, path: *const c_char, flags: c_int, mode: libc::mode_t), path;
    stat, c"stat", (path: *const c_char, b: *mut c_void), path;
    stat64, c"stat64", (path: *const c_char, b: *mut c_void), path;
    lstat64, c"lstat64", (path: *const c_char, b: *mut c_void), path;
    statx, c"statx", (d: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, b: *mut c_void), path;
    access, c"access", (path: *const c_char, mode: c_int), path;
}
unsafe fn shift(sec: &mut i64, sub: &mut i64) {
    let s = CLOCK.load(Relaxed);
    if STILL.load(Relaxed) != 0 {
        *sec = s;
        *sub = 0;
    } else {
        *sec += s;
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, t: *mut libc::timespec) -> c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, clk, t) as c_int;
    if r == 0 && (clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE) {
        shift(&mut (*t).tv_sec, &mut (*t).tv_nsec);
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _z: *mut c_void) -> c_int {
    let mut s: libc::timespec = std::mem::zeroed();
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut s);
    if r == 0 && !t.is_null() {
        *t = libc::timeval { tv_sec: s.tv_sec, tv_usec: s.tv_nsec / 1000 };
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut s: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut s);
    if !t.is_null() {
        *t = s.tv_sec;
    }
    s.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    match PID.load(Relaxed) {
        0 => libc::syscall(libc::SYS_getpid) as libc::pid_t,
        p => p,
    }
}

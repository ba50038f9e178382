//! The process's surroundings as the library sees them. While a library call is running on a thread that asked for it,
//! every environment variable the process does not have is set to something, and the calendar shows some other day.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::*};

thread_local! {
    static MINE: Cell<u8> = const { Cell::new(0) };
}
static ALL: AtomicU8 = AtomicU8::new(0);
pub static LOOKUPS: AtomicU64 = AtomicU64::new(0);
pub static DATES: AtomicU64 = AtomicU64::new(0);

/// 0: the real surroundings. Others pick the made-up ones. Returns what was set before.
pub fn mine(n: u8) -> u8 {
    MINE.with(|m| m.replace(n))
}
/// For every thread of this process, inside library calls or not.
pub fn everywhere(n: u8) {
    ALL.store(n, SeqCst)
}
fn mood() -> u8 {
    let m = MINE.with(|m| m.get());
    if m != 0 && crate::mon::in_lib() {
        return m;
    }
    ALL.load(Relaxed)
}

const VALUES: [&[u8]; 8] = [b"1\0", b"true\0", b"0\0", b"debug\0", b"yes\0", b"\0", b"./kms.log\0", b"00\0"];
/// What the standard library, the loader and the sanitizers ask for stays real.
const KEPT: [&[u8]; 14] = [b"RUST", b"LD_", b"MALLOC", b"GLIBC", b"TZ", b"LANG", b"LC_", b"TSAN", b"ASAN", b"UBSAN", b"KMSMON", b"VERIF", b"TMPDIR", b"PATH"];

extern "C" {
    static environ: *const *mut libc::c_char;
}
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let n = libc::strlen(name);
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let e = *p;
        if libc::strncmp(e, name, n) == 0 && *e.add(n) == b'=' as libc::c_char {
            return e.add(n + 1);
        }
        p = p.add(1);
    }
    let m = mood();
    if m == 0 {
        return std::ptr::null_mut();
    }
    let text = std::slice::from_raw_parts(name as *const u8, n);
    if KEPT.iter().any(|k| text.starts_with(k)) {
        return std::ptr::null_mut();
    }
    LOOKUPS.fetch_add(1, Relaxed);
    VALUES[(m as usize - 1) % VALUES.len()].as_ptr() as *mut libc::c_char
}

/// Seconds since 1970: long ago, round numbers, the ends of 32 bits, years ahead.
const DAYS: [i64; 8] = [0, 1, 1_000_000_000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 4_102_444_800, 1_893_456_000];
/// # Safety
/// As the C library's.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = libc::syscall(libc::SYS_clock_gettime, c, ts) as libc::c_int;
    if r == 0 && (c == libc::CLOCK_REALTIME || c == libc::CLOCK_REALTIME_COARSE) {
        let m = mood();
        if m != 0 {
            DATES.fetch_add(1, Relaxed);
            (*ts).tv_sec = DAYS[m as usize % DAYS.len()];
        }
    }
    // as long after the last call as a service may sit idle (only here, where nothing of the harness waits)
    if r == 0 && c == libc::CLOCK_MONOTONIC && MINE.with(|m| m.get()) != 0 && crate::mon::in_lib() {
        DATES.fetch_add(1, Relaxed);
        (*ts).tv_sec += 40 << (MINE.with(|m| m.get()) % 20);
    }
    r
}

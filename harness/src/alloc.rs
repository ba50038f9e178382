//! The process's allocator, instrumented: bytes a call holds (C16), and the contents of watched buffers at the moment
//! they are released (C15).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering::*};

pub struct Alloc;
#[global_allocator]
static A: Alloc = Alloc;

// ---- counting --------------------------------------------------------------------------------------
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
/// A measured call may not hold more than this; the allocation fails beyond it.
const CAP: isize = 2 << 30;

/// Runs f and returns the most bytes it held beyond what was allocated before, and its allocation calls.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.with(|o| o.set(false));
        }
    }
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    CALLS.with(|c| c.set(0));
    ON.with(|o| o.set(true));
    let off = Off;
    let r = f();
    drop(off);
    (r, PEAK.with(|c| c.get()) as u64, CALLS.with(|c| c.get()))
}
/// What the last measured call still held when it returned (negative: it released more than it took).
pub fn live() -> i64 {
    LIVE.with(|c| c.get()) as i64
}
static ALL: AtomicBool = AtomicBool::new(false);
static TOTAL: AtomicIsize = AtomicIsize::new(0);
/// From now on, count the bytes held by the whole process.
pub fn count_all() {
    ALL.store(true, SeqCst);
}
pub fn total() -> isize {
    TOTAL.load(SeqCst)
}
fn grow(n: usize) -> bool {
    if ALL.load(Relaxed) {
        TOTAL.fetch_add(n as isize, Relaxed);
    }
    if !ON.try_with(|o| o.get()).unwrap_or(false) {
        return true;
    }
    let now = LIVE.with(|c| {
        c.set(c.get() + n as isize);
        c.get()
    });
    CALLS.with(|c| c.set(c.get() + 1));
    PEAK.with(|c| c.set(c.get().max(now)));
    now < CAP
}
fn shrink(n: usize) {
    if ALL.load(Relaxed) {
        TOTAL.fetch_sub(n as isize, Relaxed);
    }
    if ON.try_with(|o| o.get()).unwrap_or(false) {
        LIVE.with(|c| c.set(c.get() - n as isize));
    }
}

// ---- watching --------------------------------------------------------------------------------------
const W: usize = 4096;
struct Slot {
    addr: AtomicUsize,
    len: AtomicUsize,
    state: AtomicUsize, // 0 free, 1 reserved, 2 live, 3 released clean, 4 + n released with n bytes left
}
static SLOTS: [Slot; W] = [const { Slot { addr: AtomicUsize::new(0), len: AtomicUsize::new(0), state: AtomicUsize::new(0) } }; W];
static TOP: AtomicUsize = AtomicUsize::new(0);

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Fate {
    Held,
    Clean,
    Dirty(usize),
}
pub struct Watch(usize);
/// Watches the bytes of `b` (inside one heap block) until they are released.
pub fn watch(b: &[u8]) -> Watch {
    for i in 0..W {
        if SLOTS[i].state.compare_exchange(0, 1, SeqCst, SeqCst).is_ok() {
            SLOTS[i].addr.store(b.as_ptr() as usize, SeqCst);
            SLOTS[i].len.store(b.len(), SeqCst);
            TOP.fetch_max(i + 1, SeqCst);
            SLOTS[i].state.store(2, SeqCst);
            return Watch(i);
        }
    }
    panic!("too many watched buffers");
}
impl Watch {
    pub fn fate(&self) -> Fate {
        match SLOTS[self.0].state.load(SeqCst) {
            2 => Fate::Held,
            3 => Fate::Clean,
            n => Fate::Dirty(n - 4),
        }
    }
    pub fn addr(&self) -> usize {
        SLOTS[self.0].addr.load(SeqCst)
    }
    pub fn len(&self) -> usize {
        SLOTS[self.0].len.load(SeqCst)
    }
    /// A second watch of the same, still held, memory.
    pub fn again(&self) -> Watch {
        assert!(self.fate() == Fate::Held);
        watch(unsafe { std::slice::from_raw_parts(self.addr() as *const u8, self.len()) })
    }
    /// Non-zero bytes now in the watched memory; only while it is held.
    pub fn dirty_now(&self) -> usize {
        assert!(self.fate() == Fate::Held);
        nonzero(SLOTS[self.0].addr.load(SeqCst), SLOTS[self.0].len.load(SeqCst))
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        SLOTS[self.0].state.store(0, SeqCst);
    }
}
fn nonzero(addr: usize, len: usize) -> usize {
    (0..len).filter(|i| unsafe { std::ptr::read_volatile((addr + i) as *const u8) } != 0).count()
}
fn watched(p: *mut u8, size: usize, release: bool) -> bool {
    let top = TOP.load(Relaxed);
    let mut any = false;
    for s in &SLOTS[..top] {
        if s.state.load(Acquire) == 2 {
            let a = s.addr.load(Relaxed);
            if a >= p as usize && a < p as usize + size {
                any = true;
                if release {
                    let n = nonzero(a, s.len.load(Relaxed));
                    s.state.store(if n == 0 { 3 } else { 4 + n }, Release);
                }
            }
        }
    }
    any
}

// ---- scanning --------------------------------------------------------------------------------------
thread_local! {
    static NEEDLE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static HITS: Cell<u64> = const { Cell::new(0) };
}
/// Runs f and returns how many blocks this thread released meanwhile with the needle still in them.
pub fn scanned<T>(needle: &[u8], f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            NEEDLE.with(|c| c.set((0, 0)));
        }
    }
    HITS.with(|c| c.set(0));
    NEEDLE.with(|c| c.set((needle.as_ptr() as usize, needle.len())));
    let off = Off;
    let r = f();
    drop(off);
    (r, HITS.with(|c| c.get()))
}
fn scanning() -> (usize, usize) {
    NEEDLE.try_with(|c| c.get()).unwrap_or((0, 0))
}
unsafe fn scan(p: *mut u8, size: usize) {
    let (a, n) = scanning();
    if n == 0 || size < n {
        return;
    }
    let at = |p: usize| std::ptr::read_volatile(p as *const u8);
    for i in 0..=size - n {
        if (0..n).all(|j| at(p as usize + i + j) == at(a + j)) {
            HITS.with(|c| c.set(c.get() + 1));
            return;
        }
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        if TOP.load(Relaxed) != 0 {
            watched(p, l.size(), true);
            scan(p, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if TOP.load(Relaxed) != 0 && (scanning().1 != 0 || watched(p, l.size(), false)) {
            // a watched block that moves is released where it was
            let n = Layout::from_size_align_unchecked(new, l.align());
            let q = self.alloc(n);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                self.dealloc(p, l);
            }
            return q;
        }
        if !grow(new) {
            return std::ptr::null_mut();
        }
        shrink(l.size());
        System.realloc(p, l, new)
    }
}

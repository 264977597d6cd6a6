//! Counting allocator, CPU clock and resource limits (none of them under Miri).
#![cfg_attr(miri, allow(dead_code))]
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BUDGET: AtomicUsize = AtomicUsize::new(usize::MAX);
const CASE_BYTES: usize = 3 << 30;

fn over(n: usize) -> bool { LIVE.fetch_add(n, Ordering::Relaxed).saturating_add(n) > BUDGET.load(Ordering::Relaxed) }

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) { bail() }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) { bail() }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if over(n) { bail() }
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}

extern "C" {
    fn _exit(c: i32) -> !;
    fn signal(sig: i32, h: usize) -> usize;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
}

fn bail() -> ! { unsafe { _exit(98) } }

pub fn reset_budget() {
    BUDGET.store(LIVE.load(Ordering::Relaxed).saturating_add(CASE_BYTES), Ordering::Relaxed);
}
pub fn cpu_ms() -> u64 {
    if cfg!(miri) { return 0 }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}
const RLIMIT_FSIZE: i32 = 1;
pub fn ignore_sigxfsz() { if cfg!(miri) { return } unsafe { signal(25, 1) }; }
/// Cap the size of files this process may write; None restores.
pub fn file_limit(n: Option<u64>) -> bool {
    if cfg!(miri) { return true }
    let mut l = [0u64; 2];
    unsafe {
        if getrlimit(RLIMIT_FSIZE, &mut l) != 0 { return false }
        l[0] = match n { Some(x) => x.min(l[1]), None => l[1] };
        setrlimit(RLIMIT_FSIZE, &l) == 0
    }
}
pub fn restore_limits() { file_limit(None); }

//! Counting allocator with a cap: the memory monitor of C05 and C06, and a guard for the sandbox.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);
static CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

pub fn set_cap(n: usize) {
    CAP.store(n, Relaxed);
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Snap {
    pub live: usize,
    pub peak: usize,
    pub total: u64,
    pub count: u64,
}
pub fn snap() -> Snap {
    Snap { live: LIVE.load(Relaxed), peak: PEAK.load(Relaxed), total: TOTAL.load(Relaxed), count: COUNT.load(Relaxed) }
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
/// Runs `f` and returns (total bytes requested, number of requests, peak above the start).
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, u64, u64, usize) {
    reset_peak();
    let a = snap();
    let t = f();
    let b = snap();
    (t, b.total - a.total, b.count - a.count, b.peak.saturating_sub(a.live))
}
fn grow(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > CAP.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    TOTAL.fetch_add(n as u64, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    PEAK.fetch_max(live, Relaxed);
    true
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        let q = System.realloc(p, l, n);
        if q.is_null() {
            // (shrinking never fails in practice)
            LIVE.fetch_sub(n.saturating_sub(l.size()), Relaxed);
        }
        q
    }
}

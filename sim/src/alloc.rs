//! Counting allocator: the resource seam. Tracks live and peak bytes while armed; requests beyond a hard
//! ceiling fail (as a real machine's would), which Rust turns into an abort the parent process observes.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// sum of the sizes of all requests, which a reallocation makes anew
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
const CEILING: usize = 6 << 30;

fn grow(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if ARMED.load(Relaxed) {
        PEAK.fetch_max(live, Relaxed);
        TOTAL.fetch_add(n, Relaxed);
    }
    if n > CEILING {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
            TOTAL.fetch_add(l.size(), Relaxed);
        } else {
            LIVE.fetch_sub(l.size() - n, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// Runs f and returns its result, by how much the live heap peaked above its level at the start, and how much was
/// requested altogether
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    TOTAL.store(0, Relaxed);
    ARMED.store(true, Relaxed);
    let r = f();
    ARMED.store(false, Relaxed);
    (r, PEAK.load(Relaxed).saturating_sub(base), TOTAL.load(Relaxed))
}

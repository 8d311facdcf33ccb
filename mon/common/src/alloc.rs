//! A counting allocator: bytes live, peak, and number of allocations; refuses to go past a limit,
//! so that a runaway case ends its own worker instead of the sandbox.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
pub const LIMIT: usize = 2 << 30;

fn add(n: usize) -> bool {
    let live = LIVE.fetch_add(n, Relaxed) + n;
    if live > LIMIT {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(live, Relaxed);
    COUNT.fetch_add(1, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !add(new) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if q.is_null() {
            LIVE.fetch_sub(new, Relaxed);
        } else {
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}

pub fn live() -> usize {
    LIVE.load(Relaxed)
}
pub fn peak() -> usize {
    PEAK.load(Relaxed)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(Relaxed), Relaxed);
}
pub fn count() -> usize {
    COUNT.load(Relaxed)
}

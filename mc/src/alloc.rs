//! Counting allocator: live and peak bytes per thread, and a hard cap on one request.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

/// A single request above this fails (the process then aborts, which the parent observes).
pub static REQUEST_CAP: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

#[inline]
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REQUEST_CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REQUEST_CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REQUEST_CAP.load(Relaxed) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Starts a peak measurement and returns the live byte count it is relative to.
pub fn reset_peak() -> i64 {
    let v = live();
    PEAK.with(|p| p.set(v));
    v
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}

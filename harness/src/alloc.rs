//! Counting allocator: live and peak bytes of the thread, largest request, and totals of the process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BIG: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}
static ALL: AtomicI64 = AtomicI64::new(0);

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        let _ = BIG.try_with(|p| p.set(p.get().max(n)));
        let _ = CALLS.try_with(|p| p.set(p.get() + 1));
    });
    if n >= 4096 {
        ALL.fetch_add(n as i64, Relaxed);
    }
}
fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
    if n >= 4096 {
        ALL.fetch_sub(n as i64, Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        sub(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            sub(l.size());
            add(n);
        }
        q
    }
}

/// Bytes the thread has allocated and not released.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn peak() -> i64 {
    PEAK.with(|l| l.get())
}
/// Start measuring: the peak and the largest request are those from now on.
pub fn reset() {
    PEAK.with(|p| p.set(live()));
    BIG.with(|b| b.set(0));
    CALLS.with(|b| b.set(0));
}
pub fn biggest() -> usize {
    BIG.with(|b| b.get())
}

//! An allocator that counts, per thread, what the code under test holds and asks for.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}
fn grow(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
    let _ = TOTAL.try_with(|t| t.set(t.get().wrapping_add(n as u64)));
}
fn shrink(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            grow(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        shrink(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            shrink(l.size());
            grow(n);
        }
        q
    }
}

/// bytes held by this thread's allocations
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub struct Use {
    /// most bytes held at once, beyond those held before
    pub peak: u64,
    /// all bytes asked for
    pub total: u64,
}
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Use) {
    let l0 = live();
    PEAK.with(|p| p.set(l0));
    let t0 = TOTAL.with(|t| t.get());
    let r = f();
    let u = Use { peak: (PEAK.with(|p| p.get()) - l0).max(0) as u64, total: TOTAL.with(|t| t.get()).wrapping_sub(t0) };
    (r, u)
}

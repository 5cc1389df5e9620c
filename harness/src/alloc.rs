//! Counting allocator: current and peak heap use of each thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

/// Requests above this fail, as they would on a small machine.
const REFUSE: usize = 6 << 30;

fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        add(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Starts a measurement on this thread; `peak_since` gives the additional peak.
pub fn mark() -> i64 {
    let c = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c));
    c
}
pub fn peak_since(mark: i64) -> u64 {
    (PEAK.with(|p| p.get()) - mark).max(0) as u64
}
/// Growth of the heap in use on this thread.
pub fn grown_since(mark: i64) -> i64 {
    CUR.with(|c| c.get()) - mark
}

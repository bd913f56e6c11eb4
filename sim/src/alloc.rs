//! Accounting allocator: the allocation seam. Counts what the code under test requests on the calling thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn add(n: i64) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.with(|c| {
                let v = c.get() + n;
                c.set(v);
                PEAK.with(|p| {
                    if v > p.get() {
                        p.set(v)
                    }
                });
            });
            if n > 0 {
                COUNT.with(|c| c.set(c.get() + 1));
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Switches accounting; returns the previous state.
pub fn set(on: bool) -> bool {
    ON.with(|c| c.replace(on))
}
pub fn reset() {
    CUR.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    COUNT.with(|c| c.set(0));
}
pub fn peak() -> u64 {
    PEAK.with(|c| c.get()).max(0) as u64
}
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

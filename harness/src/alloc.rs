//! Records the largest allocation request of the current thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static MAX: Cell<usize> = const { Cell::new(0) };
}
pub struct Tracking;

fn saw(n: usize) {
    let _ = MAX.try_with(|m| {
        if n > m.get() {
            m.set(n)
        }
    });
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        saw(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        saw(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        saw(n);
        unsafe { System.realloc(p, l, n) }
    }
}

pub fn reset() {
    MAX.with(|m| m.set(0));
}
pub fn largest() -> usize {
    MAX.with(|m| m.get())
}

//! The allocator of the checks: it refuses what is out of proportion, and measures

use std::alloc::{GlobalAlloc, Layout, System};

/// A request bigger than any legitimate one is refused, as a system short of memory would do, so
/// that an allocation sized by a hostile header kills the process at once.
pub struct Limited;
const LIMIT: usize = 2 << 30;
/// of the whole process
pub const ADDRESS_SPACE: u64 = 20 << 30;
unsafe impl GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > LIMIT {
            return std::ptr::null_mut();
        }
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > LIMIT {
            return std::ptr::null_mut();
        }
        note(n);
        System.realloc(p, l, n)
    }
}
thread_local! {
    /// the biggest allocation of the thread since it was last reset
    static BIGGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}
fn note(size: usize) {
    let _ = BIGGEST.try_with(|b| b.set(b.get().max(size)));
}
/// Runs f, and gives the size of the biggest allocation it made
pub fn biggest_allocation<T>(f: impl FnOnce() -> T) -> (T, usize) {
    BIGGEST.with(|b| b.set(0));
    let v = f();
    (v, BIGGEST.with(|b| b.get()))
}
#[global_allocator]
static ALLOC: Limited = Limited;


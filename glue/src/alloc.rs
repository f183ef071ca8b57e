//! Counting allocator: remembers the largest single allocation, and refuses to go beyond a cap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
static LARGEST: AtomicUsize = AtomicUsize::new(0);
const CAP: usize = 1 << 30;
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Relaxed);
        if l.size() > CAP {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, Relaxed);
        if n > CAP {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
}
pub fn reset() {
    LARGEST.store(0, Relaxed)
}
pub fn largest() -> usize {
    LARGEST.load(Relaxed)
}
#[global_allocator]
static GLOBAL: Counting = Counting;

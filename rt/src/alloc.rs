//! Counting allocator: remembers the largest single allocation of this thread's test.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LARGEST: AtomicUsize = AtomicUsize::new(0);
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LARGEST.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LARGEST.fetch_max(n, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
static MARK: AtomicUsize = AtomicUsize::new(0);
/// Remembers the largest allocation since the last reset.
pub fn mark() {
    MARK.fetch_max(LARGEST.load(Ordering::Relaxed), Ordering::Relaxed);
}
pub fn marked() -> usize {
    MARK.swap(0, Ordering::Relaxed)
}
pub fn reset() {
    LARGEST.store(0, Ordering::Relaxed);
}
pub fn largest() -> usize {
    LARGEST.load(Ordering::Relaxed)
}

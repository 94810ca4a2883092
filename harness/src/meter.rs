//! Counting global allocator. Counts the calling thread only, between start and stop.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BYTES: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<usize> = const { Cell::new(0) };
    /// Requests above this many bytes in one metered call are refused (0: no limit).
    static LIMIT: Cell<usize> = const { Cell::new(0) };
    static REFUSED: Cell<usize> = const { Cell::new(0) };
}

pub fn start() {
    BYTES.with(|b| b.set(0));
    CALLS.with(|b| b.set(0));
    ON.with(|b| b.set(true));
}

/// (bytes requested, number of requests)
pub fn stop() -> (usize, usize) {
    ON.with(|b| b.set(false));
    (BYTES.with(|b| b.get()), CALLS.with(|b| b.get()))
}

/// In a metered call, a single request above `n` bytes unwinds with a message instead
/// of taking the memory. The monitor sees it as a panic named MEMORY.
pub fn limit(n: usize) {
    LIMIT.with(|l| l.set(n));
}

/// Largest refused request since the last call.
pub fn refused() -> usize {
    REFUSED.with(|l| l.replace(0))
}

#[inline]
fn note(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            let _ = BYTES.try_with(|b| b.set(b.get().saturating_add(n)));
            let _ = CALLS.try_with(|b| b.set(b.get() + 1));
            let l = LIMIT.try_with(|l| l.get()).unwrap_or(0);
            if l > 0 && n > l {
                on.set(false);
                let _ = REFUSED.try_with(|r| r.set(n));
                crate::mon::memory_violation(n);
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}

//! A global allocator that refuses single allocations above a limit while a case is running,
//! so that a decoder which trusts a hostile length fails at once and in the same way on every
//! machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub const LIMIT: usize = 64 << 20;
thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    /// What fresh memory is filled with, if anything.
    static FILL: Cell<Option<u8>> = const { Cell::new(None) };
    static MOST: Cell<usize> = const { Cell::new(0) };
}
/// Turns the limit on or off for this thread; returns what it was.
pub fn limit(on: bool) -> bool {
    ON.with(|c| c.replace(on))
}
/// Fills what this thread allocates from now on; returns what it was filled with.
pub fn fill(with: Option<u8>) -> Option<u8> {
    FILL.with(|c| c.replace(with))
}
unsafe fn filled(p: *mut u8, from: usize, to: usize) -> *mut u8 {
    if let Some(b) = FILL.try_with(Cell::get).unwrap_or(None) {
        if !p.is_null() && from < to {
            p.add(from).write_bytes(b, to - from);
        }
    }
    p
}
/// The largest single allocation this thread has asked for since the last call.
pub fn most() -> usize {
    MOST.with(|c| c.replace(0))
}
fn refused(n: usize) -> bool {
    if n > 1 << 20 {
        let _ = MOST.try_with(|c| c.set(c.get().max(n)));
    }
    n > LIMIT && ON.try_with(Cell::get).unwrap_or(false)
}
pub struct Capped;
unsafe impl GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        filled(System.alloc(l), 0, l.size())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refused(n) {
            return std::ptr::null_mut();
        }
        filled(System.realloc(p, l, n), l.size(), n)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
}

//! Counting allocator: live bytes and blocks per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn note(bytes: i64, blocks: i64) {
    let live = LIVE.try_with(|l| {
        l.set(l.get() + bytes);
        l.get()
    });
    if let (Ok(live), true) = (live, bytes > 0) {
        let _ = PEAK.try_with(|p| p.set(p.get().max(live)));
        let _ = BYTES.try_with(|b| b.set(b.get() + bytes as u64));
    }
    let _ = BLOCKS.try_with(|l| l.set(l.get() + blocks));
    if blocks > 0 {
        let _ = TOTAL.try_with(|l| l.set(l.get() + 1));
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64, 0);
        if n > l.size() {
            // it may have to move, so the whole of it counts
            let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        }
        System.realloc(p, l, n)
    }
}

/// (bytes, blocks) allocated and not yet freed by this thread
pub fn live() -> (i64, i64) {
    (LIVE.with(Cell::get), BLOCKS.with(Cell::get))
}

/// allocations ever made by this thread
pub fn total() -> u64 {
    TOTAL.with(Cell::get)
}

/// bytes ever allocated by this thread (all of a block that grows counted anew)
pub fn bytes() -> u64 {
    BYTES.with(Cell::get)
}

/// Forgets the highest number of live bytes so far.
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(Cell::get)));
}

/// highest number of live bytes since then
pub fn peak() -> i64 {
    PEAK.with(Cell::get)
}

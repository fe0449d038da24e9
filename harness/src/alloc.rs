//! An allocator that counts, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn grown(n: i64, blocks: i64) {
    let _ = LIVE.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v);
            }
        });
    });
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
}
fn asked(n: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        grown(l.size() as i64, 1);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        grown(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        asked(l.size());
        grown(l.size() as i64, 1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        asked(n);
        grown(n as i64 - l.size() as i64, 0);
        unsafe { System.realloc(p, l, n) }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Heap {
    /// bytes and blocks now in use
    pub live: i64,
    pub blocks: i64,
    /// allocator calls and bytes asked for so far
    pub calls: u64,
    pub bytes: u64,
}

pub fn heap() -> Heap {
    Heap {
        live: LIVE.with(Cell::get),
        blocks: BLOCKS.with(Cell::get),
        calls: CALLS.with(Cell::get),
        bytes: BYTES.with(Cell::get),
    }
}

/// Highest use since the last call; starts a new measurement.
pub fn reset_peak() -> i64 {
    PEAK.with(|p| p.replace(LIVE.with(Cell::get)))
}

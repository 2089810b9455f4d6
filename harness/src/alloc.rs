//! Counts what a thread allocates, and stops runaway allocation.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    /// New blocks are cleared, so that a block holds only what was written into it.
    static CLEAN: Cell<bool> = const { Cell::new(false) };
    /// What the blocks given back are searched for.
    static WATCH: Cell<*const Watch> = const { Cell::new(std::ptr::null()) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// A thread that wants to hold more than this gets no more memory, which ends the process; the
/// supervisor then finds the case. Far above what any case needs.
const LIMIT: isize = 3 << 30;

pub struct Counting;

fn add(n: isize) -> bool {
    LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > LIMIT {
            // remember what was asked for
            let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
            return false;
        }
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
        true
    })
    .unwrap_or(true)
}

struct Watch {
    needles: Vec<Vec<u8>>,
    /// Which pairs of bytes start a needle.
    starts: Vec<bool>,
    hits: Vec<Cell<u32>>,
    blocks: Cell<u64>,
    bytes: Cell<u64>,
}

fn look(p: *const u8, n: usize) {
    let w = WATCH.try_with(|w| w.get()).unwrap_or(std::ptr::null());
    if w.is_null() || n == 0 {
        return;
    }
    // the block is still allocated, cleared when it was made, and the watch outlives this
    let (b, w) = unsafe { (std::slice::from_raw_parts(p, n), &*w) };
    w.blocks.set(w.blocks.get() + 1);
    w.bytes.set(w.bytes.get() + n as u64);
    for i in 0..n.saturating_sub(7) {
        if w.starts[usize::from(b[i]) << 8 | usize::from(b[i + 1])] {
            for (k, h) in w.needles.iter().zip(&w.hits) {
                if b[i..].starts_with(k) {
                    h.set(h.get() + 1);
                }
            }
        }
    }
}

/// From now on this thread's new blocks are cleared.
pub fn clean() {
    CLEAN.with(|c| c.set(true));
}

fn cleaning() -> bool {
    CLEAN.try_with(|c| c.get()).unwrap_or(false)
}

pub struct Seen {
    /// For each needle, in how many places of blocks given back it was.
    pub hits: Vec<u32>,
    pub blocks: u64,
    pub bytes: u64,
}

/// Runs `f`, searching each block of memory that it gives back (or that grows or shrinks, because it
/// may move) for the needles, of 8 bytes or more. `clean` must have been called on this thread first.
pub fn watch<R>(needles: &[Vec<u8>], f: impl FnOnce() -> R) -> (R, Seen) {
    assert!(cleaning() && needles.iter().all(|n| n.len() >= 8));
    let mut w = Watch { needles: needles.to_vec(), starts: vec![false; 1 << 16], hits: vec![Cell::new(0); needles.len()], blocks: Cell::new(0), bytes: Cell::new(0) };
    for n in needles {
        w.starts[usize::from(n[0]) << 8 | usize::from(n[1])] = true;
    }
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            WATCH.with(|x| x.set(std::ptr::null()));
        }
    }
    let w = w;
    let r = {
        WATCH.with(|x| x.set(&w));
        let _off = Off;
        f()
    };
    (r, Seen { hits: w.hits.iter().map(|h| h.get()).collect(), blocks: w.blocks.get(), bytes: w.bytes.get() })
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        if cleaning() {
            return unsafe { System.alloc_zeroed(l) };
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as isize) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        look(p, l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !add(n as isize - l.size() as isize) {
            return std::ptr::null_mut();
        }
        if cleaning() {
            unsafe {
                let q = System.alloc_zeroed(std::alloc::Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    look(p, l.size());
                    System.dealloc(p, l);
                }
                return q;
            }
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// Runs `f`; how many bytes this thread held at most, beyond what it held before.
pub fn peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    (r, (PEAK.with(|p| p.get()) - base).max(0) as usize)
}

/// What this thread holds now.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

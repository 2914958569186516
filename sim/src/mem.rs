//! The memory the code under test holds: a counting allocator. Whatever the simulator
//! itself allocates is told apart by who allocates it, so that its growing history does
//! not count.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

const MINE: u64 = 0x51b7_11fe_0000_0001;
const HARNESS: u64 = 0x51b7_11fe_0000_0002;

static BYTES: AtomicI64 = AtomicI64::new(0);
static BLOCKS: AtomicI64 = AtomicI64::new(0);
/// set while the simulator's core runs
pub static IN_CORE: AtomicBool = AtomicBool::new(false);

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

/// allocations within are the simulator's
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    struct Leave;
    impl Drop for Leave {
        fn drop(&mut self) {
            DEPTH.with(|d| d.set(d.get() - 1));
        }
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    let _l = Leave;
    f()
}
/// this thread is the simulator's
pub fn own_thread() {
    DEPTH.with(|d| d.set(1 << 20));
}
/// live bytes and blocks of the code under test
pub fn live() -> (i64, i64) {
    (BYTES.load(Relaxed), BLOCKS.load(Relaxed))
}

/// count from here on
pub fn start() {
    BYTES.store(0, Relaxed);
    BLOCKS.store(0, Relaxed);
}

pub struct Counting;

#[inline]
fn head(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = head(&l);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h, h));
        if p.is_null() {
            return p;
        }
        let mine = !IN_CORE.load(Relaxed) && DEPTH.with(|d| d.get()) == 0;
        *(p.add(h - 8) as *mut u64) = if mine { MINE } else { HARNESS };
        if mine {
            BYTES.fetch_add(l.size() as i64, Relaxed);
            BLOCKS.fetch_add(1, Relaxed);
        }
        p.add(h)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(&l);
        if *(p.sub(8) as *const u64) == MINE {
            BYTES.fetch_sub(l.size() as i64, Relaxed);
            BLOCKS.fetch_sub(1, Relaxed);
        }
        System.dealloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let h = head(&l);
        let mine = *(p.sub(8) as *const u64) == MINE;
        let q = System.realloc(p.sub(h), Layout::from_size_align_unchecked(l.size() + h, h), new + h);
        if q.is_null() {
            return q;
        }
        if mine {
            BYTES.fetch_add(new as i64 - l.size() as i64, Relaxed);
        }
        q.add(h)
    }
}

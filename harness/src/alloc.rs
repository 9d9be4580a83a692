//! An allocator that always moves and poisons blocks, so that a pointer that
//! outlives its block is seen to dangle, and that counts bytes in use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Mover;
static IN_USE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

fn add(n: usize) {
    let now = IN_USE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(now, Relaxed);
}

unsafe impl GlobalAlloc for Mover {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        IN_USE.fetch_sub(l.size(), Relaxed);
        std::ptr::write_bytes(p, 0xA5, l.size().min(4096));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

pub fn reset_peak() -> usize {
    let now = IN_USE.load(Relaxed);
    PEAK.store(now, Relaxed);
    now
}
pub fn peak() -> usize { PEAK.load(Relaxed) }

pub fn in_use() -> usize { IN_USE.load(Relaxed) }

//! Poisons and quarantines freed memory, so that a use after free shows up as a crash or as wrong data.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

pub struct Poison;
const N: usize = 1 << 13;
const MAX: usize = 2048;
static LOCK: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static mut RING: [(usize, usize, usize); N] = [(0, 0, 0); N];

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe {
        std::ptr::write_bytes(p, 0xDD, l.size());
        if l.size() > MAX { System.dealloc(p, l); return; }
        while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() { std::hint::spin_loop(); }
        let i = NEXT.load(Relaxed);
        NEXT.store((i + 1) % N, Relaxed);
        let ring = &raw mut RING;
        let old = (*ring)[i];
        (*ring)[i] = (p as usize, l.size(), l.align());
        LOCK.store(false, Release);
        if old.0 != 0 { System.dealloc(old.0 as *mut u8, Layout::from_size_align_unchecked(old.1, old.2)); }
    } }
}

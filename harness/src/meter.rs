//! An allocator that keeps account.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

/// Keeps account of the bytes this thread holds, and of the most it held.
pub struct Meter;

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| p.set(p.get().max(v)));
    });
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // as if by allocating the new before freeing the old
        add(n as isize);
        let r = unsafe { System.realloc(p, l, n) };
        add(-(l.size() as isize));
        r
    }
}

/// Builds something, with the most extra memory held at any time during that and what the result kept.
pub fn metered<R>(f: impl FnOnce() -> R) -> (R, usize, isize) {
    let start = LIVE.get();
    PEAK.set(start);
    let r = f();
    (r, (PEAK.get() - start) as usize, LIVE.get() - start)
}

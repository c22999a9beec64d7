//! Global allocator that watches for requests out of proportion to the input. A request
//! above the cap while a case is armed ends the run with a violation that names the case
//! (an allocation that fails would abort the process without a verdict otherwise).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Watch;

thread_local! {
    static CAP: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE: Cell<usize> = const { Cell::new(0) };
}

#[inline]
fn check(size: usize) {
    let cap = CAP.try_with(|c| c.get()).unwrap_or(usize::MAX);
    if cap == usize::MAX {
        return;
    }
    let over = size > cap
        || LIVE.with(|l| {
            let v = l.get().saturating_add(size);
            l.set(v);
            v > cap
        });
    if over {
        CAP.with(|c| c.set(usize::MAX));
        crate::run::too_large(size);
    }
}

#[inline]
fn free(size: usize) {
    let _ = CAP.try_with(|c| {
        if c.get() != usize::MAX {
            LIVE.with(|l| l.set(l.get().saturating_sub(size)));
        }
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        free(l.size());
        System.realloc(p, l, n)
    }
}

/// Run `f` with live allocations of this thread limited to `cap` bytes.
pub fn with_cap<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            CAP.with(|c| c.set(usize::MAX));
        }
    }
    LIVE.with(|l| l.set(0));
    CAP.with(|c| c.set(cap));
    let _r = Reset;
    f()
}

//! Counting allocator: per-thread live bytes and peak, and a per-thread ceiling above which a
//! request is refused (so that a runaway allocation ends the case, not the sandbox).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

const DEFAULT_CEILING: usize = 64 << 20;
/// small requests may go this much over, so that a large one just under the ceiling leaves room for error messages
const SLACK: isize = 16 << 20;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static VOLUME: Cell<usize> = const { Cell::new(0) };
    static REFUSED: Cell<bool> = const { Cell::new(false) };
    static CEILING: Cell<usize> = const { Cell::new(isize::MAX as usize) };
}

fn grow(n: usize) -> bool {
    LIVE.try_with(|l| {
        let now = l.get().saturating_add(n.min(isize::MAX as usize) as isize);
        let over = CEILING.with(|c| now.saturating_sub(if n < 4096 { SLACK } else { 0 }) > c.get() as isize);
        PEAK.with(|p| {
            if now > p.get() {
                p.set(now)
            }
        });
        if over {
            REFUSED.with(|r| r.set(true));
            return false;
        }
        l.set(now);
        VOLUME.with(|v| v.set(v.get().wrapping_add(n)));
        true
    })
    .unwrap_or(true)
}

fn shrink(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get().saturating_sub(n as isize)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if p.is_null() {
            shrink(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if p.is_null() {
            shrink(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        shrink(l.size());
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let extra = new.saturating_sub(l.size());
        if extra > 0 {
            // it may have to be copied
            let _ = VOLUME.try_with(|v| v.set(v.get().wrapping_add(l.size())));
        }
        if extra > 0 && !grow(extra) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, new);
        if q.is_null() {
            shrink(extra);
        } else if new < l.size() {
            shrink(l.size() - new);
        }
        q
    }
}

pub fn reset_thread() {
    LIVE.with(|l| l.set(0));
    PEAK.with(|p| p.set(0));
    REFUSED.with(|r| r.set(false));
    CEILING.with(|c| c.set(DEFAULT_CEILING));
}

/// An allocation was refused in this case: which error that ends in is nobody's promise.
pub fn refused() -> bool {
    REFUSED.with(|r| r.get())
}

/// .. and return what it was
pub fn set_ceiling(n: usize) -> usize {
    CEILING.with(|c| c.replace(n))
}

/// Run `f` and return its result with all the bytes it has requested, whether or not it gave them back.
pub fn volume<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let before = VOLUME.with(|v| v.get());
    let r = f();
    (r, VOLUME.with(|v| v.get()).wrapping_sub(before))
}

pub fn raise_ceiling(n: usize) {
    CEILING.with(|c| c.set(c.get().max(n)));
}

/// Run `f` and return its result with the peak of bytes it had requested above the entry level.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - base).max(0) as usize)
}

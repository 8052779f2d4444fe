//! Memory asked for while something of foreign origin is decoded.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

/// more than this within one call is refused (the process then aborts)
const CAP: i64 = 3 << 30;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

#[inline]
fn took(n: usize) -> bool {
    ON.try_with(|on| {
        if !on.get() {
            return true;
        }
        let c = CUR.get().saturating_add(n.min(1 << 60) as i64);
        if c > CAP {
            return false;
        }
        CUR.set(c);
        PEAK.set(PEAK.get().max(c));
        true
    })
    .unwrap_or(true)
}

#[inline]
fn gave(n: usize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            CUR.set(CUR.get() - n as i64)
        }
    });
}

// SAFETY: passes everything on to the system's allocator
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !took(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !took(l.size()) {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        gave(l.size());
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && !took(n - l.size()) {
            return std::ptr::null_mut();
        }
        if n < l.size() {
            gave(l.size() - n);
        }
        unsafe { System.realloc(p, l, n) }
    }
}

/// the most memory f held at once beyond what it found
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            ON.set(false);
        }
    }
    CUR.set(0);
    PEAK.set(0);
    ON.set(true);
    let off = Off;
    let x = f();
    drop(off);
    (x, PEAK.get().max(0) as u64)
}

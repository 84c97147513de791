//! A global allocator that refuses requests on a schedule while the library
//! runs one of its fallible operations.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    ptr::null_mut,
};

/// When requests are refused, counted from [`schedule`].
#[derive(Clone, Copy, Debug)]
pub enum Refuse {
    Never,
    /// Only this request.
    Once(u64),
    /// This request and all later ones.
    From(u64),
    /// Everything beyond so many more bytes.
    Budget(usize),
}

thread_local! {
    static PLAN: Cell<Refuse> = const { Cell::new(Refuse::Never) };
    /// Whether requests count at the moment.
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<usize> = const { Cell::new(0) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
}

/// Starts a schedule; it only matters within [`armed`].
pub fn schedule(r: Refuse) {
    PLAN.set(r);
    SEEN.set(0);
    BYTES.set(0);
    REFUSED.set(0);
}
/// Requests refused since the schedule started.
pub fn refused() -> u64 {
    REFUSED.get()
}
pub fn disarm() {
    let _ = ARMED.try_with(|a| a.set(false));
}

fn with<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            ARMED.set(self.0);
        }
    }
    let _r = Restore(ARMED.replace(on));
    f()
}
/// Runs the library's fallible code.
pub fn armed<R>(f: impl FnOnce() -> R) -> R {
    let on = !matches!(PLAN.get(), Refuse::Never);
    with(on, f)
}
/// Runs the harness's own code within.
pub fn paused<R>(f: impl FnOnce() -> R) -> R {
    if ARMED.get() { with(false, f) } else { f() }
}

/// Whether a request for so many bytes is refused.
fn refuses(bytes: usize) -> bool {
    if !ARMED.try_with(Cell::get).unwrap_or(false) {
        return false;
    }
    let n = SEEN.get();
    SEEN.set(n + 1);
    let no = match PLAN.get() {
        Refuse::Never => false,
        Refuse::Once(at) => n == at,
        Refuse::From(at) => n >= at,
        Refuse::Budget(b) => BYTES.get().saturating_add(bytes) > b,
    };
    if no {
        REFUSED.set(REFUSED.get() + 1);
    } else {
        BYTES.set(BYTES.get().saturating_add(bytes));
    }
    no
}

pub struct Refusing;
// SAFETY: requests are refused or passed to the system allocator.
unsafe impl GlobalAlloc for Refusing {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuses(l.size()) { null_mut() } else { unsafe { System.alloc(l) } }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuses(l.size()) { null_mut() } else { unsafe { System.alloc_zeroed(l) } }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // Giving memory back cannot reasonably fail.
        if n > l.size() && refuses(n - l.size()) { null_mut() } else { unsafe { System.realloc(p, l, n) } }
    }
}

//! Watching memory: an allocator that remembers every block handed out while
//! watching, keeps freed blocks poisoned until the end of the case, and
//! notices reads and writes after free, double frees and leaks.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::BTreeMap,
    mem::ManuallyDrop,
};

const POISON: u8 = 0xdd;

pub struct Watch;

#[derive(Clone, Copy)]
struct Block {
    layout: Layout,
    freed: bool,
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    // Never destroyed, as freeing goes on while a thread ends.
    /// Whether the table below holds anything.
    static ANY: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: ManuallyDrop<RefCell<BTreeMap<usize, Block>>> = const { ManuallyDrop::new(RefCell::new(BTreeMap::new())) };
    static WRONG: ManuallyDrop<RefCell<Vec<String>>> = const { ManuallyDrop::new(RefCell::new(Vec::new())) };
}

/// Runs `f` with the allocator's own bookkeeping kept out of the table.
fn busy<R>(f: impl FnOnce() -> R) -> R {
    let was = BUSY.replace(true);
    let r = f();
    BUSY.set(was);
    r
}

// SAFETY: every request is passed to the system allocator; watched blocks are
// returned to it later, with the layout they were allocated with.
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(layout) };
        if !p.is_null() && ON.try_with(Cell::get).unwrap_or(false) && !BUSY.get() {
            // Fresh memory is never accidentally zero.
            unsafe { p.write_bytes(0xcd, layout.size()) };
            busy(|| BLOCKS.with(|b| b.borrow_mut().insert(p as usize, Block { layout, freed: false })));
            ANY.set(true);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ON.try_with(Cell::get).unwrap_or(false) && !BUSY.get() {
            let p = unsafe { self.alloc(layout) };
            if !p.is_null() {
                unsafe { p.write_bytes(0, layout.size()) };
            }
            return p;
        }
        unsafe { System.alloc_zeroed(layout) }
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if ANY.try_with(Cell::get).unwrap_or(false) && !BUSY.get() {
            let watched = busy(|| {
                BLOCKS.with(|b| {
                    let mut b = b.borrow_mut();
                    let Some(block) = b.get_mut(&(ptr as usize)) else { return false };
                    if block.freed {
                        WRONG.with(|w| w.borrow_mut().push(format!("a block of {} bytes is freed twice", layout.size())));
                    } else {
                        if block.layout != layout {
                            WRONG.with(|w| {
                                w.borrow_mut().push(format!("a block of {:?} is freed as {layout:?}", block.layout));
                            });
                        }
                        block.freed = true;
                        unsafe { ptr.write_bytes(POISON, block.layout.size()) };
                    }
                    true
                })
            });
            if watched {
                return;
            }
        }
        unsafe { System.dealloc(ptr, layout) }
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let plain = BUSY.try_with(Cell::get).unwrap_or(true) || !(ON.get() || ANY.get());
        if plain {
            return unsafe { System.realloc(ptr, layout, new_size) };
        }
        let new = unsafe { Layout::from_size_align_unchecked(new_size, layout.align()) };
        let p = unsafe { self.alloc(new) };
        if !p.is_null() {
            unsafe {
                ptr.copy_to_nonoverlapping(p, layout.size().min(new_size));
                self.dealloc(ptr, layout);
            }
        }
        p
    }
}

/// Runs `f` with allocations watched.
pub fn watched<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            ON.set(self.0);
        }
    }
    let _r = Restore(ON.replace(true));
    f()
}

/// Runs `f` with allocations not watched.
pub fn unwatched<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            ON.set(self.0);
        }
    }
    let _r = Restore(ON.replace(false));
    f()
}

/// Watched blocks not freed, other than those starting at `except`.
pub fn live(except: &[(usize, usize)]) -> usize {
    BLOCKS.with(|b| b.borrow().iter().filter(|(p, b)| !b.freed && !except.iter().any(|e| e.0 == **p)).count())
}

/// Whether `len` bytes at `at` may be read, as far as is known.
pub fn readable(at: usize, len: usize, what: &str) -> Result<(), String> {
    if len == 0 {
        return Ok(());
    }
    BLOCKS.with(|b| {
        let b = b.borrow();
        let Some((p, block)) = b.range(..at + len).next_back() else { return Ok(()) };
        let end = p + block.layout.size();
        if end <= at {
            return Ok(());
        }
        if block.freed {
            return Err(format!("{what} lies in freed memory"));
        }
        if *p > at || at + len > end {
            return Err(format!("{what} ({len} bytes) exceeds its memory block of {} bytes", block.layout.size()));
        }
        Ok(())
    })
}

/// Whether a watched block starting there is still live.
pub fn is_live(at: usize) -> bool {
    BLOCKS.with(|b| b.borrow().get(&at).is_some_and(|b| !b.freed))
}

/// Whether everything done to watched memory so far was right.
pub fn sound() -> Result<(), String> {
    let wrong = WRONG.with(|w| w.borrow().clone());
    if let Some(w) = wrong.first() {
        return Err(w.clone());
    }
    BLOCKS.with(|b| {
        for (p, block) in b.borrow().iter().filter(|(_, b)| b.freed) {
            // SAFETY: freed blocks are kept until `clear`.
            let bytes = unsafe { std::slice::from_raw_parts(*p as *const u8, block.layout.size()) };
            if bytes.iter().any(|b| *b != POISON) {
                return Err(format!("a freed block of {} bytes was written to", bytes.len()));
            }
        }
        Ok(())
    })
}

/// Forgets everything, returning freed blocks to the system. Blocks still
/// live stay allocated.
pub fn clear() {
    ON.set(false);
    let blocks = busy(|| BLOCKS.with(|b| std::mem::take(&mut *b.borrow_mut())));
    ANY.set(false);
    for (p, block) in &blocks {
        if block.freed {
            // SAFETY: allocated by the system with this layout and not returned yet.
            unsafe { System.dealloc(*p as *mut u8, block.layout) };
        }
    }
    busy(|| {
        drop(blocks);
        WRONG.with(|w| w.borrow_mut().clear());
    });
}

//! A global allocator that counts what the library requests in chosen places,
//! and sums of items that are computed without requesting anything.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

use crate::val::{Ty, Val};

thread_local! {
    static WATCHING: Cell<bool> = const { Cell::new(false) };
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<usize> = const { Cell::new(0) };
}

/// Runs the library's code, counting its requests if [`Counting`] is the
/// global allocator.
pub fn watch<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            WATCHING.set(self.0);
        }
    }
    let _r = Restore(WATCHING.replace(true));
    f()
}
/// Requests and bytes since the last call.
pub fn taken() -> (u64, usize) {
    (REQUESTS.replace(0), BYTES.replace(0))
}

fn note(bytes: usize) {
    if WATCHING.try_with(Cell::get).unwrap_or(false) {
        REQUESTS.set(REQUESTS.get() + 1);
        BYTES.set(BYTES.get().saturating_add(bytes));
    }
}

pub struct Counting;
// SAFETY: everything is passed to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { System.realloc(p, l, n) }
    }
}

/// A sum over values in order.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Sum(u64);
impl Sum {
    pub fn add(&mut self, x: u128) {
        for x in [x as u64, (x >> 64) as u64] {
            self.0 = (self.0 ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29).wrapping_add(1);
        }
    }
    pub fn len(&mut self, n: usize) {
        self.add(n as u128);
    }
    pub fn null(&mut self, null: bool) {
        self.add(u128::from(null));
    }
    pub fn item(&mut self, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Plain(t), v) => self.item(t, v),
            (Ty::Opt(_), Val::N) => self.null(true),
            (Ty::Opt(t), v) => {
                self.null(false);
                self.item(t, v);
            }
            (Ty::List(_, t), Val::L(l)) => {
                self.len(l.len());
                l.iter().for_each(|v| self.item(t, v));
            }
            (Ty::Arr(_, t), Val::L(l)) => l.iter().for_each(|v| self.item(t, v)),
            (Ty::Fsa(..), Val::L(l)) => l.iter().for_each(|v| self.item(&Ty::Prim(0), v)),
            (Ty::Bool, Val::B(b)) => self.add(u128::from(*b)),
            (Ty::Prim(_), Val::P(p)) => self.add(*p),
            _ => panic!("harness: {v:?} is no {ty:?}"),
        }
    }
}

/// What [`crate::coll::Read::touch`] finds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Touch {
    pub len: usize,
    pub empty: bool,
    /// Every position's view.
    pub positions: Sum,
    /// Borrowed iteration with the hint before each step.
    pub steps: Sum,
    /// Borrowed iteration from within.
    pub fold: Sum,
    /// Every third item, by skipping.
    pub skips: Sum,
    pub last: Option<Sum>,
    pub count: usize,
    /// Whether there is anything past the end.
    pub past: bool,
    /// Null information at every level.
    pub nulls: Sum,
    /// Every position's owned item, for types without variable-size lists.
    pub owned: Option<Sum>,
}

pub fn one(f: impl FnOnce(&mut Sum)) -> Sum {
    let mut s = Sum::default();
    f(&mut s);
    s
}

/// Whether owned items need no memory.
pub fn listless(ty: &Ty) -> bool {
    match ty {
        Ty::List(..) => false,
        Ty::Opt(t) | Ty::Arr(_, t) | Ty::Plain(t) => listless(t),
        _ => true,
    }
}

impl Touch {
    pub fn expected(ty: &Ty, model: &[Val], nulls: &[crate::phys::NullInfo]) -> Self {
        let mut t = Touch { len: model.len(), empty: model.is_empty(), count: model.len(), ..Touch::default() };
        for (i, v) in model.iter().enumerate() {
            t.positions.item(ty, v);
            t.steps.len(model.len() - i);
            t.steps.item(ty, v);
        }
        t.steps.len(0);
        t.fold = t.positions;
        model.iter().skip(2).step_by(3).for_each(|v| t.skips.item(ty, v));
        t.last = model.last().map(|v| one(|s| s.item(ty, v)));
        t.owned = listless(ty).then_some(t.positions);
        for n in nulls {
            t.nulls.len(n.len);
            n.valid.iter().zip(&n.null).for_each(|(v, u)| {
                t.nulls.null(*v == Some(false));
                t.nulls.null(*u == Some(true));
            });
            t.nulls.len(n.null_count);
            t.nulls.len(n.valid_count);
            for b in [n.any_null, n.all_null, n.any_valid, n.all_valid] {
                t.nulls.null(b);
            }
        }
        t
    }
}

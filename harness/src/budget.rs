//! Instrumented storage whose allocator refuses requests on a schedule.

use std::{
    borrow::{Borrow, BorrowMut},
    cell::{Cell, RefCell},
    rc::Rc,
};

use narrow::{
    buffer::Buffer,
    collection::{AllocError, Collection, CollectionAllocIn, CollectionRealloc},
    fixed_size::FixedSize,
    length::Length,
};

/// Allocator state.
#[derive(Debug, Default)]
pub struct State {
    /// Requests made so far, granted or not.
    pub requests: Cell<u64>,
    /// Requests refused so far.
    pub refused: Cell<u64>,
    /// Refuses the request with this number (and the following ones if set).
    pub refuse_at: Cell<Option<u64>>,
    pub refuse_rest: Cell<bool>,
    /// Bytes granted in total may not exceed this.
    pub budget: Cell<Option<usize>>,
    pub granted: Cell<usize>,
}

/// A handle to an allocator.
#[derive(Clone, Debug)]
pub struct BAlloc(pub Rc<State>);

thread_local! {
    static AMBIENT: RefCell<Rc<State>> = RefCell::default();
}

/// Installs a fresh allocator as the one `Default` hands out.
pub fn fresh_ambient() -> BAlloc {
    let s = Rc::new(State::default());
    AMBIENT.with(|a| *a.borrow_mut() = Rc::clone(&s));
    BAlloc(s)
}
pub fn ambient() -> BAlloc {
    BAlloc(AMBIENT.with(|a| Rc::clone(&a.borrow())))
}

thread_local! {
    static NEXT: RefCell<Option<BAlloc>> = const { RefCell::new(None) };
}

/// Makes the next `Default` hand out this allocator instead of the ambient one.
/// The harness's own `Default::default()` argument comes first.
pub fn hand_over(a: &BAlloc) {
    NEXT.with(|n| *n.borrow_mut() = Some(a.clone()));
}
/// An allocator of its own.
pub fn separate() -> BAlloc {
    BAlloc(Rc::default())
}
/// Installs this allocator as the ambient one.
pub fn install(a: &BAlloc) {
    AMBIENT.with(|x| *x.borrow_mut() = Rc::clone(&a.0));
}

impl Default for BAlloc {
    fn default() -> Self {
        NEXT.with(|n| n.borrow_mut().take()).unwrap_or_else(ambient)
    }
}

impl BAlloc {
    /// Tells allocators apart.
    pub fn id(&self) -> usize {
        Rc::as_ptr(&self.0) as usize
    }
    fn request(&self, bytes: usize) -> Result<(), AllocError> {
        let s = &self.0;
        let n = s.requests.get();
        s.requests.set(n + 1);
        let scheduled = s
            .refuse_at
            .get()
            .is_some_and(|at| if s.refuse_rest.get() { n >= at } else { n == at });
        // A request no machine could grant is always refused.
        let absurd = bytes > 1 << 30;
        let over = s.budget.get().is_some_and(|b| s.granted.get().saturating_add(bytes) > b);
        if scheduled || absurd || over {
            s.refused.set(s.refused.get() + 1);
            return Err(AllocError);
        }
        s.granted.set(s.granted.get() + bytes);
        Ok(())
    }
}

/// A growable buffer with an allocator handle.
#[derive(Debug)]
pub struct BCol<T> {
    v: Vec<T>,
    cap: usize,
    alloc: BAlloc,
}

impl<T> BCol<T> {
    pub fn adopt(v: Vec<T>) -> Self {
        let cap = v.len();
        BCol { v, cap, alloc: ambient() }
    }
    fn grow(&mut self, additional: usize) -> Result<(), AllocError> {
        let need = self.v.len().checked_add(additional).ok_or(AllocError)?;
        if need > self.cap {
            let bytes = need.checked_mul(size_of::<T>()).ok_or(AllocError)?;
            self.alloc.request(bytes)?;
            self.cap = need;
        }
        Ok(())
    }
}

impl<T> Default for BCol<T> {
    fn default() -> Self {
        BCol { v: Vec::new(), cap: 0, alloc: ambient() }
    }
}
impl<T> Borrow<[T]> for BCol<T> {
    fn borrow(&self) -> &[T] {
        &self.v
    }
}
impl<T> BorrowMut<[T]> for BCol<T> {
    fn borrow_mut(&mut self) -> &mut [T] {
        &mut self.v
    }
}
impl<T> Length for BCol<T> {
    fn len(&self) -> usize {
        self.v.len()
    }
}
impl<T: FixedSize> Collection for BCol<T> {
    type View<'c>
        = T
    where
        Self: 'c;
    type Owned = T;
    fn view(&self, index: usize) -> Option<T> {
        self.v.get(index).copied()
    }
    type Iter<'c>
        = std::iter::Copied<std::slice::Iter<'c, T>>
    where
        Self: 'c;
    fn iter_views(&self) -> Self::Iter<'_> {
        self.v.iter().copied()
    }
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter_owned(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<T: FixedSize> Extend<T> for BCol<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
        for x in iter {
            self.grow(1).expect("scheduled refusal");
            self.v.push(x);
        }
    }
}
impl<T: FixedSize> FromIterator<T> for BCol<T> {
    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
        let mut c = Self::default();
        c.extend(iter);
        c
    }
}
impl<T: FixedSize> CollectionAllocIn for BCol<T> {
    type Alloc = BAlloc;
    fn with_capacity_in(capacity: usize, alloc: BAlloc) -> Self {
        Self::try_with_capacity_in(capacity, alloc).expect("scheduled refusal")
    }
    fn from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: BAlloc) -> Self {
        let mut c = Self::with_capacity_in(0, alloc);
        c.extend(iter);
        c
    }
    fn try_with_capacity_in(capacity: usize, alloc: BAlloc) -> Result<Self, AllocError> {
        let mut c = BCol { v: Vec::new(), cap: 0, alloc };
        c.grow(capacity)?;
        Ok(c)
    }
    fn try_from_iter_in<I: IntoIterator<Item = T>>(iter: I, alloc: BAlloc) -> Result<Self, AllocError> {
        let it = iter.into_iter();
        let mut c = Self::try_with_capacity_in(it.size_hint().0, alloc)?;
        c.try_extend(it)?;
        Ok(c)
    }
}
impl<T: FixedSize> CollectionRealloc for BCol<T> {
    fn allocator(&self) -> BAlloc {
        self.alloc.clone()
    }
    fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
        self.grow(additional)
    }
    fn try_extend<I: IntoIterator<Item = T>>(&mut self, iter: I) -> Result<(), AllocError> {
        let len = self.v.len();
        for x in iter {
            if let Err(e) = self.grow(1) {
                self.v.truncate(len);
                return Err(e);
            }
            self.v.push(x);
        }
        Ok(())
    }
    fn reserve(&mut self, additional: usize) {
        self.grow(additional).expect("scheduled refusal");
    }
    fn truncate(&mut self, len: usize) {
        self.v.truncate(len);
    }
}

/// Storage over [`BCol`].
#[derive(Clone, Copy, Debug, Default)]
pub struct BudgetBuffer;
impl Buffer for BudgetBuffer {
    type For<T: FixedSize> = BCol<T>;
}

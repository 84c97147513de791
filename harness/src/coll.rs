//! Object-safe access to every collection type under test, so that each
//! property is written once over all of them.

use narrow::collection::{AllocError, CollectionAlloc, CollectionAllocIn, CollectionRealloc};
use std::marker::PhantomData;

use crate::{
    feed::Feed,
    refuse,
    phys::{Build, Node, NullInfo, Phys},
    quiet::{self, Sum, Touch},
    val::{Dyn, Ty, Val},
};

/// An iterator handed out by the library.
pub trait Steps {
    fn next(&mut self) -> Option<Val>;
    fn nth(&mut self, n: usize) -> Option<Val>;
    fn hint(&self) -> (usize, Option<usize>);
    /// `ExactSizeIterator::len`, for consuming iterators.
    fn exact(&self) -> Option<usize>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Val>;
    /// All remaining items, by internal iteration.
    fn fold(self: Box<Self>) -> Vec<Val>;
    /// All remaining items, collected through the library iterator's hints.
    fn collect(self: Box<Self>) -> Vec<Val>;
}

pub struct Views<I, C>(pub I, pub PhantomData<C>);
impl<'a, C: Node + 'a, I: Iterator<Item = C::View<'a>>> Steps for Views<I, C> {
    fn next(&mut self) -> Option<Val> {
        self.0.next().map(|v| C::view_val(v))
    }
    fn nth(&mut self, n: usize) -> Option<Val> {
        self.0.nth(n).map(|v| C::view_val(v))
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        None
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<Val> {
        self.0.last().map(|v| C::view_val(v))
    }
    fn fold(self: Box<Self>) -> Vec<Val> {
        self.0.fold(Vec::new(), |mut l, v| {
            l.push(C::view_val(v));
            l
        })
    }
    fn collect(self: Box<Self>) -> Vec<Val> {
        self.0.collect::<Vec<_>>().into_iter().map(|v| C::view_val(v)).collect()
    }
}

pub struct Owns<I>(pub I);
impl<T: Dyn, I: ExactSizeIterator<Item = T>> Steps for Owns<I> {
    fn next(&mut self) -> Option<Val> {
        self.0.next().map(|v| v.to_val())
    }
    fn nth(&mut self, n: usize) -> Option<Val> {
        self.0.nth(n).map(|v| v.to_val())
    }
    fn hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn exact(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn count(self: Box<Self>) -> usize {
        self.0.count()
    }
    fn last(self: Box<Self>) -> Option<Val> {
        self.0.last().map(|v| v.to_val())
    }
    fn fold(self: Box<Self>) -> Vec<Val> {
        self.0.fold(Vec::new(), |mut l, v| {
            l.push(v.to_val());
            l
        })
    }
    fn collect(self: Box<Self>) -> Vec<Val> {
        self.0.collect::<Vec<T>>().iter().map(Dyn::to_val).collect()
    }
}

/// Reading.
pub trait Read {
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn view(&self, i: usize) -> Option<Val>;
    fn owned(&self, i: usize) -> Option<Val>;
    /// Reads item `i` through every path its view offers.
    fn probe(&self, i: usize, far: &[usize]) -> Result<Option<Val>, String>;
    fn iter(&self) -> Box<dyn Steps + '_>;
    fn into_steps<'a>(self: Box<Self>) -> Box<dyn Steps + 'a>
    where
        Self: 'a;
    /// Hands every iterator that item `i`'s view offers to `f`, with the items
    /// it must yield.
    fn inner(&self, i: usize, f: Inner<'_>) -> Result<(), String>;
    /// Reads everything borrowed, and what can be owned without memory, in
    /// every way, requesting none itself.
    fn touch(&self) -> Touch;
    /// Adds up consuming iteration.
    fn into_touch(self: Box<Self>) -> Sum;
    fn dump(&self) -> Phys;
    fn addrs(&self) -> Vec<(usize, usize)>;
    fn nulls(&self) -> Vec<NullInfo>;
}

pub type Inner<'f> = &'f mut dyn FnMut(Box<dyn Steps + '_>, &[Val]) -> Result<(), String>;

/// Growing.
pub trait Grow: Read {
    fn extend(&mut self, f: Feed);
    fn try_extend(&mut self, f: Feed) -> Result<(), AllocError>;
    fn reserve(&mut self, n: usize);
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError>;
    fn truncate(&mut self, n: usize);
    fn try_clone(&self) -> Option<Box<dyn Grow>>;
    /// Which scheduled allocator it reports, if it is one.
    fn reports(&self) -> Option<usize>;
    /// Taken apart and put together again.
    fn rebuild(self: Box<Self>) -> Result<Box<dyn Grow>, String>;
    /// The wrapped collection.
    fn any(self: Box<Self>) -> Box<dyn std::any::Any>;
}

/// Readable wrapper.
pub struct R<C>(pub C);
/// Growable wrapper, with the type's own clone if it has one.
pub struct W<C>(pub C, pub Option<fn(&C) -> C>);

pub fn touch<C: Node>(c: &C) -> Touch {
    let ty = C::ty();
    let owned = quiet::listless(&ty);
    quiet::watch(|| {
        let mut t = Touch { len: c.len(), empty: c.is_empty(), ..Touch::default() };
        for i in 0..t.len {
            if let Some(v) = c.view(i) {
                C::touch(v, &mut t.positions);
            }
        }
        let mut it = c.iter_views();
        loop {
            let (least, most) = it.size_hint();
            t.steps.len(if most == Some(least) { least } else { usize::MAX });
            match it.next() {
                Some(v) => C::touch(v, &mut t.steps),
                None => break,
            }
        }
        c.iter_views().for_each(|v| C::touch(v, &mut t.fold));
        let mut it = c.iter_views();
        while let Some(v) = it.nth(2) {
            C::touch(v, &mut t.skips);
        }
        t.last = c.iter_views().last().map(|v| quiet::one(|s| C::touch(v, s)));
        t.count = c.iter_views().count();
        t.past = [t.len, t.len.saturating_add(1), usize::MAX].iter().any(|i| c.view(*i).is_some() || c.owned(*i).is_some());
        c.touch_nulls(&mut t.nulls);
        if owned {
            let mut s = Sum::default();
            for i in 0..t.len {
                if let Some(v) = c.owned(i) {
                    v.touch(&mut s);
                }
            }
            t.owned = Some(s);
        }
        t
    })
}
pub fn into_touch<C: Node>(c: C) -> Sum {
    let mut s = Sum::default();
    let it = quiet::watch(|| c.into_iter_owned());
    quiet::watch(|| it.for_each(|v| v.touch(&mut s)));
    s
}

#[macro_export]
macro_rules! read_impl {
    ($w:ident) => {
        impl<C: $crate::phys::Node> $crate::coll::Read for $w<C> {
            fn len(&self) -> usize {
                self.0.len()
            }
            fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
            fn view(&self, i: usize) -> Option<$crate::val::Val> {
                self.0.view(i).map(|v| C::view_val(v))
            }
            fn owned(&self, i: usize) -> Option<$crate::val::Val> {
                self.0.owned(i).map(|v| $crate::val::Dyn::to_val(&v))
            }
            fn probe(&self, i: usize, far: &[usize]) -> Result<Option<$crate::val::Val>, String> {
                self.0.view(i).map(|v| C::probe(v, far)).transpose()
            }
            fn iter(&self) -> Box<dyn $crate::coll::Steps + '_> {
                Box::new($crate::coll::Views::<_, C>(self.0.iter_views(), std::marker::PhantomData))
            }
            fn into_steps<'a>(self: Box<Self>) -> Box<dyn $crate::coll::Steps + 'a>
            where
                Self: 'a,
            {
                Box::new($crate::coll::Owns(self.0.into_iter_owned()))
            }
            fn inner(&self, i: usize, f: $crate::coll::Inner<'_>) -> Result<(), String> {
                match self.0.view(i) {
                    Some(v) => C::iters(v, f),
                    None => Ok(()),
                }
            }
            fn touch(&self) -> $crate::quiet::Touch {
                $crate::coll::touch(&self.0)
            }
            fn into_touch(self: Box<Self>) -> $crate::quiet::Sum {
                $crate::coll::into_touch(self.0)
            }
            fn dump(&self) -> $crate::phys::Phys {
                self.0.dump()
            }
            fn addrs(&self) -> Vec<(usize, usize)> {
                let mut v = Vec::new();
                self.0.addrs(&mut v);
                v
            }
            fn nulls(&self) -> Vec<$crate::phys::NullInfo> {
                let mut v = Vec::new();
                self.0.nulls(&mut v);
                v
            }
        }
    };
}
read_impl!(R);
read_impl!(W);

fn from<T: Dyn>(v: Val) -> T {
    refuse::paused(|| T::from_val(&v))
}
fn vec<T: Dyn>(f: Feed) -> Vec<T> {
    f.into_items().iter().map(T::from_val).collect()
}

fn try_collect<C: Build + CollectionAlloc>(f: Feed) -> Result<C, AllocError> {
    let a = Default::default();
    if f.is_vec() {
        let v = vec::<C::Owned>(f);
        refuse::armed(|| C::try_from_iter_in(v, a))
    } else {
        let f = f.map(from::<C::Owned>);
        refuse::armed(|| C::try_from_iter_in(f, a))
    }
}

impl<C: Build + CollectionAlloc + CollectionRealloc + 'static> Grow for W<C> {
    fn extend(&mut self, f: Feed) {
        if f.is_vec() {
            self.0.extend(vec::<C::Owned>(f));
        } else {
            self.0.extend(f.map(from::<C::Owned>));
        }
    }
    fn try_extend(&mut self, f: Feed) -> Result<(), AllocError> {
        if f.is_vec() {
            let v = vec::<C::Owned>(f);
            refuse::armed(|| self.0.try_extend(v))
        } else {
            let f = f.map(from::<C::Owned>);
            refuse::armed(|| self.0.try_extend(f))
        }
    }
    fn reserve(&mut self, n: usize) {
        self.0.reserve(n);
    }
    fn try_reserve(&mut self, n: usize) -> Result<(), AllocError> {
        refuse::armed(|| self.0.try_reserve(n))
    }
    fn truncate(&mut self, n: usize) {
        quiet::watch(|| self.0.truncate(n));
    }
    fn try_clone(&self) -> Option<Box<dyn Grow>> {
        self.1.map(|c| Box::new(W(c(&self.0), self.1)) as Box<dyn Grow>)
    }
    fn reports(&self) -> Option<usize> {
        let a = self.0.allocator();
        (&a as &dyn std::any::Any).downcast_ref::<crate::budget::BAlloc>().map(crate::budget::BAlloc::id)
    }
    fn rebuild(self: Box<Self>) -> Result<Box<dyn Grow>, String> {
        Ok(Box::new(W(self.0.rebuild()?, self.1)))
    }
    fn any(self: Box<Self>) -> Box<dyn std::any::Any> {
        Box::new(self.0)
    }
}

/// Makers of growable collections of one type.
pub trait Maker: Sync {
    fn name(&self) -> &'static str;
    fn ty(&self) -> Ty;
    fn clones(&self) -> bool;
    fn collect(&self, f: Feed) -> Box<dyn Grow>;
    fn collect_in(&self, f: Feed) -> Box<dyn Grow>;
    fn try_collect_in(&self, f: Feed) -> Result<Box<dyn Grow>, AllocError>;
    fn default(&self) -> Box<dyn Grow>;
    fn with_capacity(&self, n: usize) -> Box<dyn Grow>;
    fn with_capacity_in(&self, n: usize) -> Box<dyn Grow>;
    fn try_with_capacity_in(&self, n: usize) -> Result<Box<dyn Grow>, AllocError>;
    fn from_phys(&self, p: &Phys) -> Result<Box<dyn Grow>, String>;
}

pub struct Make<C> {
    pub name: &'static str,
    pub clone: Option<fn(&C) -> C>,
}

impl<C: Build + CollectionAlloc + CollectionRealloc + 'static> Make<C> {
    fn w(&self, c: C) -> Box<dyn Grow> {
        Box::new(W(c, self.clone))
    }
}

impl<C: Build + CollectionAlloc + CollectionRealloc + 'static> Maker for Make<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn ty(&self) -> Ty {
        C::ty()
    }
    fn clones(&self) -> bool {
        self.clone.is_some()
    }
    fn collect(&self, f: Feed) -> Box<dyn Grow> {
        self.w(if f.is_vec() {
            vec::<C::Owned>(f).into_iter().collect()
        } else {
            f.map(from::<C::Owned>).collect()
        })
    }
    fn collect_in(&self, f: Feed) -> Box<dyn Grow> {
        self.w(if f.is_vec() {
            C::from_iter_in(vec::<C::Owned>(f), Default::default())
        } else {
            C::from_iter_in(f.map(from::<C::Owned>), Default::default())
        })
    }
    fn try_collect_in(&self, f: Feed) -> Result<Box<dyn Grow>, AllocError> {
        try_collect(f).map(|c| self.w(c))
    }
    fn default(&self) -> Box<dyn Grow> {
        self.w(C::default())
    }
    fn with_capacity(&self, n: usize) -> Box<dyn Grow> {
        self.w(<C as CollectionAlloc>::with_capacity(n))
    }
    fn with_capacity_in(&self, n: usize) -> Box<dyn Grow> {
        self.w(<C as CollectionAllocIn>::with_capacity_in(n, Default::default()))
    }
    fn try_with_capacity_in(&self, n: usize) -> Result<Box<dyn Grow>, AllocError> {
        let a = Default::default();
        refuse::armed(|| C::try_with_capacity_in(n, a)).map(|c| self.w(c))
    }
    fn from_phys(&self, p: &Phys) -> Result<Box<dyn Grow>, String> {
        C::build(p).map(|c| self.w(c))
    }
}

/// Makers of collections that cannot grow afterwards.
pub trait Fixed: Sync {
    fn name(&self) -> &'static str;
    fn ty(&self) -> Ty;
    fn collect(&self, f: Feed) -> Box<dyn Read>;
    fn collect_in(&self, f: Feed) -> Box<dyn Read>;
    fn try_collect_in(&self, f: Feed) -> Result<Box<dyn Read>, AllocError>;
    fn default(&self) -> Box<dyn Read>;
    fn with_capacity(&self, n: usize) -> Box<dyn Read>;
    fn with_capacity_in(&self, n: usize) -> Box<dyn Read>;
    fn try_with_capacity_in(&self, n: usize) -> Result<Box<dyn Read>, AllocError>;
}

impl<C: Build + CollectionAlloc + 'static> Fixed for Make<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn ty(&self) -> Ty {
        C::ty()
    }
    fn collect(&self, f: Feed) -> Box<dyn Read> {
        Box::new(R(if f.is_vec() {
            vec::<C::Owned>(f).into_iter().collect::<C>()
        } else {
            f.map(from::<C::Owned>).collect()
        }))
    }
    fn collect_in(&self, f: Feed) -> Box<dyn Read> {
        Box::new(R(if f.is_vec() {
            C::from_iter_in(vec::<C::Owned>(f), Default::default())
        } else {
            C::from_iter_in(f.map(from::<C::Owned>), Default::default())
        }))
    }
    fn try_collect_in(&self, f: Feed) -> Result<Box<dyn Read>, AllocError> {
        try_collect::<C>(f).map(|c| Box::new(R(c)) as Box<dyn Read>)
    }
    fn default(&self) -> Box<dyn Read> {
        Box::new(R(C::default()))
    }
    fn with_capacity(&self, n: usize) -> Box<dyn Read> {
        Box::new(R(<C as CollectionAlloc>::with_capacity(n)))
    }
    fn with_capacity_in(&self, n: usize) -> Box<dyn Read> {
        Box::new(R(<C as CollectionAllocIn>::with_capacity_in(n, Default::default())))
    }
    fn try_with_capacity_in(&self, n: usize) -> Result<Box<dyn Read>, AllocError> {
        let a = Default::default();
        refuse::armed(|| C::try_with_capacity_in(n, a)).map(|c| Box::new(R(c)) as Box<dyn Read>)
    }
}

/// Picks a type's `Clone`, if there is one, where the type is concrete.
pub struct Cl<C>(PhantomData<C>);
impl<C> Cl<C> {
    pub const fn new() -> Self {
        Cl(PhantomData)
    }
}
impl<C: Clone> Cl<C> {
    pub const fn f(&self) -> Option<fn(&C) -> C> {
        Some(C::clone)
    }
}
pub trait NoClone {
    type T;
    fn f(&self) -> Option<fn(&Self::T) -> Self::T>;
}
impl<C> NoClone for &Cl<C> {
    type T = C;
    fn f(&self) -> Option<fn(&C) -> C> {
        None
    }
}

/// Makers of readable collections in other storages.
pub trait Store: Sync {
    fn name(&self) -> &'static str;
    fn ty(&self) -> Ty;
    fn from_phys(&self, p: &Phys) -> Result<Box<dyn Read>, String>;
    /// Built, taken apart and put together again.
    fn rebuilt(&self, p: &Phys) -> Result<(Vec<(usize, usize)>, Box<dyn Read>), String>;
    /// Built, then a clone that shares or copies the storage.
    fn cloned(&self, p: &Phys) -> Result<Option<(Box<dyn Read>, Box<dyn Read>)>, String>;
}

impl<C: Build + 'static> Store for Make<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn ty(&self) -> Ty {
        C::ty()
    }
    fn from_phys(&self, p: &Phys) -> Result<Box<dyn Read>, String> {
        Ok(Box::new(R(C::build(p)?)))
    }
    fn rebuilt(&self, p: &Phys) -> Result<(Vec<(usize, usize)>, Box<dyn Read>), String> {
        let c = C::build(p)?;
        let mut before = Vec::new();
        c.addrs(&mut before);
        let c = quiet::watch(|| c.rebuild())?;
        Ok((before, Box::new(R(c))))
    }
    fn cloned(&self, p: &Phys) -> Result<Option<(Box<dyn Read>, Box<dyn Read>)>, String> {
        let Some(clone) = self.clone else { return Ok(None) };
        let c = C::build(p)?;
        let d = quiet::watch(|| clone(&c));
        Ok(Some((Box::new(R(c)), Box::new(R(d)))))
    }
}

/// A type's name without white space and without its usual storage.
pub fn tidy(s: &str) -> &'static str {
    let t: String = s.chars().filter(|c| !c.is_whitespace()).collect();
    t.replace(",VecBuffer>", ">").leak()
}

//! Dynamically typed items: the reference model's view of what is stored.

use crate::engine::Src;
use crate::quiet::Sum;
use narrow::fixed_size::{FixedSize, FixedSizeArray};

/// An item, independent of how the library stores it.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Val {
    /// Null.
    N,
    B(bool),
    /// A primitive's bits.
    P(u128),
    /// List, array or fixed-size wrapper.
    L(Vec<Val>),
}

impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::N => write!(f, "null"),
            Val::B(b) => write!(f, "{}", if *b { "T" } else { "F" }),
            Val::P(p) if *p < 1 << 16 => write!(f, "{p}"),
            Val::P(p) => write!(f, "{p:#x}"),
            Val::L(l) => f.debug_list().entries(l).finish(),
        }
    }
}

/// An item type.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ty {
    Bool,
    /// Primitive of this many bytes.
    Prim(usize),
    /// `n` primitives of `w` bytes stored as one fixed-size value.
    Fsa(usize, usize),
    Arr(usize, Box<Ty>),
    /// Variable-size list; true for 64-bit offsets.
    List(bool, Box<Ty>),
    Opt(Box<Ty>),
    /// Items kept as they are in a standard collection.
    Plain(Box<Ty>),
}

impl Ty {
    pub fn has_null(&self) -> bool {
        match self {
            Ty::Opt(_) => true,
            Ty::Arr(_, t) | Ty::List(_, t) => t.has_null(),
            _ => false,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ty::Opt(t) | Ty::Plain(t) => t.depth(),
            Ty::Arr(_, t) | Ty::List(_, t) => 1 + t.depth(),
            _ => 0,
        }
    }
    /// Leaves per item with lists counted as about two items.
    pub fn weight(&self) -> usize {
        match self {
            Ty::Opt(t) | Ty::Plain(t) => t.weight(),
            Ty::Arr(n, t) => (n * t.weight()).max(1),
            Ty::List(_, t) => 3 * t.weight(),
            _ => 1,
        }
    }
}

/// Conversion between model items and the library's owned items.
pub trait Dyn: Sized + Clone {
    fn from_val(v: &Val) -> Self;
    fn to_val(&self) -> Val;
    /// Adds the item up without requesting memory.
    fn touch(&self, s: &mut Sum);
}

/// Fixed-size values with their in-memory bytes.
pub trait Raw: FixedSize + Dyn + Default {
    fn ty() -> Ty;
    fn from_bytes(b: &[u8]) -> Self;
}

macro_rules! prim {
    ($($t:ty, $u:ty);*) => {$(
        impl Dyn for $t {
            fn from_val(v: &Val) -> Self {
                let Val::P(p) = v else { panic!("harness: {v:?} is not a primitive") };
                *p as $u as $t
            }
            fn to_val(&self) -> Val { Val::P(*self as $u as u128) }
            fn touch(&self, s: &mut Sum) { s.add(*self as $u as u128) }
        }
        impl Raw for $t {
            fn ty() -> Ty { Ty::Prim(size_of::<$t>()) }
            fn from_bytes(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().expect("harness: width")) }
        }
    )*}
}
prim!(u8,u8; u16,u16; u32,u32; u64,u64; u128,u128; usize,usize;
      i8,u8; i16,u16; i32,u32; i64,u64; i128,u128; isize,usize);

macro_rules! float {
    ($($t:ty, $u:ty);*) => {$(
        impl Dyn for $t {
            fn from_val(v: &Val) -> Self {
                let Val::P(p) = v else { panic!("harness: {v:?} is not a primitive") };
                <$t>::from_bits(*p as $u)
            }
            fn to_val(&self) -> Val { Val::P(self.to_bits() as u128) }
            fn touch(&self, s: &mut Sum) { s.add(self.to_bits() as u128) }
        }
        impl Raw for $t {
            fn ty() -> Ty { Ty::Prim(size_of::<$t>()) }
            fn from_bytes(b: &[u8]) -> Self { <$t>::from_ne_bytes(b.try_into().expect("harness: width")) }
        }
    )*}
}
float!(f32,u32; f64,u64);

impl<T: Raw, const N: usize> Dyn for FixedSizeArray<T, N> {
    fn from_val(v: &Val) -> Self {
        <[T; N]>::from_val(v).into()
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(Dyn::to_val).collect())
    }
    fn touch(&self, s: &mut Sum) {
        self.iter().for_each(|x| x.touch(s));
    }
}
impl<T: Raw, const N: usize> Raw for FixedSizeArray<T, N>
where
    [T; N]: Default,
{
    fn ty() -> Ty {
        Ty::Fsa(N, size_of::<T>())
    }
    fn from_bytes(b: &[u8]) -> Self {
        let w = size_of::<T>();
        std::array::from_fn::<T, N, _>(|i| T::from_bytes(&b[i * w..(i + 1) * w])).into()
    }
}

impl Dyn for bool {
    fn from_val(v: &Val) -> Self {
        let Val::B(b) = v else { panic!("harness: {v:?} is not a bool") };
        *b
    }
    fn to_val(&self) -> Val {
        Val::B(*self)
    }
    fn touch(&self, s: &mut Sum) {
        s.add(u128::from(*self));
    }
}
impl<T: Dyn, const N: usize> Dyn for [T; N] {
    fn from_val(v: &Val) -> Self {
        let Val::L(l) = v else { panic!("harness: {v:?} is not a list") };
        assert_eq!(l.len(), N, "harness: width");
        std::array::from_fn(|i| T::from_val(&l[i]))
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(Dyn::to_val).collect())
    }
    fn touch(&self, s: &mut Sum) {
        self.iter().for_each(|x| x.touch(s));
    }
}
impl<T: Dyn> Dyn for Vec<T> {
    fn from_val(v: &Val) -> Self {
        let Val::L(l) = v else { panic!("harness: {v:?} is not a list") };
        l.iter().map(T::from_val).collect()
    }
    fn to_val(&self) -> Val {
        Val::L(self.iter().map(Dyn::to_val).collect())
    }
    fn touch(&self, s: &mut Sum) {
        s.len(self.len());
        self.iter().for_each(|x| x.touch(s));
    }
}
impl<T: Dyn> Dyn for Option<T> {
    fn from_val(v: &Val) -> Self {
        match v {
            Val::N => None,
            v => Some(T::from_val(v)),
        }
    }
    fn to_val(&self) -> Val {
        self.as_ref().map_or(Val::N, Dyn::to_val)
    }
    fn touch(&self, s: &mut Sum) {
        s.null(self.is_none());
        if let Some(x) = self {
            x.touch(s);
        }
    }
}

pub fn from_vals<T: Dyn>(v: &[Val]) -> Vec<T> {
    v.iter().map(T::from_val).collect()
}

/// A length, favouring byte, word and chunk boundaries. `cap` bounds it.
pub fn gen_len(src: &mut Src, cap: usize) -> usize {
    // Rarely, beyond what two bytes count, for types without nesting.
    if cap >= 3000 && src.chance(1, 1200) {
        return match src.usize(3) {
            0 => src.range(65_530, 65_560),
            1 => src.range(32_760, 32_780),
            _ => src.range(8_180, 8_210),
        };
    }
    let n = match src.weighted(&[5, 6, 38, 16, 14, 7, 8, 3, 2]) {
        0 => 0,
        1 => 1,
        2 => src.range(2, 9),
        3 => src.range(7, 17),
        4 => src.range(18, 70),
        5 => *src.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]),
        6 => src.range(1016, 1032),
        7 => src.range(2040, 2056),
        _ => src.range(1033, 4200),
    };
    n.min(cap)
}

/// Generation settings shared by one sequence.
#[derive(Clone, Copy, Debug)]
pub struct Dens {
    /// Nulls per eight items.
    pub null: u64,
    /// Inner list length scale.
    pub inner: usize,
}

pub fn gen_dens(src: &mut Src) -> Dens {
    let null = *src.pick(&[2, 0, 4, 7, 8, 1]);
    let inner = *src.pick(&[3, 1, 6, 12]);
    Dens { null, inner }
}

fn mask(w: usize) -> u128 {
    if w == 16 { u128::MAX } else { (1 << (8 * w)) - 1 }
}

pub fn gen_prim(src: &mut Src, w: usize) -> u128 {
    match src.weighted(&[3, 6, 2, 2, 4]) {
        0 => 0,
        1 => u128::from(src.below(256)),
        2 => mask(w),
        3 => *src.pick(&[1u128, 0x80, 0x7f, 1 << 15, 1 << 31, 1 << 63, 1 << 127, 0x7fc0_0001, 0x7ff8_0000_0000_0001]) & mask(w),
        _ => (u128::from(src.word()) | (u128::from(src.word()) << 64)) & mask(w),
    }
}

pub fn gen_val(src: &mut Src, ty: &Ty, d: Dens) -> Val {
    match ty {
        Ty::Bool => Val::B(src.bool()),
        Ty::Prim(w) => Val::P(gen_prim(src, *w)),
        Ty::Fsa(n, w) => Val::L((0..*n).map(|_| Val::P(gen_prim(src, *w))).collect()),
        Ty::Arr(n, t) => Val::L((0..*n).map(|_| gen_val(src, t, d)).collect()),
        Ty::List(_, t) => {
            let n = match src.weighted(&[3, 8, 2]) {
                0 => 0,
                1 => src.range(1, d.inner.max(1)),
                _ => src.range(0, 2 * d.inner),
            };
            let inner = Dens { inner: d.inner.div_ceil(2), ..d };
            Val::L((0..n).map(|_| gen_val(src, t, inner)).collect())
        }
        Ty::Opt(t) => {
            if src.chance(d.null, 8) {
                Val::N
            } else {
                gen_val(src, t, d)
            }
        }
        Ty::Plain(t) => gen_val(src, t, d),
    }
}

/// A sequence of `n` items; long ones expand from a single recorded word.
pub fn gen_vals(src: &mut Src, ty: &Ty, n: usize, d: Dens) -> Vec<Val> {
    if n * ty.weight() > 40 {
        let mut f = src.fork();
        let d = if n > 200 { Dens { inner: d.inner.min(2), ..d } } else { d };
        let mut v: Vec<Val> = Vec::with_capacity(n);
        if f.chance(1, 5) {
            // Runs of equal items, so that whole words of bits are alike.
            while v.len() < n {
                let k = f.range(1, 150).min(n - v.len());
                let x = gen_val(&mut f, ty, d);
                v.extend(std::iter::repeat_n(x, k));
            }
        } else {
            v.extend((0..n).map(|_| gen_val(&mut f, ty, d)));
        }
        // Sometimes one very long inner list.
        if let Some(first) = f.usize(8).checked_sub(7).and_then(|_| {
            let n = v.len();
            v.get_mut(f.usize(n.max(1)))
        }) {
            stretch(&mut f, ty, first);
        }
        v
    } else {
        (0..n).map(|_| gen_val(src, ty, d)).collect()
    }
}

fn stretch(src: &mut Src, ty: &Ty, v: &mut Val) {
    match (ty, v) {
        (Ty::List(_, t), Val::L(l)) => {
            let n = match src.weighted(&[20, 10, 1]) {
                0 => src.range(100, 1100),
                1 => *src.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025]),
                _ if t.weight() == 1 => *src.pick(&[65_535, 65_536, 65_537, 32_768]),
                _ => src.range(1100, 4200),
            } / t.weight();
            let d = Dens { null: 3, inner: 1 };
            *l = (0..n).map(|_| gen_val(src, t, d)).collect();
        }
        (Ty::Opt(t), v @ (Val::L(_) | Val::B(_) | Val::P(_))) => stretch(src, t, v),
        (Ty::Plain(t), v) => stretch(src, t, v),
        (Ty::Arr(_, t), Val::L(l)) => {
            if let Some(v) = l.last_mut() {
                stretch(src, t, v);
            }
        }
        _ => {}
    }
}

/// A sequence of items of a generated length.
pub fn gen_items(src: &mut Src, ty: &Ty) -> Vec<Val> {
    gen_items_cap(src, ty, 4200)
}
pub fn gen_items_cap(src: &mut Src, ty: &Ty, cap: usize) -> Vec<Val> {
    let cap = cap.min(24_000 / ty.weight().max(1)).max(3);
    let n = gen_len(src, cap);
    let d = gen_dens(src);
    gen_vals(src, ty, n, d)
}

/// Whether the items exercise something: more than one item and, if the type
/// allows, both null and non-null or empty and non-empty parts.
pub fn interesting(ty: &Ty, items: &[Val]) -> bool {
    fn seen(v: &Val, null: &mut bool, val: &mut bool) {
        match v {
            Val::N => *null = true,
            Val::L(l) => {
                *val = true;
                l.iter().for_each(|v| seen(v, null, val));
            }
            _ => *val = true,
        }
    }
    let (mut null, mut val) = (false, false);
    items.iter().for_each(|v| seen(v, &mut null, &mut val));
    items.len() >= 2 && val && (null || !ty.has_null())
}

//! Dynamically typed physical memory, an independent decoder of the Arrow
//! columnar format, and the bridge to the library's statically typed layouts.

use std::{borrow::Borrow, rc::Rc, sync::Arc};

use narrow::{
    array::Array,
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, Buffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer},
    collection::{ChildRef, Collection, owned::IntoOwned, flatten::{Flatten, FlattenView}},
    fixed_size::FixedSize,
    layout::{
        ArrayItem, boolean::Boolean, fixed_size_list::FixedSizeList,
        fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList,
    },
    length::Length,
    nullability::Nullability,
    offset::{Offset, OffsetView, Offsets},
    validity::Validity,
};

use crate::quiet::Sum;
use crate::{
    engine::Src,
    val::{Dens, Dyn, Raw, Ty, Val, gen_val},
};

/// Physical memory of an array.
#[derive(Clone, PartialEq, Eq)]
pub enum Phys {
    Prim { bytes: Vec<u8> },
    Bits(Bm),
    Flat { n: usize, child: Box<Phys> },
    Offs { offsets: Vec<i64>, child: Box<Phys> },
    Valid { bitmap: Option<Bm>, child: Box<Phys> },
    /// Not columnar: the items of a standard collection.
    Items(Vec<Val>),
}

/// A window of bits.
#[derive(Clone, PartialEq, Eq)]
pub struct Bm {
    pub bytes: Vec<u8>,
    pub bits: usize,
    pub offset: usize,
}

impl std::fmt::Debug for Bm {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "bits({}+{} of {:02x?})", self.offset, self.bits, self.bytes)
    }
}
impl std::fmt::Debug for Phys {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Phys::Prim { bytes } => write!(f, "prim({bytes:02x?})"),
            Phys::Items(v) => write!(f, "items({v:?})"),
            Phys::Bits(b) => write!(f, "{b:?}"),
            Phys::Flat { n, child } => write!(f, "by{n}({child:?})"),
            Phys::Offs { offsets, child } => write!(f, "list({offsets:?}, {child:?})"),
            Phys::Valid { bitmap: Some(b), child } => write!(f, "valid({b:?}, {child:?})"),
            Phys::Valid { bitmap: None, child } => write!(f, "valid(omitted, {child:?})"),
        }
    }
}

impl Bm {
    pub fn get(&self, i: usize) -> bool {
        let at = self.offset + i;
        self.bytes[at / 8] >> (at % 8) & 1 == 1
    }
    pub fn check(&self) -> Result<(), String> {
        if self.offset.checked_add(self.bits).is_none_or(|end| end > 8 * self.bytes.len()) {
            return Err(format!("bit window {self:?} exceeds its bytes"));
        }
        Ok(())
    }
    pub fn to_bools(&self) -> Vec<bool> {
        (0..self.bits).map(|i| self.get(i)).collect()
    }
}

/// Decodes memory by the format's rules alone; an error names the rule broken.
pub fn decode(ty: &Ty, p: &Phys) -> Result<Vec<Val>, String> {
    match (ty, p) {
        (Ty::Bool, Phys::Bits(b)) => {
            b.check()?;
            Ok((0..b.bits).map(|i| Val::B(b.get(i))).collect())
        }
        (Ty::Prim(w), Phys::Prim { bytes }) => {
            if bytes.len() % w != 0 {
                return Err(format!("{} bytes of {w}-byte values", bytes.len()));
            }
            Ok(bytes.chunks_exact(*w).map(prim).collect())
        }
        (Ty::Fsa(n, w), Phys::Prim { bytes }) => {
            if bytes.len() % (n * w) != 0 {
                return Err(format!("{} bytes of {n}x{w}-byte values", bytes.len()));
            }
            Ok(bytes
                .chunks_exact(n * w)
                .map(|c| Val::L(c.chunks_exact(*w).map(prim).collect()))
                .collect())
        }
        (Ty::Arr(n, t), Phys::Flat { n: m, child }) => {
            if n != m {
                return Err(format!("width {m} instead of {n}"));
            }
            let c = decode(t, child)?;
            if *n == 0 || c.len() % n != 0 {
                return Err(format!("{} child items are no multiple of width {n}", c.len()));
            }
            let mut out = Vec::with_capacity(c.len() / n);
            let mut it = c.into_iter();
            while let Some(first) = it.next() {
                let mut l = Vec::with_capacity(*n);
                l.push(first);
                l.extend(it.by_ref().take(n - 1));
                out.push(Val::L(l));
            }
            Ok(out)
        }
        (Ty::List(_, t), Phys::Offs { offsets, child }) => {
            if offsets.first() != Some(&0) {
                return Err(format!("offsets {offsets:?} do not start at zero"));
            }
            let c = decode(t, child)?;
            let mut out = Vec::with_capacity(offsets.len() - 1);
            for w in offsets.windows(2) {
                if w[1] < w[0] {
                    return Err(format!("offsets decrease from {} to {}", w[0], w[1]));
                }
                let (s, e) = (w[0] as usize, w[1] as usize);
                if e > c.len() {
                    return Err(format!("offset {e} exceeds the {} child items", c.len()));
                }
                out.push(Val::L(c[s..e].to_vec()));
            }
            Ok(out)
        }
        (Ty::Opt(t), Phys::Valid { bitmap, child }) => {
            let mut c = decode(t, child)?;
            if let Some(b) = bitmap {
                b.check()?;
                if b.bits != c.len() {
                    return Err(format!("{} validity bits for {} slots", b.bits, c.len()));
                }
                for (i, v) in c.iter_mut().enumerate() {
                    if !b.get(i) {
                        *v = Val::N;
                    }
                }
            }
            Ok(c)
        }
        (Ty::Plain(_), Phys::Items(v)) => Ok(v.clone()),
        _ => Err(format!("memory {p:?} does not have the shape of {ty:?}")),
    }
}

fn prim(c: &[u8]) -> Val {
    let mut b = [0u8; 16];
    b[..c.len()].copy_from_slice(c);
    Val::P(u128::from_le_bytes(b))
}

/// Checks that freshly collected memory wastes nothing.
pub fn minimal(ty: &Ty, p: &Phys) -> Result<(), String> {
    fn bm(b: &Bm) -> Result<(), String> {
        if b.offset != 0 || b.bytes.len() != b.bits.div_ceil(8) {
            return Err(format!("fresh bits {b:?} are not minimal"));
        }
        Ok(())
    }
    fn slots(ty: &Ty, p: &Phys) -> Result<usize, String> {
        decode(ty, p).map(|v| v.len())
    }
    match (ty, p) {
        (_, Phys::Bits(b)) => bm(b),
        (Ty::Arr(_, t), Phys::Flat { child, .. }) => minimal(t, child),
        (Ty::List(_, t), Phys::Offs { offsets, child }) => {
            let n = slots(t, child)?;
            if offsets.last().copied() != i64::try_from(n).ok() {
                return Err(format!("fresh child has {n} items but lists end at {:?}", offsets.last()));
            }
            minimal(t, child)
        }
        (Ty::Opt(t), Phys::Valid { bitmap, child }) => {
            if let Some(b) = bitmap {
                bm(b)?;
                if let Phys::Offs { offsets, .. } = &**child {
                    for (i, w) in offsets.windows(2).enumerate() {
                        if !b.get(i) && w[0] != w[1] {
                            return Err(format!("fresh null list {i} occupies child items"));
                        }
                    }
                }
            }
            minimal(t, child)
        }
        _ => Ok(()),
    }
}

/// Options for generated memory.
#[derive(Clone, Copy)]
pub struct RawOpts {
    /// Bit offsets, leftovers and tails allowed.
    pub offsets: bool,
    pub omit: bool,
}

fn gen_bm(src: &mut Src, bits: usize, o: RawOpts, density: u64) -> Bm {
    let offset = if o.offsets {
        match src.weighted(&[20, 1, 1]) {
            0 => *src.pick(&[0, 1, 3, 7, 8, 9, 15, 16, 21]),
            1 => *src.pick(&[31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513]),
            _ => src.range(0, 2100),
        }
    } else {
        0
    };
    let extra = if o.offsets { *src.pick(&[0, 0, 0, 0, 1, 1, 2, 2, 5, 5, 8, 70]) } else { 0 };
    let n = (offset + bits).div_ceil(8) + extra;
    let fill = src.weighted(&[1, 1, 2]);
    let mut f = src.fork();
    let mut bytes: Vec<u8> = (0..n)
        .map(|_| match fill {
            0 => 0xff,
            1 => 0,
            _ => f.below(256) as u8,
        })
        .collect();
    // At times in runs, so that whole words are alike.
    let runs = bits > 16 && src.chance(1, 5);
    let (mut left, mut run) = (0, false);
    for i in 0..bits {
        let at = offset + i;
        let set = if runs {
            if left == 0 {
                left = f.range(1, 150);
                run = f.below(8) >= density.clamp(1, 7);
            }
            left -= 1;
            run
        } else {
            f.below(8) >= density
        };
        bytes[at / 8] = (bytes[at / 8] & !(1 << (at % 8))) | (u8::from(set) << (at % 8));
    }
    Bm { bytes, bits, offset }
}

/// The length of a long list of elements of this weight.
fn gen_long(src: &mut Src, weight: usize) -> usize {
    let n = match src.weighted(&[8, 4, 2]) {
        0 => *src.pick(&[63, 64, 65, 127, 128, 129, 255, 256, 257]),
        1 => src.range(20, 300),
        _ if weight == 1 && src.chance(1, 30) => src.range(65_530, 65_560),
        _ => src.range(1000, 1100),
    };
    n / weight
}

/// Random valid memory for `len` items, with everything the format leaves
/// unspecified (padding, values under nulls, unreferenced tails) arbitrary.
pub fn gen_phys(src: &mut Src, ty: &Ty, len: usize, d: Dens, o: RawOpts) -> Phys {
    match ty {
        Ty::Bool => Phys::Bits(gen_bm(src, len, o, 4)),
        Ty::Prim(_) | Ty::Fsa(..) => {
            let mut f = src.fork();
            let mut bytes = Vec::new();
            let mut put = |v: &Val, w: usize| {
                let Val::P(p) = v else { unreachable!() };
                bytes.extend_from_slice(&p.to_le_bytes()[..w]);
            };
            for _ in 0..len {
                match (ty, gen_val(&mut f, ty, d)) {
                    (Ty::Prim(w), v) => put(&v, *w),
                    (Ty::Fsa(_, w), Val::L(l)) => l.iter().for_each(|v| put(v, *w)),
                    _ => unreachable!(),
                }
            }
            Phys::Prim { bytes }
        }
        Ty::Arr(n, t) => Phys::Flat { n: *n, child: Box::new(gen_phys(src, t, len * n, d, o)) },
        Ty::List(_, t) => {
            let inner = Dens { inner: d.inner.div_ceil(2), ..d };
            let mut f = src.fork();
            let cap = if len * ty.weight() > 200 { 2 } else { d.inner };
            let mut offsets = vec![0i64];
            let mut at = 0i64;
            // At times one list is long.
            let long = (len > 0 && f.chance(1, 10)).then(|| (f.usize(len), gen_long(&mut f, t.weight())));
            for i in 0..len {
                if f.below(4) != 0 {
                    at += f.below(cap as u64 + 1) as i64;
                }
                if let Some((_, n)) = long.filter(|l| l.0 == i) {
                    at += n as i64;
                }
                offsets.push(at);
            }
            let tail = if o.offsets { *src.pick(&[0, 0, 0, 0, 1, 1, 3, 3, 9, 9, 70]) } else { 0 };
            Phys::Offs { offsets, child: Box::new(gen_phys(src, t, at as usize + tail, inner, o)) }
        }
        Ty::Opt(t) => {
            let omitted = o.omit && src.chance(1, 4);
            let bitmap = (!omitted).then(|| gen_bm(src, len, o, d.null));
            Phys::Valid { bitmap, child: Box::new(gen_phys(src, t, len, d, o)) }
        }
        Ty::Plain(t) => {
            let mut f = src.fork();
            Phys::Items((0..len).map(|_| gen_val(&mut f, t, d)).collect())
        }
    }
}

/// Random valid memory in which every buffer has exactly `n` elements, for
/// fixed-array storage. `len` items are wanted if the type leaves a choice.
pub fn gen_fixed(src: &mut Src, ty: &Ty, n: usize, d: Dens, len: Option<usize>) -> Phys {
    let o = RawOpts { offsets: false, omit: true };
    let bm = |src: &mut Src, bits: usize| {
        let spare = 8 * n - bits;
        let offset = src.range(0, spare.min(17));
        let mut f = src.fork();
        let mut bytes: Vec<u8> = (0..n).map(|_| f.below(256) as u8).collect();
        for i in 0..bits {
            let at = offset + i;
            let set = f.below(8) >= d.null.min(6);
            bytes[at / 8] = (bytes[at / 8] & !(1 << (at % 8))) | (u8::from(set) << (at % 8));
        }
        Bm { bytes, bits, offset }
    };
    match ty {
        Ty::Bool => {
            let bits = len.unwrap_or_else(|| src.range(0, 8 * n));
            Phys::Bits(bm(src, bits))
        }
        Ty::Prim(_) | Ty::Fsa(..) | Ty::Plain(_) => gen_phys(src, ty, n, d, o),
        Ty::Arr(k, t) => {
            let len = len.or_else(|| fixed_len(ty, n)).unwrap_or_else(|| src.range(0, max_len(ty, n)));
            Phys::Flat { n: *k, child: Box::new(gen_fixed(src, t, n, d, Some(len * k))) }
        }
        Ty::List(_, t) => {
            let child_len = fixed_len(t, n).unwrap_or_else(|| src.range(0, max_len(t, n)));
            let mut offsets: Vec<i64> = (1..n).map(|_| src.below(child_len as u64 + 1) as i64).collect();
            offsets.push(0);
            offsets.sort_unstable();
            Phys::Offs { offsets, child: Box::new(gen_fixed(src, t, n, d, Some(child_len))) }
        }
        Ty::Opt(t) => {
            let omitted = src.chance(1, 4);
            let bits = len.or_else(|| fixed_len(ty, n)).unwrap_or_else(|| src.range(0, max_len(t, n)));
            let bitmap = (!omitted).then(|| bm(src, bits));
            Phys::Valid { bitmap, child: Box::new(gen_fixed(src, t, n, d, Some(bits))) }
        }
    }
}
fn max_len(ty: &Ty, n: usize) -> usize {
    match ty {
        Ty::Bool => 8 * n,
        Ty::Prim(_) | Ty::Fsa(..) | Ty::Plain(_) => n,
        Ty::Arr(k, t) => max_len(t, n) / k,
        Ty::List(..) => n - 1,
        Ty::Opt(t) => max_len(t, n),
    }
}
/// The number of items `n` elements per buffer force, if they do.
fn fixed_len(ty: &Ty, n: usize) -> Option<usize> {
    match ty {
        Ty::Bool => None,
        Ty::Prim(_) | Ty::Fsa(..) | Ty::Plain(_) => Some(n),
        Ty::Arr(k, t) => fixed_len(t, n).map(|m| m / k),
        Ty::List(..) => Some(n - 1),
        Ty::Opt(t) => fixed_len(t, n),
    }
}

/// Structural form with validity omitted (at any subset of levels) turned
/// explicit, for comparing behaviour of both.
pub fn explicit(ty: &Ty, p: &Phys) -> Phys {
    match (ty, p) {
        (Ty::Opt(t), Phys::Valid { bitmap, child }) => {
            let child = explicit(t, child);
            let n = decode(t, &child).map_or(0, |v| v.len());
            let bitmap = bitmap.clone().unwrap_or_else(|| Bm {
                bytes: vec![0xff; n.div_ceil(8)],
                bits: n,
                offset: 0,
            });
            Phys::Valid { bitmap: Some(bitmap), child: Box::new(child) }
        }
        (Ty::Arr(n, t), Phys::Flat { child, .. }) => {
            Phys::Flat { n: *n, child: Box::new(explicit(t, child)) }
        }
        (Ty::List(_, t), Phys::Offs { offsets, child }) => {
            Phys::Offs { offsets: offsets.clone(), child: Box::new(explicit(t, child)) }
        }
        _ => p.clone(),
    }
}

/// Storages constructible from a vector.
pub trait StoreFrom: Buffer {
    fn store<T: FixedSize>(v: Vec<T>) -> Self::For<T>;
}
thread_local! {
    static STORED: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(Vec::new()) };
}
/// Runs `f` and returns the address and length of every buffer handed to the
/// library meanwhile.
pub fn stored<R>(f: impl FnOnce() -> R) -> (R, Vec<(usize, usize)>) {
    STORED.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, STORED.with(|l| std::mem::take(&mut *l.borrow_mut())))
}
fn note<T>(s: &[T]) {
    STORED.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 64 {
            crate::mem::unwatched(|| l.push((s.as_ptr() as usize, size_of_val(s))));
        }
    });
}

impl<const N: usize> StoreFrom for ArrayBuffer<N> {
    fn store<T: FixedSize>(v: Vec<T>) -> [T; N] {
        v.try_into().unwrap_or_else(|_| panic!("harness: memory does not fit a fixed array"))
    }
}
impl StoreFrom for VecBuffer {
    fn store<T: FixedSize>(v: Vec<T>) -> Vec<T> {
        note(&v);
        v
    }
}
impl StoreFrom for BoxBuffer {
    fn store<T: FixedSize>(v: Vec<T>) -> Box<[T]> {
        let b: Box<[T]> = v.into();
        note(&b);
        b
    }
}
impl StoreFrom for RcBuffer {
    fn store<T: FixedSize>(v: Vec<T>) -> Rc<[T]> {
        let b: Rc<[T]> = v.into();
        note(&b);
        b
    }
}
impl StoreFrom for ArcBuffer {
    fn store<T: FixedSize>(v: Vec<T>) -> Arc<[T]> {
        let b: Arc<[T]> = v.into();
        note(&b);
        b
    }
}
impl StoreFrom for crate::budget::BudgetBuffer {
    fn store<T: FixedSize>(v: Vec<T>) -> crate::budget::BCol<T> {
        crate::budget::BCol::adopt(v)
    }
}
impl StoreFrom for SliceBuffer<'static> {
    // Leaked on purpose: cases are small and worker processes short-lived.
    fn store<T: FixedSize>(v: Vec<T>) -> &'static [T] {
        let s = v.leak();
        note(s);
        s
    }
}

/// A collection whose views and memory the harness can read.
pub trait Node: Collection<Owned: Dyn> {
    fn ty() -> Ty;
    fn view_val<'a>(v: Self::View<'a>) -> Val
    where
        Self: 'a;
    /// Reads an item's view through every path the view offers, including
    /// positions past its end; an error names paths that disagree.
    fn probe<'a>(v: Self::View<'a>, far: &[usize]) -> Result<Val, String>
    where
        Self: 'a;
    /// Hands every iterator the view offers to `f`, with what it must yield.
    fn iters<'a>(_v: Self::View<'a>, _f: crate::coll::Inner<'_>) -> Result<(), String>
    where
        Self: 'a,
    {
        Ok(())
    }
    /// Adds the view up without requesting memory.
    fn touch<'a>(v: Self::View<'a>, s: &mut Sum)
    where
        Self: 'a;
    /// Adds up the null information at every nullable level.
    fn touch_nulls(&self, _s: &mut Sum) {}
    fn dump(&self) -> Phys;
    /// Addresses and byte lengths of every backing buffer, outermost first.
    fn addrs(&self, out: &mut Vec<(usize, usize)>);
    /// Validity answers at every nullable level: `(len, per item, null_count,
    /// valid_count, any_null, all_null, any_valid, all_valid)`.
    fn nulls(&self, out: &mut Vec<NullInfo>);
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NullInfo {
    pub len: usize,
    pub valid: Vec<Option<bool>>,
    pub null: Vec<Option<bool>>,
    pub null_count: usize,
    pub valid_count: usize,
    pub any_null: bool,
    pub all_null: bool,
    pub any_valid: bool,
    pub all_valid: bool,
    pub far: [Option<bool>; 3],
}

/// A collection that can be assembled from raw memory.
pub trait Build: Node + Sized {
    fn build(p: &Phys) -> Result<Self, String>;
    /// Takes the collection apart and puts it together again.
    fn rebuild(self) -> Result<Self, String>;
}

fn agree<T: Dyn>(v: Val, owned: &T, what: &str) -> Result<Val, String> {
    let o = owned.to_val();
    if o == v { Ok(v) } else { Err(format!("{what} reads {v:?} but its owned form is {o:?}")) }
}

pub fn slice_bytes<T: FixedSize>(s: &[T]) -> Vec<u8> {
    // SAFETY: all fixed-size types are plain integers, floats or arrays of
    // them, without padding.
    unsafe { std::slice::from_raw_parts(s.as_ptr().cast::<u8>(), size_of_val(s)) }.to_vec()
}

fn leaf_from<T: Raw>(p: &Phys) -> Result<Vec<T>, String> {
    match p {
        Phys::Prim { bytes } => Ok(bytes.chunks_exact(size_of::<T>()).map(T::from_bytes).collect()),
        _ => Err(format!("harness: {p:?} is not primitive memory")),
    }
}

macro_rules! leaf {
    ($([$($g:tt)*] $t:ty),* $(,)?) => {$(
        impl<$($g)*> Node for $t {
            fn ty() -> Ty { T::ty() }
            fn view_val<'v>(v: Self::View<'v>) -> Val where Self: 'v { <T as crate::val::Dyn>::to_val(&v) }
            fn touch<'v>(v: Self::View<'v>, s: &mut Sum) where Self: 'v { <T as crate::val::Dyn>::touch(&v, s) }
            fn probe<'v>(v: Self::View<'v>, _far: &[usize]) -> Result<Val, String> where Self: 'v {
                agree(v.to_val(), &IntoOwned::<T>::into_owned(v), "scalar view")
            }
            fn dump(&self) -> Phys {
                let s: &[T] = self.borrow();
                Phys::Prim { bytes: slice_bytes(s) }
            }
            fn addrs(&self, out: &mut Vec<(usize, usize)>) {
                let s: &[T] = self.borrow();
                out.push((s.as_ptr() as usize, size_of_val(s)));
            }
            fn nulls(&self, _out: &mut Vec<NullInfo>) {}
        }
    )*}
}
/// Fixed-size values whose borrowed form is the value itself.
pub trait Leaf: Raw + for<'a> narrow::collection::view::AsView<'a, View = Self> {}
impl<T: Raw + for<'a> narrow::collection::view::AsView<'a, View = T>> Leaf for T {}

leaf!([T: Leaf] Vec<T>, [T: Leaf] Box<[T]>, [T: Leaf] Rc<[T]>, [T: Leaf] Arc<[T]>,
      ['a, T: Leaf] &'a [T], [T: Leaf, const N: usize] [T; N], [T: Leaf] crate::budget::BCol<T>);

macro_rules! leaf_build {
    ($($t:ty, $b:ty);*) => {$(
        impl<T: Leaf> Build for $t {
            fn build(p: &Phys) -> Result<Self, String> { Ok(<$b as StoreFrom>::store(leaf_from::<T>(p)?)) }
            fn rebuild(self) -> Result<Self, String> { Ok(self) }
        }
    )*}
}
leaf_build!(Vec<T>, VecBuffer; Box<[T]>, BoxBuffer; Rc<[T]>, RcBuffer; Arc<[T]>, ArcBuffer; &'static [T], SliceBuffer<'static>;
            crate::budget::BCol<T>, crate::budget::BudgetBuffer);

impl<T: Leaf, const N: usize> Build for [T; N] {
    fn build(p: &Phys) -> Result<Self, String> {
        Ok(ArrayBuffer::<N>::store(leaf_from::<T>(p)?))
    }
    fn rebuild(self) -> Result<Self, String> {
        Ok(self)
    }
}

/// Items a standard collection holds as they are.
pub trait Plain: Dyn {
    fn ty() -> Ty;
}
impl Plain for bool {
    fn ty() -> Ty {
        Ty::Bool
    }
}
impl<const N: usize> Plain for [bool; N] {
    fn ty() -> Ty {
        Ty::Arr(N, Box::new(Ty::Bool))
    }
}
impl<const N: usize> Plain for [Option<i16>; N] {
    fn ty() -> Ty {
        Ty::Arr(N, Box::new(Ty::Opt(Box::new(Ty::Prim(2)))))
    }
}
impl Plain for Option<i16> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(Ty::Prim(2)))
    }
}
impl Plain for Option<Vec<u8>> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(<Vec<u8> as Plain>::ty()))
    }
}
impl Plain for Vec<u8> {
    fn ty() -> Ty {
        Ty::List(false, Box::new(Ty::Prim(1)))
    }
}
impl Plain for Vec<Vec<bool>> {
    fn ty() -> Ty {
        Ty::List(false, Box::new(Ty::List(false, Box::new(Ty::Bool))))
    }
}
fn plain_from<T: Plain>(p: &Phys) -> Result<Vec<T>, String> {
    match p {
        Phys::Items(v) => Ok(v.iter().map(T::from_val).collect()),
        _ => Err(format!("harness: {p:?} is not items")),
    }
}
fn list_val<T: Dyn>(l: &[T]) -> Val {
    Val::L(l.iter().map(Dyn::to_val).collect())
}
fn each<T: Dyn>(l: &[T], s: &mut Sum) {
    l.iter().for_each(|x| x.touch(s));
}
fn list<T: Dyn>(l: &[T], s: &mut Sum) {
    s.len(l.len());
    each(l, s);
}
macro_rules! plain {
    ($see:expr, $touch:expr, $e:ty; $([$($g:tt)*] $t:ty),*) => {$(
        impl<$($g)*> Node for $t {
            fn ty() -> Ty { Ty::Plain(Box::new(<$e as Plain>::ty())) }
            fn view_val<'v>(v: Self::View<'v>) -> Val where Self: 'v { $see(v) }
            fn touch<'v>(v: Self::View<'v>, s: &mut Sum) where Self: 'v { $touch(v, s) }
            fn probe<'v>(v: Self::View<'v>, _far: &[usize]) -> Result<Val, String> where Self: 'v {
                agree($see(v), &IntoOwned::<$e>::into_owned(v), "view of an item")
            }
            fn dump(&self) -> Phys {
                let s: &[$e] = self.borrow();
                Phys::Items(s.iter().map(Dyn::to_val).collect())
            }
            fn addrs(&self, out: &mut Vec<(usize, usize)>) {
                let s: &[$e] = self.borrow();
                out.push((s.as_ptr() as usize, size_of_val(s)));
            }
            fn nulls(&self, _out: &mut Vec<NullInfo>) {}
        }
    )*}
}
macro_rules! plain_build {
    ($e:ty; $($t:ty),*) => {
        $(impl Build for $t {
            fn build(p: &Phys) -> Result<Self, String> {
                let b: $t = plain_from::<$e>(p)?.into();
                note(&b);
                Ok(b)
            }
            fn rebuild(self) -> Result<Self, String> { Ok(self) }
        })*
        impl Build for &'static [$e] {
            fn build(p: &Phys) -> Result<Self, String> {
                let b: &'static [$e] = plain_from::<$e>(p)?.leak();
                note(b);
                Ok(b)
            }
            fn rebuild(self) -> Result<Self, String> { Ok(self) }
        }
        impl<const K: usize> Build for [$e; K] {
            fn build(p: &Phys) -> Result<Self, String> {
                plain_from::<$e>(p)?.try_into().map_err(|_| "harness: items do not fit a fixed array".into())
            }
            fn rebuild(self) -> Result<Self, String> { Ok(self) }
        }
    }
}
macro_rules! plains {
    ($($see:expr, $touch:expr, $e:ty;)*) => {$(
        plain!($see, $touch, $e; [] Vec<$e>, [] Box<[$e]>, [] Rc<[$e]>, [] Arc<[$e]>, ['a] &'a [$e], [const K: usize] [$e; K]);
        plain_build!($e; Vec<$e>, Box<[$e]>, Rc<[$e]>, Arc<[$e]>);
    )*}
}
plains! {
    Val::B, |v: bool, s| v.touch(s), bool;
    |v| list_val::<bool>(v), |v, s| each::<bool>(v, s), [bool; 3];
    |v| list_val::<Option<i16>>(v), |v, s| each::<Option<i16>>(v, s), [Option<i16>; 2];
    |v| list_val::<u8>(v), |v, s| list::<u8>(v, s), Vec<u8>;
    |v: Option<i16>| v.to_val(), |v: Option<i16>, s| v.touch(s), Option<i16>;
    |v: Option<&[u8]>| v.map_or(Val::N, list_val::<u8>), |v: Option<&[u8]>, s: &mut Sum| {
        s.null(v.is_none());
        if let Some(l) = v {
            list::<u8>(l, s);
        }
    }, Option<Vec<u8>>;
    |v| list_val::<Vec<bool>>(v), |v, s| list::<Vec<bool>>(v, s), Vec<Vec<bool>>;
}

pub fn dump_bm<S: Buffer>(b: &Bitmap<S>) -> Bm {
    let bytes: &[u8] = b.buffer_ref().borrow();
    Bm { bytes: bytes.to_vec(), bits: b.len(), offset: b.bit_offset() }
}
pub fn build_bm<S: StoreFrom>(b: &Bm) -> Result<Bitmap<S>, String> {
    Bitmap::try_from_parts(S::store(b.bytes.clone()), b.bits, b.offset)
        .map_err(|e| format!("valid bits {b:?} refused: {e:?}"))
}
pub fn rebuild_bm<S: Buffer>(b: Bitmap<S>) -> Result<Bitmap<S>, String> {
    let (buffer, bits, offset) = b.into_parts();
    Bitmap::try_from_parts(buffer, bits, offset).map_err(|e| format!("own parts refused: {e:?}"))
}

impl<S: Buffer> Node for Bitmap<S> {
    fn ty() -> Ty {
        Ty::Bool
    }
    fn view_val<'v>(v: bool) -> Val where Self: 'v {
        Val::B(v)
    }
    fn touch<'v>(v: bool, s: &mut Sum) where Self: 'v {
        v.touch(s);
    }
    fn probe<'v>(v: bool, _far: &[usize]) -> Result<Val, String> where Self: 'v {
        agree(Val::B(v), &IntoOwned::<bool>::into_owned(v), "bit view")
    }
    fn dump(&self) -> Phys {
        Phys::Bits(dump_bm(self))
    }
    fn addrs(&self, out: &mut Vec<(usize, usize)>) {
        let s: &[u8] = self.buffer_ref().borrow();
        out.push((s.as_ptr() as usize, s.len()));
    }
    fn nulls(&self, _out: &mut Vec<NullInfo>) {}
}
impl<S: StoreFrom> Build for Bitmap<S> {
    fn build(p: &Phys) -> Result<Self, String> {
        match p {
            Phys::Bits(b) => build_bm(b),
            _ => Err("harness: not bits".into()),
        }
    }
    fn rebuild(self) -> Result<Self, String> {
        rebuild_bm(self)
    }
}

impl<C: Node, const N: usize> Node for Flatten<C, N> {
    fn ty() -> Ty {
        Ty::Arr(N, Box::new(C::ty()))
    }
    fn view_val<'v>(v: FlattenView<'v, C, N>) -> Val where Self: 'v {
        Val::L(v.iter().map(|x| C::view_val(*x)).collect())
    }
    fn touch<'v>(v: FlattenView<'v, C, N>, s: &mut Sum) where Self: 'v {
        v.iter().for_each(|x| C::touch(*x, s));
    }
    fn touch_nulls(&self, s: &mut Sum) {
        self.child_ref().touch_nulls(s);
    }
    fn probe<'v>(v: FlattenView<'v, C, N>, far: &[usize]) -> Result<Val, String> where Self: 'v {
        let mut l = Vec::with_capacity(N);
        for x in v.iter() {
            l.push(C::probe(*x, far)?);
        }
        agree(Val::L(l), &v.into_owned(), "fixed-size list view")
    }
    fn iters<'v>(v: FlattenView<'v, C, N>, f: crate::coll::Inner<'_>) -> Result<(), String> where Self: 'v {
        v.iter().take(2).try_for_each(|x| C::iters(*x, f))
    }
    fn dump(&self) -> Phys {
        Phys::Flat { n: N, child: Box::new(self.child_ref().dump()) }
    }
    fn addrs(&self, out: &mut Vec<(usize, usize)>) {
        self.child_ref().addrs(out);
    }
    fn nulls(&self, out: &mut Vec<NullInfo>) {
        self.child_ref().nulls(out);
    }
}
impl<C: Build, const N: usize> Build for Flatten<C, N> {
    fn build(p: &Phys) -> Result<Self, String> {
        match p {
            Phys::Flat { child, .. } => Flatten::try_from_parts(C::build(child)?)
                .map_err(|e| format!("valid width refused: {e:?}")),
            _ => Err("harness: not a fixed-size list".into()),
        }
    }
    fn rebuild(self) -> Result<Self, String> {
        Flatten::try_from_parts(self.into_parts().rebuild()?).map_err(|e| format!("own parts refused: {e:?}"))
    }
}

impl<C: Node, O: Offset, S: Buffer, U: FromIterator<C::Owned> + Dyn> Node for Offsets<C, O, S, U> {
    fn ty() -> Ty {
        Ty::List(size_of::<O>() == 8, Box::new(C::ty()))
    }
    fn view_val<'v>(v: OffsetView<'v, C, O, S, U>) -> Val where Self: 'v {
        Val::L((0..v.len()).map(|i| C::view_val(v.view(i).expect("element of a list view"))).collect())
    }
    fn touch<'v>(v: OffsetView<'v, C, O, S, U>, s: &mut Sum) where Self: 'v {
        s.len(v.len());
        // One by one or together, so that deep nesting stays affordable.
        if v.len() % 2 == 0 {
            v.iter_views().for_each(|x| C::touch(x, s));
        } else {
            (0..v.len()).filter_map(|i| v.view(i)).for_each(|x| C::touch(x, s));
        }
        if v.view(v.len()).is_some() {
            s.null(true);
        }
    }
    fn touch_nulls(&self, s: &mut Sum) {
        self.child_ref().touch_nulls(s);
    }
    fn probe<'v>(v: OffsetView<'v, C, O, S, U>, far: &[usize]) -> Result<Val, String> where Self: 'v {
        let n = v.len();
        if v.is_empty() != (n == 0) {
            return Err(format!("list view of length {n} says is_empty {}", v.is_empty()));
        }
        let mut l = Vec::with_capacity(n);
        for i in 0..n {
            let x = v.view(i).ok_or_else(|| format!("list view of length {n} has no item {i}"))?;
            l.push(C::probe(x, far)?);
            let o = v.owned(i).ok_or_else(|| format!("list view of length {n} owns no item {i}"))?.to_val();
            if o != l[i] {
                return Err(format!("item {i} of a list view: {:?} borrowed, {o:?} owned", l[i]));
            }
        }
        for i in [n, n.saturating_add(1)].iter().chain(far.iter().filter(|i| **i >= n)) {
            if v.view(*i).is_some() || v.owned(*i).is_some() {
                return Err(format!("list view of length {n} has an item {i}"));
            }
        }
        let it: Vec<Val> = v.iter_views().map(|x| C::view_val(x)).collect();
        if it != l {
            return Err(format!("list view iterates {it:?} but holds {l:?}"));
        }
        let own: Vec<Val> = v.into_iter_owned().map(|x| x.to_val()).collect();
        if own != l {
            return Err(format!("list view iterates owned {own:?} but holds {l:?}"));
        }
        agree(Val::L(l), &v.into_owned(), "list view")
    }
    fn iters<'v>(v: OffsetView<'v, C, O, S, U>, f: crate::coll::Inner<'_>) -> Result<(), String> where Self: 'v {
        let want: Vec<Val> = (0..v.len()).map(|i| C::view_val(v.view(i).expect("element of a list view"))).collect();
        f(Box::new(crate::coll::Views::<_, C>(v.iter_views(), std::marker::PhantomData)), &want)?;
        f(Box::new(crate::coll::Owns(v.into_iter_owned())), &want)?;
        (0..v.len().min(3)).try_for_each(|i| v.view(i).map_or(Ok(()), |x| C::iters(x, f)))
    }
    fn dump(&self) -> Phys {
        let s: &[O] = self.buffer_ref().borrow();
        Phys::Offs {
            offsets: s.iter().map(|o| offset_i64(*o)).collect(),
            child: Box::new(self.child_ref().dump()),
        }
    }
    fn addrs(&self, out: &mut Vec<(usize, usize)>) {
        let s: &[O] = self.buffer_ref().borrow();
        out.push((s.as_ptr() as usize, size_of_val(s)));
        self.child_ref().addrs(out);
    }
    fn nulls(&self, out: &mut Vec<NullInfo>) {
        self.child_ref().nulls(out);
    }
}
pub fn offset_i64<O: Offset>(o: O) -> i64 {
    let b = slice_bytes(&[o]);
    if b.len() == 4 {
        i64::from(i32::from_ne_bytes(b.try_into().expect("4")))
    } else {
        i64::from_ne_bytes(b.try_into().expect("8"))
    }
}
pub fn offset_from<O: Offset>(v: i64) -> O {
    // Bit-exact, including negative values, through the byte representation.
    assert!(size_of::<O>() == 4 || size_of::<O>() == 8);
    unsafe {
        if size_of::<O>() == 4 {
            let x = v as i32;
            std::ptr::read((&raw const x).cast::<O>())
        } else {
            std::ptr::read((&raw const v).cast::<O>())
        }
    }
}
impl<C: Build, O: Offset, S: StoreFrom, U: FromIterator<C::Owned> + Dyn> Build for Offsets<C, O, S, U> {
    fn build(p: &Phys) -> Result<Self, String> {
        match p {
            Phys::Offs { offsets, child } => Offsets::try_from_parts(
                C::build(child)?,
                S::store(offsets.iter().map(|o| offset_from::<O>(*o)).collect()),
            )
            .map_err(|e| format!("valid offsets refused: {e:?}")),
            _ => Err("harness: not a list".into()),
        }
    }
    fn rebuild(self) -> Result<Self, String> {
        let (data, offsets) = self.into_parts();
        Offsets::try_from_parts(data.rebuild()?, offsets).map_err(|e| format!("own parts refused: {e:?}"))
    }
}

impl<C: Node, S: Buffer> Node for Validity<C, S> {
    fn ty() -> Ty {
        Ty::Opt(Box::new(C::ty()))
    }
    fn view_val<'v>(v: Option<C::View<'v>>) -> Val where Self: 'v {
        v.map_or(Val::N, C::view_val)
    }
    fn touch<'v>(v: Option<C::View<'v>>, s: &mut Sum) where Self: 'v {
        s.null(v.is_none());
        if let Some(x) = v {
            C::touch(x, s);
        }
    }
    fn touch_nulls(&self, s: &mut Sum) {
        s.len(self.len());
        for i in 0..self.len() {
            s.null(self.is_valid(i) == Some(false));
            s.null(self.is_null(i) == Some(true));
        }
        s.len(self.null_count());
        s.len(self.valid_count());
        for b in [self.any_null(), self.all_null(), self.any_valid(), self.all_valid()] {
            s.null(b);
        }
        self.child_ref().touch_nulls(s);
    }
    fn probe<'v>(v: Option<C::View<'v>>, far: &[usize]) -> Result<Val, String> where Self: 'v {
        let x = match v {
            None => Val::N,
            Some(x) => C::probe(x, far)?,
        };
        agree(x, &IntoOwned::<Option<C::Owned>>::into_owned(v), "nullable view")
    }
    fn iters<'v>(v: Option<C::View<'v>>, f: crate::coll::Inner<'_>) -> Result<(), String> where Self: 'v {
        v.map_or(Ok(()), |x| C::iters(x, f))
    }
    fn dump(&self) -> Phys {
        Phys::Valid {
            bitmap: self.bitmap_ref().map(dump_bm),
            child: Box::new(self.child_ref().dump()),
        }
    }
    fn addrs(&self, out: &mut Vec<(usize, usize)>) {
        if let Some(b) = self.bitmap_ref() {
            b.addrs(out);
        }
        self.child_ref().addrs(out);
    }
    fn nulls(&self, out: &mut Vec<NullInfo>) {
        let len = self.len();
        let far = [self.is_valid(len), self.is_null(len.saturating_add(1)), self.is_valid(usize::MAX)];
        out.push(NullInfo {
            len,
            valid: (0..len).map(|i| self.is_valid(i)).collect(),
            null: (0..len).map(|i| self.is_null(i)).collect(),
            null_count: self.null_count(),
            valid_count: self.valid_count(),
            any_null: self.any_null(),
            all_null: self.all_null(),
            any_valid: self.any_valid(),
            all_valid: self.all_valid(),
            far,
        });
        self.child_ref().nulls(out);
    }
}
impl<C: Build, S: StoreFrom> Build for Validity<C, S> {
    fn build(p: &Phys) -> Result<Self, String> {
        match p {
            Phys::Valid { bitmap: Some(b), child } => Validity::try_from_parts(C::build(child)?, build_bm(b)?)
                .map_err(|e| format!("valid parts refused: {e:?}")),
            Phys::Valid { bitmap: None, child } => Ok(Validity::from_collection(C::build(child)?)),
            _ => Err("harness: not nullable".into()),
        }
    }
    fn rebuild(self) -> Result<Self, String> {
        let (c, b) = self.into_parts();
        let c = c.rebuild()?;
        match b {
            Some(b) => Validity::try_from_parts(c, rebuild_bm(b)?).map_err(|e| format!("own parts refused: {e:?}")),
            None => Ok(Validity::from_collection(c)),
        }
    }
}

macro_rules! layout {
    ([$($g:tt)*] $t:ty, $inner:ty) => {
        impl<$($g)*> Node for $t
        where
            $inner: Node,
        {
            fn ty() -> Ty { <$inner as Node>::ty() }
            fn view_val<'v>(v: Self::View<'v>) -> Val where Self: 'v { <$inner as Node>::view_val(v) }
            fn touch<'v>(v: Self::View<'v>, s: &mut Sum) where Self: 'v { <$inner as Node>::touch(v, s) }
            fn touch_nulls(&self, s: &mut Sum) { self.buffer_ref().touch_nulls(s) }
            fn probe<'v>(v: Self::View<'v>, far: &[usize]) -> Result<Val, String> where Self: 'v {
                <$inner as Node>::probe(v, far)
            }
            fn iters<'v>(v: Self::View<'v>, f: crate::coll::Inner<'_>) -> Result<(), String> where Self: 'v {
                <$inner as Node>::iters(v, f)
            }
            fn dump(&self) -> Phys { self.buffer_ref().dump() }
            fn addrs(&self, out: &mut Vec<(usize, usize)>) { self.buffer_ref().addrs(out) }
            fn nulls(&self, out: &mut Vec<NullInfo>) { self.buffer_ref().nulls(out) }
        }
        impl<$($g)*> Build for $t
        where
            $inner: Build,
        {
            fn build(p: &Phys) -> Result<Self, String> { Ok(Self::from_buffer(<$inner as Build>::build(p)?)) }
            fn rebuild(self) -> Result<Self, String> { Ok(Self::from_buffer(self.into_buffer().rebuild()?)) }
        }
    };
}
layout!([Nulls: Nullability, S: Buffer] Boolean<Nulls, S>, Nulls::Collection<Bitmap<S>, S>);
layout!([T: FixedSize, Nulls: Nullability, S: Buffer] FixedSizePrimitive<T, Nulls, S>, Nulls::Collection<S::For<T>, S>);
layout!([T: ArrayItem, const N: usize, Nulls: Nullability, S: Buffer] FixedSizeList<T, N, Nulls, S>,
        Nulls::Collection<Flatten<T::Memory<S>, N>, S>);
layout!([T: ArrayItem, Nulls: Nullability, O: Offset, S: Buffer] VariableSizeList<T, Nulls, O, S>,
        Nulls::Collection<Offsets<T::Memory<S>, O, S>, S>);
layout!([T: ArrayItem, S: Buffer] Array<T, S>, T::Memory<S>);

/// List elements in memory that no list refers to, at all nesting levels.
pub fn leftovers(ty: &Ty, p: &Phys) -> usize {
    match (ty, p) {
        (Ty::Opt(t), Phys::Valid { child, .. }) | (Ty::Arr(_, t), Phys::Flat { child, .. }) => leftovers(t, child),
        (Ty::List(_, t), Phys::Offs { offsets, child }) => {
            let n = decode(t, child).map_or(0, |v| v.len());
            let used = offsets.last().map_or(0, |o| *o as usize);
            n.saturating_sub(used) + leftovers(t, child)
        }
        _ => 0,
    }
}

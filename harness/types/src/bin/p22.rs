//! P22: generic null handling obeys its laws; wrappers and lengths behave as
//! the plain values they wrap.
use std::{
    cell::{Cell, RefCell},
    cmp::Ordering,
    collections::VecDeque,
    fmt::Debug,
    hash::{DefaultHasher, Hash, Hasher},
    rc::Rc,
    sync::Arc,
};

use narrow::{
    buffer::{Buffer, SliceBuffer, VecBuffer},
    collection::Collection,
    fixed_size::{FixedSize, FixedSizeArray},
    length::Length,
    nullability::{NonNullable, Nullability, Nullable},
};
use vharness::{
    common::{Start, gen_start, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    val::{Dyn, Raw},
};
use vtypes::{Mk, gen_maker};

/// An item that says where it came from, is not `Copy` and counts its drops.
#[derive(Debug)]
struct Tok {
    id: u64,
    log: Rc<RefCell<Vec<u64>>>,
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.log.borrow_mut().push(self.id);
    }
}

/// An expression over items that may be null.
#[derive(Clone, Debug)]
enum Ex {
    Leaf(usize),
    Map(u64, Box<Ex>),
    /// Pairing, then mapping by hand.
    Zip(u64, Box<Ex>, Box<Ex>),
    ZipWith(u64, Box<Ex>, Box<Ex>),
    /// A pair of pairs.
    Zip3(Box<Ex>, Box<Ex>, Box<Ex>),
}

/// An operation recorded as its result, so that order and identity matter.
fn op1(f: u64, a: u64) -> u64 {
    a.rotate_left(7).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ f
}
fn op2(f: u64, a: u64, b: u64) -> u64 {
    op1(f, a.wrapping_mul(3).wrapping_add(op1(f ^ 1, b)))
}

/// What code generic over nullability computes.
struct World {
    log: Rc<RefCell<Vec<u64>>>,
    made: RefCell<Vec<u64>>,
    applied: Cell<u64>,
}
impl World {
    fn tok(&self, id: u64) -> Tok {
        self.made.borrow_mut().push(id);
        Tok { id, log: Rc::clone(&self.log) }
    }
    fn calc<N: Nullability>(&self, e: &Ex, leaves: &dyn Fn(usize) -> N::Item<Tok>) -> N::Item<Tok> {
        let call = || self.applied.set(self.applied.get() + 1);
        match e {
            Ex::Leaf(i) => leaves(*i),
            Ex::Map(f, a) => N::map(self.calc::<N>(a, leaves), |t: Tok| {
                call();
                self.tok(op1(*f, t.id))
            }),
            Ex::Zip(f, a, b) => {
                let pair: N::Item<(Tok, Tok)> = N::zip(self.calc::<N>(a, leaves), self.calc::<N>(b, leaves));
                N::map(pair, |(x, y): (Tok, Tok)| {
                    call();
                    self.tok(op2(*f, x.id, y.id))
                })
            }
            Ex::ZipWith(f, a, b) => {
                N::zip_with(self.calc::<N>(a, leaves), self.calc::<N>(b, leaves), |(x, y): (Tok, Tok)| {
                    call();
                    self.tok(op2(*f, x.id, y.id))
                })
            }
            Ex::Zip3(a, b, c) => {
                let ab: N::Item<(Tok, Tok)> = N::zip(self.calc::<N>(a, leaves), self.calc::<N>(b, leaves));
                N::zip_with(ab, self.calc::<N>(c, leaves), |((x, y), z): ((Tok, Tok), Tok)| {
                    call();
                    self.tok(op2(op2(17, x.id, y.id), z.id, 5))
                })
            }
        }
    }
}

/// The laws, by hand: the value, and how many functions are applied.
fn meaning(e: &Ex, leaves: &[Option<u64>], applied: &mut u64) -> Option<u64> {
    match e {
        Ex::Leaf(i) => leaves[*i],
        Ex::Map(f, a) => match meaning(a, leaves, applied) {
            Some(a) => {
                *applied += 1;
                Some(op1(*f, a))
            }
            None => None,
        },
        Ex::Zip(f, a, b) | Ex::ZipWith(f, a, b) => {
            match (meaning(a, leaves, applied), meaning(b, leaves, applied)) {
                (Some(a), Some(b)) => {
                    *applied += 1;
                    Some(op2(*f, a, b))
                }
                _ => None,
            }
        }
        Ex::Zip3(a, b, c) => {
            let (a, b, c) = (meaning(a, leaves, applied), meaning(b, leaves, applied), meaning(c, leaves, applied));
            match (a, b, c) {
                (Some(a), Some(b), Some(c)) => {
                    *applied += 1;
                    Some(op2(op2(17, a, b), c, 5))
                }
                _ => None,
            }
        }
    }
}

fn gen_ex(src: &mut Src, depth: usize, leaves: usize) -> Ex {
    if depth == 0 {
        return Ex::Leaf(src.usize(leaves));
    }
    let sub = |src: &mut Src| {
        let d = src.range(0, depth - 1);
        Box::new(gen_ex(src, d, leaves))
    };
    let f = src.below(1000);
    match src.weighted(&[1, 2, 3, 3, 2]) {
        0 => Ex::Leaf(src.usize(leaves)),
        1 => Ex::Map(f, sub(src)),
        2 => Ex::Zip(f, sub(src), sub(src)),
        3 => Ex::ZipWith(f, sub(src), sub(src)),
        _ => Ex::Zip3(sub(src), sub(src), sub(src)),
    }
}

fn expression(e: &Ex, leaves: &[Option<u64>], ctx: &mut Ctx) -> Outcome {
    let mut want_applied = 0;
    let want = meaning(e, leaves, &mut want_applied);
    let world = || World { log: Rc::default(), made: RefCell::default(), applied: Cell::new(0) };
    let accounted = |w: &World| {
        let (mut made, mut dropped) = (w.made.borrow().clone(), w.log.borrow().clone());
        made.sort_unstable();
        dropped.sort_unstable();
        ensure!(made == dropped, "items made {made:?}, items dropped {dropped:?}");
        Ok(())
    };
    let w = world();
    let got = w.calc::<Nullable>(e, &|i| leaves[i].map(|id| w.tok(id)));
    ensure_eq!(got.as_ref().map(|t| t.id), want, "nullable result");
    ensure_eq!(w.applied.get(), want_applied, "functions applied to nullable items");
    drop(got);
    accounted(&w)?;
    if leaves.iter().all(Option::is_some) {
        let w = world();
        let got = w.calc::<NonNullable>(e, &|i| w.tok(leaves[i].unwrap_or_default()));
        ensure_eq!(Some(got.id), want, "non-nullable result");
        ensure_eq!(w.applied.get(), want_applied, "functions applied to non-nullable items");
        drop(got);
        accounted(&w)?;
        ctx.label("both modes");
    }
    ctx.label_if(want.is_none(), "null result");
    if want_applied > 0 && leaves.iter().any(Option::is_none) || want_applied > 2 {
        ctx.nontrivial();
    }
    ctx.checks += 2;
    Ok(())
}

/// Collections chosen by nullability hold items of that nullability.
fn collections(items: &[Option<u64>], ctx: &mut Ctx) -> Outcome {
    fn reading<N: Nullability, S: Buffer>(c: N::Collection<Vec<u64>, S>) -> (usize, Vec<N::Item<u64>>) {
        let n = c.len();
        (n, c.into_iter_owned().collect())
    }
    let (n, got) = reading::<Nullable, VecBuffer>(items.iter().copied().collect());
    ensure!(n == items.len() && got == items, "nullable collection of {items:?} holds {got:?}");
    let present: Vec<u64> = items.iter().flatten().copied().collect();
    let (n, got) = reading::<NonNullable, VecBuffer>(present.clone());
    ensure!(n == present.len() && got == present, "non-nullable collection of {present:?} holds {got:?}");
    ensure!(Nullable::NULLABLE && !NonNullable::NULLABLE, "NULLABLE constants");
    ctx.checks += 3;
    Ok(())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

trait MaybeOrd {
    fn order(&self, other: &Self) -> Option<Ordering>;
    fn digest(&self) -> Option<u64>;
}
macro_rules! ord {
    ($($t:ty)*) => {$(
        impl<const N: usize> MaybeOrd for [$t; N] {
            fn order(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
            fn digest(&self) -> Option<u64> { Some(hash(self)) }
        }
        impl<const N: usize> MaybeOrd for FixedSizeArray<$t, N> {
            fn order(&self, other: &Self) -> Option<Ordering> { Some(self.cmp(other)) }
            fn digest(&self) -> Option<u64> { Some(hash(self)) }
        }
    )*};
}
macro_rules! no_ord {
    ($($t:ty)*) => {$(
        impl<const N: usize> MaybeOrd for [$t; N] {
            fn order(&self, _: &Self) -> Option<Ordering> { None }
            fn digest(&self) -> Option<u64> { None }
        }
        impl<const N: usize> MaybeOrd for FixedSizeArray<$t, N> {
            fn order(&self, _: &Self) -> Option<Ordering> { None }
            fn digest(&self) -> Option<u64> { None }
        }
    )*};
}
ord!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
no_ord!(f32 f64);

fn wrapper<T, const N: usize>(a: &[u128], b: &[u128], ctx: &mut Ctx) -> Outcome
where
    T: Raw + PartialEq + PartialOrd + Debug,
    [T; N]: Default + MaybeOrd,
    FixedSizeArray<T, N>: MaybeOrd,
{
    let make = |v: &[u128]| -> [T; N] { std::array::from_fn(|i| T::from_val(&vharness::val::Val::P(v[i % v.len()] & mask(T::SIZE)))) };
    let (a, b) = (make(a), make(b));
    let (x, y) = (FixedSizeArray::from(a), FixedSizeArray::from(b));
    let bits = |v: &[T; N]| v.iter().map(Dyn::to_val).collect::<Vec<_>>();
    ensure!(bits(&x) == bits(&a), "FixedSizeArray::from({a:?}) derefs to {:?}", *x);
    let copy = x;
    #[allow(clippy::clone_on_copy)]
    let clone = x.clone();
    ensure!(bits(&copy) == bits(&a) && bits(&clone) == bits(&a), "copies of {a:?} are {copy:?} and {clone:?}");
    ensure_eq!(x == y, a == b, "equality of the wrappers of {a:?} and {b:?}");
    ensure_eq!(x != y, a != b, "inequality of the wrappers of {a:?} and {b:?}");
    ensure_eq!(x.partial_cmp(&y), a.partial_cmp(&b), "order of the wrappers of {a:?} and {b:?}");
    ensure_eq!(x.order(&y), a.order(&b), "order of the wrappers of {a:?} and {b:?}");
    ensure!(x.digest().is_some() == a.digest().is_some(), "hash");
    ensure!(a != b || x.digest() == y.digest(), "equal wrappers of {a:?} hash differently");
    ensure!(bits(&FixedSizeArray::<T, N>::default()) == bits(&<[T; N]>::default()), "default");
    ensure_eq!(FixedSizeArray::<T, N>::SIZE, N * T::SIZE, "size");
    ensure_eq!(T::SIZE, size_of::<T>(), "size");
    ensure_eq!(Length::len(&*x), N, "length");
    ctx.checks += 9;
    Ok(())
}
fn mask(w: usize) -> u128 {
    if w == 16 { u128::MAX } else { (1 << (8 * w)) - 1 }
}

/// A length is the number of items, and being empty is having none.
fn lengths<T: Raw + Debug>(v: &[u128], ctx: &mut Ctx) -> Outcome {
    let items: Vec<T> = v.iter().map(|x| T::from_val(&vharness::val::Val::P(x & mask(T::SIZE)))).collect();
    let n = items.len();
    fn one<L: Length + ?Sized>(what: &str, l: &L, n: usize) -> Outcome {
        ensure_eq!(l.len(), n, "length of {what}");
        ensure_eq!(l.is_empty(), n == 0, "emptiness of {what} with {n} items");
        Ok(())
    }
    one("Vec", &items, n)?;
    one("slice", &items[..], n)?;
    one("&slice", &&items[..], n)?;
    let mut copy = items.clone();
    one("&mut slice", &&mut copy[..], n)?;
    one("Box", &items.clone().into_boxed_slice(), n)?;
    one("Rc", &Rc::<[T]>::from(items.clone()), n)?;
    one("Arc", &Arc::<[T]>::from(items.clone()), n)?;
    let mut q: VecDeque<T> = items.iter().copied().collect();
    one("VecDeque", &q, n)?;
    // Also when it wraps around its buffer.
    for _ in 0..n / 2 {
        let x = q.pop_front().expect("an item");
        q.push_back(x);
    }
    one("rotated VecDeque", &q, n)?;
    let mut spare = Vec::with_capacity(n + 17);
    spare.extend(items.iter().copied());
    one("Vec with spare capacity", &spare, n)?;
    let s: <SliceBuffer<'_> as Buffer>::For<T> = &items;
    one("slice buffer", &s, n)?;
    one("[T; 0]", &[T::default(); 0], 0)?;
    one("[T; 1]", &[T::default(); 1], 1)?;
    one("[T; 5]", &[T::default(); 5], 5)?;
    ctx.checks += 14;
    Ok(())
}

macro_rules! widths {
    ($f:ident, $ty:expr, $n:expr, $a:expr, $b:expr, $ctx:expr; $($t:ty)*) => {{
        let mut k = 0;
        $(
            if $ty == k {
                return match $n {
                    0 => $f::<$t, 0>($a, $b, $ctx),
                    1 => $f::<$t, 1>($a, $b, $ctx),
                    2 => $f::<$t, 2>($a, $b, $ctx),
                    3 => $f::<$t, 3>($a, $b, $ctx),
                    8 => $f::<$t, 8>($a, $b, $ctx),
                    _ => $f::<$t, 32>($a, $b, $ctx),
                };
            }
            k += 1;
        )*
        let _ = k;
        unreachable!()
    }};
}
macro_rules! each {
    ($f:ident, $ty:expr, $a:expr, $ctx:expr; $($t:ty)*) => {{
        let mut k = 0;
        $(
            if $ty == k {
                return $f::<$t>($a, $ctx);
            }
            k += 1;
        )*
        let _ = k;
        unreachable!()
    }};
}
const TYPES: usize = 14;
const WIDTHS: [usize; 6] = [0, 1, 2, 3, 8, 32];

#[derive(Debug)]
enum Case {
    Laws { ex: Ex, leaves: Vec<Option<u64>> },
    Collections(Vec<Option<u64>>),
    Wrapper { ty: usize, n: usize, a: Vec<u128>, b: Vec<u128> },
    Lengths { ty: usize, items: Vec<u128> },
    Of { mk: Mk, start: Start },
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P22";
    const RULE: &'static str = "(a) random expressions of map, zip, zip_with over present and null items, evaluated by code generic over nullability and by hand, with applications and drops counted; (b) fixed-size wrappers of all primitives and several widths against plain arrays; (c) lengths of every container and of random collections against their items; non-trivial: several functions applied or nulls met, wrappers that differ late or not at all, and non-empty collections";
    fn cases(thorough: bool) -> u64 {
        if thorough { 260_000_000 } else { 13_000_000 }
    }
    fn generate(src: &mut Src) -> Case {
        match src.weighted(&[6, 1, 4, 1, 1]) {
            0 => {
                let n = src.range(1, 5);
                let nulls = src.below(4);
                let leaves = (0..n).map(|_| (!src.chance(nulls, 6)).then(|| src.below(1 << 40))).collect();
                let depth = src.range(1, 4);
                Case::Laws { ex: gen_ex(src, depth, n), leaves }
            }
            1 => {
                let n = src.range(0, 40);
                Case::Collections((0..n).map(|_| (!src.chance(1, 3)).then(|| src.word())).collect())
            }
            2 => {
                let ty = src.usize(TYPES);
                let n = *src.pick(&WIDTHS);
                let word = |src: &mut Src| vharness::val::gen_prim(src, 16);
                let a: Vec<u128> = (0..n.max(1)).map(|_| word(src)).collect();
                let mut b = a.clone();
                match src.weighted(&[1, 3, 1]) {
                    0 => {}
                    1 => {
                        let i = src.usize(b.len());
                        b[i] = word(src);
                    }
                    _ => b = (0..n.max(1)).map(|_| word(src)).collect(),
                }
                Case::Wrapper { ty, n, a, b }
            }
            3 => {
                let ty = src.usize(TYPES);
                let n = src.range(0, 70);
                Case::Lengths { ty, items: (0..n).map(|_| src.word() as u128).collect() }
            }
            _ => {
                let mk = gen_maker(src);
                let ty = mk.0.ty();
                Case::Of { mk, start: gen_start(src, &ty, 1) }
            }
        }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        match case {
            Case::Laws { ex, leaves } => {
                ctx.label("laws");
                expression(ex, leaves, ctx)
            }
            Case::Collections(items) => {
                ctx.label("collections");
                if items.iter().any(Option::is_none) {
                    ctx.nontrivial();
                }
                collections(items, ctx)
            }
            Case::Wrapper { ty, n, a, b } => {
                ctx.label("wrapper");
                if *n > 0 && (a == b || a[0] == b[0]) {
                    ctx.nontrivial();
                }
                widths!(wrapper, *ty, *n, a, b, ctx; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64)
            }
            Case::Lengths { ty, items } => {
                ctx.label("lengths");
                if !items.is_empty() {
                    ctx.nontrivial();
                }
                each!(lengths, *ty, items, ctx; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64)
            }
            Case::Of { mk, start: s } => {
                ctx.label("length of a collection");
                let (c, model) = start(mk.0, s)?;
                ensure_eq!(c.len(), model.len(), "length");
                ensure_eq!(c.is_empty(), model.is_empty(), "emptiness");
                ctx.checks += 2;
                if !model.is_empty() {
                    ctx.nontrivial();
                }
                Ok(())
            }
        }
    }
}

fn main() {
    main_for::<P>();
}

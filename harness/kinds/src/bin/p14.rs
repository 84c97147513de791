//! P14: list views denote exactly the list they were taken from.
use std::{rc::Rc, sync::{Arc, OnceLock}};

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{ArcBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer},
    collection::{Collection, owned::IntoOwned},
    length::Length,
    offset::Offsets,
    validity::Validity,
};
use vharness::{
    coll::Read,
    common::{Op, Start, apply, gen_op, gen_start, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{Build, Node, Phys, RawOpts, decode, gen_phys},
    val::{Dyn, Ty, Val, from_vals, gen_dens, gen_len, gen_val},
};
use vkinds::{Kinds, kinds};
use vtypes::{Mk, gen_maker};

fn all_kinds() -> &'static [Kinds] {
    static K: OnceLock<Vec<Kinds>> = OnceLock::new();
    K.get_or_init(|| kinds().into_iter().filter(|k| k.vec.ty().depth() > 0).collect())
}

/// What lists are compared with: a list and ways to differ from it.
#[derive(Debug)]
#[allow(dead_code)]
struct Compare {
    row: usize,
    name: &'static str,
    phys: Phys,
    others: Vec<Vec<Val>>,
}

#[derive(Clone, Copy)]
struct Row {
    name: &'static str,
    ty: fn() -> Ty,
    run: fn(&Compare, &mut Ctx) -> Outcome,
}

/// The list inside a possibly null item.
trait MaybeList<V> {
    fn list(self) -> Option<V>;
}
impl<'a, T: Collection, O: narrow::offset::Offset, S: narrow::buffer::Buffer, U>
    MaybeList<narrow::offset::OffsetView<'a, T, O, S, U>> for narrow::offset::OffsetView<'a, T, O, S, U>
{
    fn list(self) -> Option<Self> {
        Some(self)
    }
}
impl<'a, T: Collection, O: narrow::offset::Offset, S: narrow::buffer::Buffer, U>
    MaybeList<narrow::offset::OffsetView<'a, T, O, S, U>> for Option<narrow::offset::OffsetView<'a, T, O, S, U>>
{
    fn list(self) -> Option<narrow::offset::OffsetView<'a, T, O, S, U>> {
        self
    }
}

/// Comparing two views needs `'static` ones (the bound ranges over all
/// lifetimes); the views made of this are dropped before what they borrow.
fn forever<T>(t: &T) -> &'static T {
    unsafe { &*(t as *const T) }
}

/// The view of a present list.
trait Listy: Collection {
    type List<'a>
    where
        Self: 'a;
}
impl<T: narrow::layout::ArrayItem, S: narrow::buffer::Buffer> Listy for Array<Vec<T>, S>
where
    Array<Vec<T>, S>: Collection,
    <T as narrow::layout::ArrayItem>::Memory<S>: Collection,
{
    type List<'a> = narrow::offset::OffsetView<'a, <T as narrow::layout::ArrayItem>::Memory<S>, i32, S, Vec<T>> where Self: 'a;
}
impl<T: narrow::layout::ArrayItem, S: narrow::buffer::Buffer> Listy for Array<Option<Vec<T>>, S>
where
    Array<Option<Vec<T>>, S>: Collection,
    <T as narrow::layout::ArrayItem>::Memory<S>: Collection,
{
    type List<'a> = narrow::offset::OffsetView<'a, <T as narrow::layout::ArrayItem>::Memory<S>, i32, S, Vec<T>> where Self: 'a;
}
impl<T: Collection, O: narrow::offset::Offset, S: narrow::buffer::Buffer, U> Listy for Offsets<T, O, S, U>
where
    Offsets<T, O, S, U>: Collection,
{
    type List<'a> = narrow::offset::OffsetView<'a, T, O, S, U> where Self: 'a;
}

fn verdict(what: &str, got: bool, item: &Val, other: &[Val], ctx: &mut Ctx) -> Outcome {
    let Val::L(l) = item else { return Err("harness: not a list".into()) };
    let want = l == other;
    ctx.label(if want { "equal" } else { "different" });
    ctx.label_if(!want && l.len() == other.len(), "different at equal length");
    ctx.checks += 1;
    ensure!(got == want, "list view {item:?} == {what} {other:?} is {got}");
    Ok(())
}

/// `$c` holds lists of `$e`; each view is compared with every `$d`.
macro_rules! compare {
    ($v:ident; $c:ty, $e:ty, [$($d:ty),*]) => {{
        fn run(case: &Compare, ctx: &mut Ctx) -> Outcome {
            let c = <$c as Build>::build(&case.phys)?;
            let model = decode(&<$c as Node>::ty(), &case.phys)?;
            for (i, item) in model.iter().enumerate() {
                let Some(v) = c.view(i).expect("item below the length").list() else { continue };
                let own: Vec<Val> = v.into_iter_owned().map(|x| x.to_val()).collect();
                ensure!(Val::L(own.clone()) == *item, "list view yields {own:?} instead of {item:?}");
                let o: Vec<$e> = IntoOwned::<Vec<$e>>::into_owned(v);
                ensure!(o.to_val() == *item, "list view converts to {:?} instead of {item:?}", o.to_val());
                let near = [i, i + 1, i.wrapping_sub(1)];
                let lists = near.iter().filter_map(|j| match model.get(*j) {
                    Some(Val::L(l)) => Some(l),
                    _ => None,
                });
                for other in case.others.iter().chain(lists) {
                    $({
                        let d: $d = from_vals::<$e>(other).into_iter().collect();
                        verdict(stringify!($d), PartialEq::<$d>::eq(&v, &d), item, other, ctx)?;
                        verdict(stringify!($d), !PartialEq::<$d>::ne(&v, &d), item, other, ctx)?;
                    })*
                    // Another view, over other memory, at another position.
                    let decoy: Vec<$e> = from_vals(&case.others[0]);
                    let far: Array<Vec<$e>, VecBuffer> = [decoy, from_vals(other)].into_iter().collect();
                    let w = forever(&far).view(1).expect("two lists");
                    verdict("view", PartialEq::<<Array<Vec<$e>, VecBuffer> as Collection>::View<'_>>::eq(&v, &w), item, other, ctx)?;
                }
                if i > 0 && v.len() > 0 {
                    ctx.nontrivial();
                }
            }
            // Views over the same memory compare by content too.
            for (i, a) in model.iter().enumerate().take(12) {
                for (j, b) in model.iter().enumerate().take(12) {
                    if let (Some(x), Some(y)) = (forever(&c).view(i).and_then(|x| x.list()), forever(&c).view(j).and_then(|x| x.list())) {
                        ensure!(PartialEq::<<$c as Listy>::List<'_>>::eq(&x, &y) == (a == b), "views of items {i} {a:?} and {j} {b:?}");
                    }
                }
            }
            Ok(())
        }
        $v.push(Row { name: stringify!($c), ty: <$c as Node>::ty, run });
    }};
}

/// `$c` holds lists of lists of `$e`; each view of a view is compared.
/// (Comparing lists of lists directly is not something the types allow.)
macro_rules! nested {
    ($v:ident; $c:ty, $e:ty, [$($d:ty),*]) => {{
        fn run(case: &Compare, ctx: &mut Ctx) -> Outcome {
            let c = <$c as Build>::build(&case.phys)?;
            let model = decode(&<$c as Node>::ty(), &case.phys)?;
            for (i, item) in model.iter().enumerate() {
                let Some(v) = c.view(i).expect("item below the length").list() else { continue };
                let Val::L(items) = item else { return Err(format!("view of {item:?} is present")) };
                ensure_eq!(v.len(), items.len(), "length of the outer view");
                for (j, inner) in items.iter().enumerate() {
                    let Some(u) = v.view(j).expect("item below the length").list() else { continue };
                    let near = [j + 1, j.wrapping_sub(1), j];
                    let lists = near.iter().filter_map(|k| match items.get(*k) {
                        Some(Val::L(l)) => Some(l),
                        _ => None,
                    });
                    for other in case.others.iter().chain(lists) {
                        $({
                            let d: $d = from_vals::<$e>(other).into_iter().collect();
                            verdict(stringify!($d), PartialEq::<$d>::eq(&u, &d), inner, other, ctx)?;
                        })*
                    }
                    ctx.label("view of a view");
                    if j > 0 && i > 0 && u.len() > 0 {
                        ctx.nontrivial();
                    }
                }
            }
            Ok(())
        }
        $v.push(Row { name: stringify!($c), ty: <$c as Node>::ty, run });
    }};
}

fn rows() -> &'static [Row] {
    static R: OnceLock<Vec<Row>> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = Vec::new();
        macro_rules! prims {
            ($($t:ty),*) => {$(
                compare!(v; Array<Vec<$t>, VecBuffer>, $t,
                    [Vec<$t>, Box<[$t]>, Rc<[$t]>, Arc<[$t]>, Array<$t, VecBuffer>]);
                compare!(v; Array<Option<Vec<$t>>, ArcBuffer>, $t, [Vec<$t>, Box<[$t]>, Array<$t, VecBuffer>]);
                compare!(v; Offsets<Box<[$t]>, i64, BoxBuffer>, $t, [Vec<$t>, Rc<[$t]>]);
                compare!(v; Offsets<&'static [$t], i32, SliceBuffer<'static>>, $t, [Vec<$t>, Arc<[$t]>]);
            )*};
        }
        prims!(u8, i32, u128);
        compare!(v; Array<Vec<bool>, VecBuffer>, bool, [Bitmap, Array<bool, VecBuffer>]);
        compare!(v; Array<Option<Vec<bool>>, RcBuffer>, bool, [Bitmap]);
        compare!(v; Array<Vec<Option<u16>>, VecBuffer>, Option<u16>, [Validity<Vec<u16>>, Array<Option<u16>, VecBuffer>]);
        compare!(v; Array<Option<Vec<Option<bool>>>, VecBuffer>, Option<bool>, [Validity<Bitmap>, Array<Option<bool>, VecBuffer>]);
        compare!(v; Offsets<Validity<Box<[i64]>, BoxBuffer>, i64, BoxBuffer>, Option<i64>, [Validity<Vec<i64>>]);
        nested!(v; Array<Vec<Vec<u8>>, VecBuffer>, u8, [Vec<u8>, Array<u8, VecBuffer>]);
        nested!(v; Array<Vec<Vec<bool>>, SliceBuffer<'static>>, bool, [Bitmap]);
        nested!(v; Array<Option<Vec<Option<Vec<i16>>>>, ArcBuffer>, i16, [Vec<i16>, Box<[i16]>]);
        nested!(v; Offsets<Offsets<Box<[u64]>, i32, BoxBuffer>, i64, BoxBuffer>, u64, [Vec<u64>]);
        nested!(v; Array<Vec<Vec<Option<u8>>>, VecBuffer>, Option<u8>, [Validity<Vec<u8>>]);
        v
    })
}

#[derive(Debug)]
#[allow(dead_code)]
enum Case {
    Compare(Compare),
    Grown { mk: Mk, start: Start, ops: Vec<Op> },
    Stored { ty: usize, name: &'static str, storage: usize, phys: Phys },
}

fn element(t: &Ty) -> &Ty {
    match t {
        Ty::Opt(t) => element(t),
        Ty::List(_, t) => t,
        _ => unreachable!(),
    }
}

/// Changes one leaf somewhere inside.
fn tweak(src: &mut Src, ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::Opt(t), v) => {
            if *v == Val::N || src.chance(1, 3) {
                if *v == Val::N { gen_val(src, t, vharness::val::Dens { null: 0, inner: 2 }) } else { Val::N }
            } else {
                tweak(src, t, v)
            }
        }
        (Ty::Bool, Val::B(b)) => Val::B(!b),
        (Ty::Prim(w), Val::P(p)) => Val::P(p ^ (1 << src.below(8 * *w as u64))),
        (Ty::List(_, t), Val::L(l)) => {
            let mut l = l.clone();
            if l.is_empty() || src.chance(1, 3) {
                l.push(gen_val(src, t, vharness::val::Dens { null: 2, inner: 2 }));
            } else {
                let i = src.usize(l.len());
                l[i] = tweak(src, t, &l[i]);
            }
            Val::L(l)
        }
        _ => v.clone(),
    }
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P14";
    const RULE: &'static str = "(a) random lists over shared child memory in several storages and both offset widths; every view is compared, both ways round, with other views and nine kinds of collections holding the same list, a list differing in one leaf, shorter, longer, neighbouring or unrelated, against model equality; (b) random nested types, mutated or wrapped; every view, nested views and nullable lists included, is read by all paths and converted; non-trivial: a non-empty list after another one";
    fn cases(thorough: bool) -> u64 {
        if thorough { 36_000_000 } else { 1_800_000 }
    }
    fn generate(src: &mut Src) -> Case {
        match src.weighted(&[5, 2, 2]) {
            0 => {
                let row = src.usize(rows().len());
                let ty = (rows()[row].ty)();
                let n = src.range(1, 8);
                let d = gen_dens(src);
                let phys = gen_phys(src, &ty, n, d, RawOpts { offsets: true, omit: true });
                let model = decode(&ty, &phys).unwrap_or_default();
                let mut e = element(&ty).clone();
                let mut base = match model.get(src.usize(n)) {
                    Some(Val::L(l)) => l.clone(),
                    _ => vec![],
                };
                // Views of views are compared with lists of the inner items.
                let list = match &e {
                    Ty::Opt(t) => t.depth() > 0,
                    t => t.depth() > 0,
                };
                if list {
                    e = element(&e).clone();
                    base = match base.get(src.usize(base.len().max(1))) {
                        Some(Val::L(l)) => l.clone(),
                        _ => vec![],
                    };
                }
                let mut others = vec![base.clone(), vec![]];
                let mut longer = base.clone();
                longer.push(gen_val(src, &e, d));
                others.push(longer);
                if !base.is_empty() {
                    others.push(base[..base.len() - 1].to_vec());
                    others.push(base[1..].to_vec());
                    for i in [src.usize(base.len()), base.len() - 1, 0] {
                        let mut l = base.clone();
                        l[i] = tweak(src, &e, &l[i]);
                        others.push(l);
                    }
                    let mut r = base.clone();
                    r.reverse();
                    others.push(r);
                }
                Case::Compare(Compare { row, name: rows()[row].name, phys, others })
            }
            1 => {
                let mut mk = gen_maker(src);
                for _ in 0..4 {
                    if mk.0.ty().depth() == 0 {
                        mk = gen_maker(src);
                    }
                }
                let ty = mk.0.ty();
                let start = gen_start(src, &ty, 2);
                let ops = (0..src.range(0, 2)).map(|_| gen_op(src, &ty)).collect();
                Case::Grown { mk, start, ops }
            }
            _ => {
                let ty = src.usize(all_kinds().len());
                let k = &all_kinds()[ty];
                let storage = src.usize(k.others.len());
                let t = k.vec.ty();
                let n = gen_len(src, (3000 / t.weight()).max(3));
                let d = gen_dens(src);
                let phys = gen_phys(src, &t, n, d, RawOpts { offsets: true, omit: true });
                Case::Stored { ty, name: k.others[storage].1.name(), storage, phys }
            }
        }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let (c, model): (Box<dyn Read>, Vec<Val>) = match case {
            Case::Compare(k) => return (rows()[k.row].run)(k, ctx),
            Case::Grown { mk, start: s, ops } => {
                let (mut c, mut model) = start(mk.0, s)?;
                for op in ops {
                    apply(&mut c, &mut model, op)?;
                }
                (c, model)
            }
            Case::Stored { ty, storage, phys, .. } => {
                let k = &all_kinds()[*ty];
                let (name, s) = k.others[*storage];
                ctx.label(name);
                (s.from_phys(phys)?, decode(&s.ty(), phys)?)
            }
        };
        ensure_eq!(c.len(), model.len(), "length");
        ctx.label("read by all paths");
        for (i, want) in model.iter().enumerate() {
            if model.len() > 300 && i % 7 != 0 {
                continue;
            }
            let got = c.probe(i, &[])?;
            ensure!(got.as_ref() == Some(want), "item {i}'s view denotes {got:?}, expected {want:?}");
            ctx.checks += 1;
            if i > 0 && matches!(want, Val::L(l) if !l.is_empty()) {
                ctx.nontrivial();
            }
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

//! P20: list offsets never wrap.
//!
//! Lists reach the largest offsets without the memory that would take: the
//! child collection and the appended lists store runs of equal elements.
use std::{
    cell::Cell,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::Mutex,
};

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{BufferRef, VecBuffer},
    collection::{AllocError, ChildRef, Collection, CollectionAllocIn, CollectionRealloc, flatten::Flatten},
    length::Length,
    nullability::NonNullable,
    layout::{fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList},
    offset::{Offset, Offsets},
    validity::Validity,
};
use vharness::{
    engine::{Ctx, Outcome, Prop, Src, last_panic, main_for},
    ensure, ensure_eq,
    phys::{offset_from, offset_i64},
};

/// From this length on, a list is a run.
const RUN: usize = 1000;

/// Elements as runs.
#[derive(Clone, Debug, Default, PartialEq)]
struct Giant {
    runs: Vec<(u32, usize)>,
    len: usize,
}
impl Giant {
    fn push(&mut self, v: u32, n: usize) {
        if n > 0 {
            self.len = self.len.checked_add(n).expect("harness: child longer than usize");
            self.runs.push((v, n));
        }
    }
}
impl Length for Giant {
    fn len(&self) -> usize {
        self.len
    }
}
thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
}
const SLOW: &str = "vharness: this would take one step per element";
fn step() {
    STEPS.with(|s| {
        s.set(s.get() + 1);
        if s.get() > 2_000_000 {
            panic!("{SLOW}");
        }
    });
}

impl Collection for Giant {
    type View<'c> = u32;
    type Owned = u32;
    fn view(&self, mut i: usize) -> Option<u32> {
        for (v, n) in &self.runs {
            if i < *n {
                return Some(*v);
            }
            i -= n;
        }
        None
    }
    type Iter<'c> = Runs;
    fn iter_views(&self) -> Runs {
        Runs { runs: self.runs.clone(), at: 0, left: self.len }
    }
    type IntoIter = Runs;
    fn into_iter_owned(self) -> Runs {
        Runs { runs: self.runs, at: 0, left: self.len }
    }
}
impl CollectionAllocIn for Giant {
    type Alloc = ();
    fn with_capacity_in(_: usize, (): ()) -> Self {
        Giant::default()
    }
    fn from_iter_in<I: IntoIterator<Item = u32>>(iter: I, (): ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(_: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Giant::default())
    }
    fn try_from_iter_in<I: IntoIterator<Item = u32>>(iter: I, (): ()) -> Result<Self, AllocError> {
        Ok(iter.into_iter().collect())
    }
}
impl Extend<u32> for Giant {
    fn extend<I: IntoIterator<Item = u32>>(&mut self, iter: I) {
        let mut it = iter.into_iter();
        while let Some(v) = it.next() {
            // Only runs promise this many more elements, all alike.
            let more = it.size_hint().0;
            if more >= RUN - 1 && it.size_hint().1 == Some(more) {
                assert_eq!(it.nth(more - 1), Some(v), "harness: not a run");
                self.push(v, more + 1);
            } else {
                step();
                self.push(v, 1);
            }
        }
    }
}
impl FromIterator<u32> for Giant {
    fn from_iter<I: IntoIterator<Item = u32>>(iter: I) -> Self {
        let mut g = Giant::default();
        g.extend(iter);
        g
    }
}
impl CollectionRealloc for Giant {
    fn allocator(&self) {}
    fn try_reserve(&mut self, _: usize) -> Result<(), AllocError> {
        Ok(())
    }
    fn try_extend<I: IntoIterator<Item = u32>>(&mut self, iter: I) -> Result<(), AllocError> {
        self.extend(iter);
        Ok(())
    }
    fn reserve(&mut self, _: usize) {}
    fn truncate(&mut self, len: usize) {
        while self.len > len {
            let (_, n) = self.runs.last_mut().expect("harness: runs add up");
            let cut = (self.len - len).min(*n);
            *n -= cut;
            self.len -= cut;
            if *n == 0 {
                self.runs.pop();
            }
        }
    }
}

/// Iterates runs, skipping in constant time.
struct Runs {
    runs: Vec<(u32, usize)>,
    at: usize,
    left: usize,
}
impl Iterator for Runs {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        step();
        self.nth(0)
    }
    fn nth(&mut self, mut n: usize) -> Option<u32> {
        while let Some((v, k)) = self.runs.get_mut(self.at) {
            if n < *k {
                *k -= n + 1;
                self.left -= n + 1;
                return Some(*v);
            }
            n -= *k;
            self.left -= *k;
            self.at += 1;
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left, Some(self.left))
    }
}
impl ExactSizeIterator for Runs {}

/// A list, as it is appended and read back: either short, or a single run.
#[derive(Clone, Debug, Default, PartialEq)]
struct Lst(Giant);
impl Lst {
    fn run(v: u32, n: usize) -> Self {
        let mut g = Giant::default();
        g.push(v, n);
        Lst(g)
    }
}
impl Length for Lst {
    fn len(&self) -> usize {
        self.0.len
    }
}
impl Collection for Lst {
    type View<'c> = u32;
    type Owned = u32;
    fn view(&self, i: usize) -> Option<u32> {
        self.0.view(i)
    }
    type Iter<'c> = Runs;
    fn iter_views(&self) -> Runs {
        self.0.iter_views()
    }
    type IntoIter = Runs;
    fn into_iter_owned(self) -> Runs {
        self.0.into_iter_owned()
    }
}
impl FromIterator<u32> for Lst {
    fn from_iter<I: IntoIterator<Item = u32>>(iter: I) -> Self {
        Lst(iter.into_iter().collect())
    }
}
impl CollectionAllocIn for Lst {
    type Alloc = ();
    fn with_capacity_in(_: usize, (): ()) -> Self {
        Lst::default()
    }
    fn from_iter_in<I: IntoIterator<Item = u32>>(iter: I, (): ()) -> Self {
        iter.into_iter().collect()
    }
    fn try_with_capacity_in(_: usize, (): ()) -> Result<Self, AllocError> {
        Ok(Lst::default())
    }
    fn try_from_iter_in<I: IntoIterator<Item = u32>>(iter: I, (): ()) -> Result<Self, AllocError> {
        Ok(iter.into_iter().collect())
    }
}

/// One list in the model; `None` is null.
type Row = Option<Lst>;

/// A collection with lists somewhere inside, one or more to an item.
trait Shape: CollectionRealloc<Alloc = ()> + Default + FromIterator<Self::Owned> {
    type O: Offset;
    const NAME: &'static str;
    const WIDTH: usize;
    const NULLS: bool;
    fn item(rows: &[Row]) -> Self::Owned;
    fn make(child: Giant, offsets: Vec<Self::O>, valid: Option<Vec<bool>>) -> Result<Self, String>;
    fn offsets(&self) -> (&Giant, &[Self::O]);
    /// The lists of item `i` as (length, samples at these positions).
    fn lists(&self, i: usize, at: &[usize]) -> Option<Vec<Option<(usize, Vec<Option<u32>>)>>>;
    fn apart(self) -> Result<Self, String>;
}

type Plain<O> = Offsets<Giant, O, VecBuffer, Lst>;

fn sample<O: Offset>(v: narrow::offset::OffsetView<'_, Giant, O, VecBuffer, Lst>, at: &[usize]) -> (usize, Vec<Option<u32>>) {
    (v.len(), at.iter().map(|i| v.view(*i)).collect())
}

impl<O: Offset> Shape for Plain<O> {
    type O = O;
    const NAME: &'static str = "lists";
    const WIDTH: usize = 1;
    const NULLS: bool = false;
    fn item(rows: &[Row]) -> Lst {
        rows[0].clone().unwrap_or_default()
    }
    fn make(child: Giant, offsets: Vec<O>, _: Option<Vec<bool>>) -> Result<Self, String> {
        Self::try_from_parts(child, offsets).map_err(|e| format!("valid parts refused: {e:?}"))
    }
    fn offsets(&self) -> (&Giant, &[O]) {
        (self.child_ref(), self.buffer_ref())
    }
    fn lists(&self, i: usize, at: &[usize]) -> Option<Vec<Option<(usize, Vec<Option<u32>>)>>> {
        self.view(i).map(|v| vec![Some(sample(v, at))])
    }
    fn apart(self) -> Result<Self, String> {
        let (c, o) = self.into_parts();
        Self::make(c, o, None)
    }
}

impl<O: Offset> Shape for Validity<Plain<O>> {
    type O = O;
    const NAME: &'static str = "nullable lists";
    const WIDTH: usize = 1;
    const NULLS: bool = true;
    fn item(rows: &[Row]) -> Option<Lst> {
        rows[0].clone()
    }
    fn make(child: Giant, offsets: Vec<O>, valid: Option<Vec<bool>>) -> Result<Self, String> {
        let c = Plain::make(child, offsets, None)?;
        match valid {
            None => Ok(Self::from_collection(c)),
            Some(v) => Self::try_from_parts(c, v.into_iter().collect::<Bitmap>()).map_err(|e| format!("valid parts refused: {e:?}")),
        }
    }
    fn offsets(&self) -> (&Giant, &[O]) {
        self.child_ref().offsets()
    }
    fn lists(&self, i: usize, at: &[usize]) -> Option<Vec<Option<(usize, Vec<Option<u32>>)>>> {
        self.view(i).map(|v| vec![v.map(|v| sample(v, at))])
    }
    fn apart(self) -> Result<Self, String> {
        let (c, b) = self.into_parts();
        match b {
            None => Ok(Self::from_collection(c.apart()?)),
            Some(b) => Self::try_from_parts(c.apart()?, b).map_err(|e| format!("valid parts refused: {e:?}")),
        }
    }
}

impl<O: Offset> Shape for Flatten<Plain<O>, 2> {
    type O = O;
    const NAME: &'static str = "pairs of lists";
    const WIDTH: usize = 2;
    const NULLS: bool = false;
    fn item(rows: &[Row]) -> [Lst; 2] {
        [0, 1].map(|i| rows[i].clone().unwrap_or_default())
    }
    fn make(child: Giant, offsets: Vec<O>, _: Option<Vec<bool>>) -> Result<Self, String> {
        Self::try_from_parts(Plain::make(child, offsets, None)?).map_err(|e| format!("valid parts refused: {e:?}"))
    }
    fn offsets(&self) -> (&Giant, &[O]) {
        self.child_ref().offsets()
    }
    fn lists(&self, i: usize, at: &[usize]) -> Option<Vec<Option<(usize, Vec<Option<u32>>)>>> {
        self.view(i).map(|v| v.iter().map(|l| Some(sample(*l, at))).collect())
    }
    fn apart(self) -> Result<Self, String> {
        Self::try_from_parts(self.into_parts().apart()?).map_err(|e| format!("valid parts refused: {e:?}"))
    }
}

impl<O: Offset> Shape for Flatten<Validity<Plain<O>>, 2> {
    type O = O;
    const NAME: &'static str = "pairs of nullable lists";
    const WIDTH: usize = 2;
    const NULLS: bool = true;
    fn item(rows: &[Row]) -> [Option<Lst>; 2] {
        [0, 1].map(|i| rows[i].clone())
    }
    fn make(child: Giant, offsets: Vec<O>, valid: Option<Vec<bool>>) -> Result<Self, String> {
        Self::try_from_parts(Validity::make(child, offsets, valid)?).map_err(|e| format!("valid parts refused: {e:?}"))
    }
    fn offsets(&self) -> (&Giant, &[O]) {
        self.child_ref().offsets()
    }
    fn lists(&self, i: usize, at: &[usize]) -> Option<Vec<Option<(usize, Vec<Option<u32>>)>>> {
        self.view(i).map(|v| v.iter().map(|l| l.map(|l| sample(l, at))).collect())
    }
    fn apart(self) -> Result<Self, String> {
        Self::try_from_parts(self.into_parts().apart()?).map_err(|e| format!("valid parts refused: {e:?}"))
    }
}

#[derive(Clone, Debug)]
enum Step {
    Try(Vec<Row>),
    Extend(Vec<Row>),
    Truncate(usize),
    Reserve(usize),
    TryReserve(usize),
    Apart,
}

#[derive(Debug)]
enum Case {
    Runs {
        shape: usize,
        /// Lists present at the start, and unreferenced elements after them.
        rows: Vec<Row>,
        explicit: bool,
        slack: usize,
        /// Whether to begin by collecting instead of raw parts.
        collect: bool,
        steps: Vec<Step>,
    },
    /// Real memory at the largest 32-bit offset.
    Real { kind: usize, room: usize, first: Vec<usize>, second: Vec<usize>, fallible: bool },
}

fn total(rows: &[Row]) -> u128 {
    rows.iter().flatten().map(|l| l.len() as u128).sum()
}

fn observe<C: Shape>(c: &C, model: &[Row], ctx: &mut Ctx) -> Outcome {
    ensure_eq!(c.len() * C::WIDTH, model.len(), "lists held");
    let (child, offsets) = c.offsets();
    ensure_eq!(offsets.len(), model.len() + 1, "offsets held");
    let mut at: u128 = 0;
    for (i, o) in offsets.iter().enumerate() {
        ensure!(offset_i64(*o) as i128 == at as i128, "offset {i} is {} instead of {at}", offset_i64(*o));
        at += model.get(i).and_then(|r| r.as_ref()).map_or(0, |l| l.len()) as u128;
    }
    ensure!(child.len as u128 >= at, "the child holds {} elements, the lists {at}", child.len);
    for i in 0..c.len() {
        let rows = &model[i * C::WIDTH..(i + 1) * C::WIDTH];
        let mut at = vec![0, 1, 2, usize::MAX];
        for r in rows.iter().flatten() {
            at.extend([r.len() / 2, r.len().saturating_sub(1), r.len(), r.len().saturating_add(1)]);
        }
        let got = c.lists(i, &at);
        let want: Vec<Option<(usize, Vec<Option<u32>>)>> =
            rows.iter().map(|r| r.as_ref().map(|l| (l.len(), at.iter().map(|i| l.view(*i)).collect()))).collect();
        ensure!(got.as_ref() == Some(&want), "item {i} at positions {at:?} reads {got:?}, expected {want:?}");
        ctx.checks += 1;
    }
    ensure!(c.lists(c.len(), &[]).is_none(), "an item past the end");
    Ok(())
}

/// Child elements beyond the last list.
fn unreferenced<C: Shape>(c: &C) -> u128 {
    let (child, offsets) = c.offsets();
    child.len as u128 - offsets.last().map_or(0, |o| offset_i64(*o)) as u128
}

fn items<C: Shape>(rows: &[Row]) -> Vec<C::Owned> {
    rows.chunks(C::WIDTH).map(C::item).collect()
}

fn runs<C: Shape>(rows: &[Row], explicit: bool, slack: usize, collect: bool, steps: &[Step], max: u128, ctx: &mut Ctx) -> Outcome {
    ctx.label(C::NAME);
    let mut model: Vec<Row> = rows.to_vec();
    if !C::NULLS {
        for r in &mut model {
            r.get_or_insert_default();
        }
    }
    let fits = |rows: &[Row]| total(rows) <= max;
    let mut c = if collect {
        ctx.label("collected");
        let made = catch_unwind(AssertUnwindSafe(|| items::<C>(&model).into_iter().collect::<C>()));
        let tried = catch_unwind(AssertUnwindSafe(|| C::try_from_iter_in(items::<C>(&model), ())))
            .map_err(|_| format!("fallible construction panicked: {}", last_panic()))?;
        ensure_eq!(tried.is_ok(), fits(&model), "fallible construction of {} elements", total(&model));
        match (made, tried) {
            (Ok(c), Ok(d)) => {
                observe(&d, &model, ctx)?;
                c
            }
            (Err(_), Err(_)) => {
                ctx.label("construction refused");
                ctx.nontrivial();
                return Ok(());
            }
            (made, _) => return Err(format!("construction of {} elements {}", total(&model), if made.is_ok() { "succeeded" } else { "panicked" })),
        }
    } else {
        let mut child = Giant::default();
        let mut offsets = vec![0u64];
        for r in &model {
            for (v, n) in r.iter().flat_map(|l| &l.0.runs) {
                child.push(*v, *n);
            }
            offsets.push(child.len as u64);
        }
        child.push(9999, slack.min(usize::MAX - child.len));
        let valid = (explicit || model.iter().any(Option::is_none)).then(|| model.iter().map(Option::is_some).collect());
        C::make(child, offsets.iter().map(|o| offset_from::<C::O>(*o as i64)).collect(), valid)?
    };
    observe(&c, &model, ctx)?;
    for step in steps {
        let loose = unreferenced(&c);
        let mut panicked = false;
        match step {
            Step::Try(rows) | Step::Extend(rows) => {
                let mut rows = rows.clone();
                rows.truncate(rows.len() / C::WIDTH * C::WIDTH);
                if !C::NULLS {
                    for r in &mut rows {
                        r.get_or_insert_default();
                    }
                }
                let mut all = model.clone();
                all.extend(rows.iter().cloned());
                let ok = fits(&all);
                ctx.label(if ok { "append fits" } else { "append refused" });
                ctx.label_if(total(&all) == max && total(&rows) > 0, "append reaches the largest offset exactly");
                if !ok || total(&all) == max && total(&rows) > 0 {
                    ctx.nontrivial();
                }
                let append = items::<C>(&rows);
                if matches!(step, Step::Try(_)) {
                    let got = catch_unwind(AssertUnwindSafe(|| c.try_extend(append)))
                        .map_err(|_| format!("fallible append panicked: {}", last_panic()))?;
                    ensure_eq!(got.is_ok(), ok, "fallible append making {} elements", total(&all));
                    if ok {
                        model = all;
                    }
                } else {
                    let got = catch_unwind(AssertUnwindSafe(|| c.extend(append)));
                    ensure!(got.is_ok() == ok, "infallible append making {} elements {}", total(&all), if ok { "panicked" } else { "succeeded" });
                    if ok {
                        model = all;
                    } else {
                        panicked = true;
                        // Whole items that fit may have been kept.
                        let kept = (c.len() * C::WIDTH).checked_sub(model.len());
                        ensure!(
                            kept.is_some_and(|k| k < rows.len() && fits(&all[..model.len() + k])),
                            "{} lists after a refused append of {} to {}",
                            c.len() * C::WIDTH,
                            rows.len(),
                            model.len()
                        );
                        model = all[..c.len() * C::WIDTH].to_vec();
                    }
                }
            }
            Step::Truncate(n) => {
                c.truncate(*n);
                model.truncate(n.saturating_mul(C::WIDTH));
                ctx.label("truncated");
            }
            Step::Reserve(n) => c.reserve(*n),
            Step::TryReserve(n) => {
                ensure!(c.try_reserve(*n).is_ok(), "reservation of {n} refused");
            }
            Step::Apart => c = c.apart()?,
        }
        observe(&c, &model, ctx)?;
        let now = unreferenced(&c);
        ensure!(panicked || now <= loose, "{now} child elements belong to no list, {loose} before this step");
    }
    Ok(())
}

/// At the largest 32-bit offset with the child really there; its untouched
/// zeroes take no memory.
fn real<C, T>(zeroes: impl Fn(usize) -> Result<C, String>, zero: T, one: T, room: usize, first: &[usize], second: &[usize], fallible: bool, ctx: &mut Ctx) -> Outcome
where
    C: CollectionRealloc<Owned = Vec<T>>,
    T: Clone + PartialEq + std::fmt::Debug,
{
    static ALONE: Mutex<()> = Mutex::new(());
    let _alone = ALONE.lock().unwrap_or_else(|e| e.into_inner());
    let max = i32::MAX as usize;
    let mut c = zeroes(max - room)?;
    let mut left = room;
    let mut model: Vec<Vec<T>> = vec![];
    for lens in [first, second] {
        let lists: Vec<Vec<T>> = lens.iter().map(|n| (0..*n).map(|i| if i % 3 == 1 { zero.clone() } else { one.clone() }).collect()).collect();
        let sum: usize = lens.iter().sum();
        let ok = sum <= left;
        let got = catch_unwind(AssertUnwindSafe(|| {
            if fallible {
                c.try_extend(lists.clone()).is_ok()
            } else {
                c.extend(lists.clone());
                true
            }
        }));
        ctx.label(if ok { "real append fits" } else { "real append refused" });
        ensure!(!fallible || got.is_ok(), "fallible append panicked: {}", last_panic());
        let got = got.unwrap_or(false);
        ensure_eq!(got, ok, "append of {sum} elements with room for {left}");
        let kept = c.len().checked_sub(1 + model.len()).ok_or("lists are missing")?;
        ensure!(if ok { kept == lists.len() } else if fallible { kept == 0 } else { kept < lists.len() }, "{kept} of {} lists kept", lists.len());
        model.extend_from_slice(&lists[..kept]);
        left = left.checked_sub(lens[..kept].iter().sum()).ok_or("kept lists do not fit")?;
        for (i, want) in model.iter().enumerate() {
            let got = c.owned(i + 1);
            ensure!(got.as_ref() == Some(want), "list {} reads {got:?} instead of {want:?}", i + 1);
            ctx.checks += 1;
        }
        ensure!(c.view(model.len() + 1).is_none(), "a list past the end");
    }
    Ok(())
}

fn real_case(kind: usize, room: usize, first: &[usize], second: &[usize], fallible: bool, ctx: &mut Ctx) -> Outcome {
    ctx.nontrivial();
    let off = |n: usize| vec![0, n as i32];
    match kind {
        0 => real(
            |n| Offsets::<Vec<u8>, i32>::try_from_parts(vec![0; n], off(n)).map_err(|e| e.to_string()),
            0,
            1,
            room,
            first,
            second,
            fallible,
            ctx,
        ),
        1 => real(
            |n| {
                let bits = Bitmap::try_from_parts(vec![0u8; n / 8 + 1], n, 0).map_err(|e| e.to_string())?;
                Offsets::<Bitmap, i32>::try_from_parts(bits, off(n)).map_err(|e| e.to_string())
            },
            false,
            true,
            room,
            first,
            second,
            fallible,
            ctx,
        ),
        _ => {
            real(
                |n| {
                    let child = FixedSizePrimitive::<u8, NonNullable>::from_buffer(vec![0; n]);
                    let lists = Offsets::try_from_parts(child, off(n)).map_err(|e| e.to_string())?;
                    Ok(Array::<Vec<u8>, VecBuffer>::from_buffer(VariableSizeList::from_buffer(lists)))
                },
                0,
                1,
                room,
                first,
                second,
                fallible,
                ctx,
            )
        }
    }
}

type Run = fn(&[Row], bool, usize, bool, &[Step], u128, &mut Ctx) -> Outcome;
fn shapes() -> &'static [(usize, u128, Run)] {
    const A: u128 = i32::MAX as u128;
    const B: u128 = i64::MAX as u128;
    &[
        (1, A, runs::<Plain<i32>>),
        (1, A, runs::<Validity<Plain<i32>>>),
        (2, A, runs::<Flatten<Plain<i32>, 2>>),
        (2, A, runs::<Flatten<Validity<Plain<i32>>, 2>>),
        (1, B, runs::<Plain<i64>>),
        (1, B, runs::<Validity<Plain<i64>>>),
        (2, B, runs::<Flatten<Plain<i64>, 2>>),
        (2, B, runs::<Flatten<Validity<Plain<i64>>, 2>>),
    ]
}

/// A list for an array with this much room left.
fn gen_row(src: &mut Src, tag: &mut u32, room: u128) -> Row {
    *tag += 10;
    let v = *tag;
    let short = |n: usize, v: u32| {
        let mut g = Giant::default();
        for i in 0..n {
            g.push(v + i as u32 % 7, 1);
        }
        Lst(g)
    };
    let list = |n: u128| {
        let n = n.min(usize::MAX as u128) as usize;
        if n < RUN { short(n, v) } else { Lst::run(v, n) }
    };
    Some(match src.weighted(&[3, 6, 3, 3, 2, 2, 3]) {
        0 => return None,
        1 => short(src.range(0, 12), v),
        2 => list(room),
        3 => list(room + 1 + src.below(3) as u128),
        4 => list(room.saturating_sub(1 + src.below(4) as u128)),
        // Sums that come back to something small when cut to an offset.
        5 => {
            let wrap = *src.pick(&[1u128 << 31, 1 << 32, 1 << 33, 1 << 63, 1 << 64]);
            list((wrap + room + src.below(6) as u128).saturating_sub(src.below(3) as u128 * i32::MAX as u128).saturating_sub(3))
        }
        _ => list((room >> src.range(0, 3)).saturating_sub(src.below(3) as u128)),
    })
}

fn gen_rows(src: &mut Src, tag: &mut u32, width: usize, max: u128, used: u128) -> Vec<Row> {
    let n = match src.weighted(&[4, 3, 1]) {
        0 => src.range(0, 2),
        1 => src.range(1, 5),
        _ => src.range(1, 30),
    };
    let mut rows = vec![];
    let mut used = used;
    for _ in 0..n * width {
        let room = max.saturating_sub(used);
        // Most lists leave room for those after them.
        let row = if src.chance(3, 5) { { let r = room.min(src.below(40) as u128); gen_row(src, tag, r) } } else { gen_row(src, tag, room) };
        used += row.as_ref().map_or(0, |l| l.len() as u128);
        rows.push(row);
    }
    rows
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P20";
    const MEMORY: u64 = 16 << 30;
    const RULE: &'static str = "collections of lists (plain, nullable, in fixed-size pairs; both offset widths) whose child stores runs, starting anywhere up to the largest offset, with unreferenced tails; then appends, fallible and not, of lists that end before, at and beyond the largest offset or wrap when cut to it, truncations and takings apart; plus some cases with the real memory at the 32-bit limit; after each step all offsets and lists are compared with the model; non-trivial: an append that reaches the largest offset exactly or is refused";
    fn cases(thorough: bool) -> u64 {
        if thorough { 90_000_000 } else { 4_500_000 }
    }
    fn generate(src: &mut Src) -> Case {
        if src.chance(1, 20_000) {
            let room = src.range(0, 30);
            let lens = |src: &mut Src| (0..src.range(1, 4)).map(|_| src.range(0, 14)).collect();
            return Case::Real { kind: src.usize(3), room, first: lens(src), second: lens(src), fallible: src.bool() };
        }
        let shape = src.usize(shapes().len());
        let (width, max, _) = shapes()[shape];
        let mut tag = 0;
        let collect = src.chance(1, 6);
        let mut rows = vec![];
        let mut used = 0;
        if collect {
            rows = gen_rows(src, &mut tag, width, max, 0);
        } else {
            // Anywhere up to the limit.
            for _ in 0..src.range(0, 3) * width {
                let row = match src.weighted(&[2, 1]) {
                    0 => gen_row(src, &mut tag, max - used),
                    _ => gen_row(src, &mut tag, 20),
                };
                if row.as_ref().map_or(0, |l| l.len() as u128) <= max - used {
                    used += row.as_ref().map_or(0, |l| l.len() as u128);
                    rows.push(row);
                } else {
                    rows.push(None);
                }
            }
        }
        let slack = match src.weighted(&[3, 2, 2]) {
            0 => 0,
            1 => src.range(1, 50),
            _ => *src.pick(&[i32::MAX as usize, u32::MAX as usize, i64::MAX as usize, usize::MAX]),
        };
        used = total(&rows);
        let mut lists = rows.len();
        let steps = (0..src.range(1, 5))
            .map(|_| match src.weighted(&[6, 4, 2, 1, 1, 1]) {
                k @ (0 | 1) => {
                    let rows = gen_rows(src, &mut tag, width, max, used);
                    if used + total(&rows) <= max {
                        used += total(&rows);
                        lists += rows.len();
                    }
                    if k == 0 { Step::Try(rows) } else { Step::Extend(rows) }
                }
                2 => {
                    let n = match src.weighted(&[4, 1]) {
                        0 => src.range(0, lists / width),
                        _ => usize::MAX - src.usize(3),
                    };
                    Step::Truncate(n)
                }
                3 => Step::Reserve(src.range(0, 20)),
                4 => Step::TryReserve(src.range(0, 20)),
                _ => Step::Apart,
            })
            .collect();
        Case::Runs { shape, rows, explicit: src.bool(), slack, collect, steps }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        match case {
            Case::Real { kind, room, first, second, fallible } => real_case(*kind, *room, first, second, *fallible, ctx),
            Case::Runs { shape, rows, explicit, slack, collect, steps } => {
                STEPS.with(|s| s.set(0));
                let (_, max, run) = shapes()[*shape];
                let out = catch_unwind(AssertUnwindSafe(|| run(rows, *explicit, *slack, *collect, steps, max, ctx)));
                // Correct but too slow for these sizes: nothing to report.
                if STEPS.with(Cell::get) > 2_000_000 {
                    ctx.label("gave up: one step per element");
                    return Ok(());
                }
                out.unwrap_or_else(|_| Err(format!("panicked: {}", last_panic())))
            }
        }
    }
}

fn main() {
    main_for::<P>();
}

//! P07: raw memory is accepted exactly when valid and comes back unchanged.
use std::{panic::{AssertUnwindSafe, catch_unwind}, sync::OnceLock};

use narrow::{
    bitmap::{Bitmap, BitmapError},
    buffer::{ArcBuffer, BoxBuffer, Buffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer},
    collection::flatten::{Flatten, FlattenError},
    length::Length,
    offset::{Offset, Offsets, OffsetsError},
    validity::{Validity, ValidityError},
};
use vharness::{
    coll::{R, Read},
    common::same_items,
    engine::{Ctx, Outcome, Prop, Src, last_panic, main_for},
    ensure, ensure_eq,
    phys::{Bm, Build, Phys, RawOpts, StoreFrom, build_bm, decode, dump_bm, gen_phys, offset_from},
    val::{Dyn, Ty, gen_dens, gen_len},
};

#[derive(Debug)]
enum Parts {
    Bits(Bm),
    Valid(Bm, Phys),
    Offs(Vec<i64>, Phys),
    Flat(Phys),
}

#[derive(Clone, Copy)]
struct Row {
    name: &'static str,
    ty: fn() -> Ty,
    run: fn(&Parts, &mut Ctx) -> Outcome,
}
impl std::fmt::Debug for Row {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}

fn quiet<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} panicked: {}", last_panic()))
}

/// The accepted collection denotes what the memory says.
fn denotes<C: Build>(c: C, ty: &Ty, p: &Phys, ctx: &mut Ctx) -> Result<C, String> {
    let want = decode(ty, p).map_err(|e| format!("accepted memory that breaks the format: {e}"))?;
    let r = R(c);
    ensure_eq!(r.len(), want.len(), "length");
    for (i, w) in want.iter().enumerate().take(200) {
        let v = r.view(i);
        ensure!(v.as_ref() == Some(w), "view({i}) is {v:?}, expected {w:?}");
    }
    same_items(&r.iter().fold(), &want, "borrowed iteration")?;
    ensure!(r.view(want.len()).is_none(), "an item past the end");
    ensure!(r.dump() == *p, "memory reads back as {:?} instead of {p:?}", r.dump());
    ctx.checks += 2 * want.len() as u64 + 4;
    if !want.is_empty() {
        ctx.nontrivial();
    }
    Ok(r.0)
}

fn bits<S: StoreFrom>(parts: &Parts, ctx: &mut Ctx) -> Outcome {
    let Parts::Bits(b) = parts else { return Err("harness: parts".into()) };
    let buffer = S::store(b.bytes.clone());
    let at = <S::For<u8> as std::borrow::Borrow<[u8]>>::borrow(&buffer).as_ptr();
    let valid = b.offset as u128 + b.bits as u128 <= 8 * b.bytes.len() as u128;
    ctx.label(if valid { "accepted" } else { "refused" });
    match quiet("Bitmap::try_from_parts", || Bitmap::<S>::try_from_parts(buffer, b.bits, b.offset))? {
        Ok(c) => {
            ensure!(valid, "accepted {b:?}");
            let moved = c.buffer_ref();
            ensure!(std::borrow::Borrow::<[u8]>::borrow(moved).as_ptr() == at || b.bytes.is_empty(), "bytes moved");
            let c = denotes(c, &Ty::Bool, &Phys::Bits(b.clone()), ctx)?;
            let (buffer, bits, offset) = c.into_parts();
            let s: &[u8] = std::borrow::Borrow::borrow(&buffer);
            ensure!(s == b.bytes && bits == b.bits && offset == b.offset, "taken apart as {s:02x?}, {bits}, {offset}");
            ensure!(s.as_ptr() == at || b.bytes.is_empty(), "taking apart moved the bytes");
        }
        Err(e) => {
            ensure!(!valid, "refused valid {b:?}: {e:?}");
            let want = BitmapError::OutOfBounds { offset: b.offset, bits: b.bits, bytes: b.bytes.len() };
            ensure_eq!(e, want, "rejection of {b:?}");
            shown(&e.to_string(), &[b.offset, b.bits], ctx)?;
        }
    }
    Ok(())
}

/// The message for people carries the numbers too.
fn shown(msg: &str, numbers: &[usize], ctx: &mut Ctx) -> Outcome {
    ctx.nontrivial();
    for n in numbers {
        ensure!(msg.contains(&n.to_string()), "message {msg:?} does not mention {n}");
    }
    Ok(())
}

fn same_child<C: Build>(c: C, p: &Phys, addrs: &[(usize, usize)]) -> Outcome {
    ensure!(c.dump() == *p, "child comes back as {:?}", c.dump());
    let mut now = Vec::new();
    c.addrs(&mut now);
    ensure!(now == addrs, "child buffers moved from {addrs:x?} to {now:x?}");
    Ok(())
}

fn valid<C: Build, S: StoreFrom>(parts: &Parts, ctx: &mut Ctx) -> Outcome {
    let Parts::Valid(b, p) = parts else { return Err("harness: parts".into()) };
    let child = C::build(p)?;
    let mut addrs = Vec::new();
    child.addrs(&mut addrs);
    let n = decode(&C::ty(), p)?.len();
    let bitmap = build_bm::<S>(b)?;
    ctx.label(if n == b.bits { "accepted" } else { "refused" });
    match quiet("Validity::try_from_parts", || Validity::<C, S>::try_from_parts(child, bitmap))? {
        Ok(c) => {
            ensure!(n == b.bits, "accepted {} validity bits for {n} slots", b.bits);
            let ty = Ty::Opt(Box::new(C::ty()));
            let whole = Phys::Valid { bitmap: Some(b.clone()), child: Box::new(p.clone()) };
            let c = denotes(c, &ty, &whole, ctx)?;
            let (child, bitmap) = c.into_parts();
            same_child(child, p, &addrs)?;
            let Some(bitmap) = bitmap else { return Err("validity lost when taken apart".into()) };
            ensure!(dump_bm(&bitmap) == *b, "validity comes back as {:?} instead of {b:?}", dump_bm(&bitmap));
        }
        Err(e) => {
            ensure!(n != b.bits, "refused equal lengths {n}: {e:?}");
            ensure_eq!(e, ValidityError::LengthMismatch { collection: n, bitmap: b.bits }, "rejection");
            shown(&e.to_string(), &[n, b.bits], ctx)?;
        }
    }
    // Without validity everything is accepted and comes back.
    let child = C::build(p)?;
    let mut addrs = Vec::new();
    child.addrs(&mut addrs);
    let c = quiet("Validity::from_collection", || Validity::<C, S>::from_collection(child))?;
    let whole = Phys::Valid { bitmap: None, child: Box::new(p.clone()) };
    let c = denotes(c, &Ty::Opt(Box::new(C::ty())), &whole, ctx)?;
    let (child, bitmap) = c.into_parts();
    ensure!(bitmap.is_none(), "validity appeared from nowhere");
    same_child(child, p, &addrs)?;
    Ok(())
}

fn offs<C: Build, O: Offset, S: StoreFrom>(parts: &Parts, ctx: &mut Ctx) -> Outcome
where
    C::Owned: Dyn,
{
    let Parts::Offs(o, p) = parts else { return Err("harness: parts".into()) };
    let child = C::build(p)?;
    let mut addrs = Vec::new();
    child.addrs(&mut addrs);
    let n = decode(&C::ty(), p)?.len();
    // Numbers as the offset type stores them.
    let o: Vec<i64> = if size_of::<O>() == 4 { o.iter().map(|x| i64::from(*x as i32)).collect() } else { o.clone() };
    let mut faults = Vec::new();
    match o.first() {
        None => faults.push(OffsetsError::Empty),
        Some(f) if *f > 0 => faults.push(OffsetsError::NonZeroFirst { first: *f as usize }),
        _ => {}
    }
    for (i, x) in o.iter().enumerate() {
        if *x < 0 {
            faults.push(OffsetsError::Negative { index: i });
        }
        if i > 0 && *x < o[i - 1] {
            faults.push(OffsetsError::NonMonotonic { index: i });
        }
    }
    if let Some(last) = o.last().filter(|l| **l > n as i64) {
        faults.push(OffsetsError::OutOfBounds { last: *last as usize, data: n });
    }
    let buffer = S::store(o.iter().map(|x| offset_from::<O>(*x)).collect::<Vec<O>>());
    let at = <S::For<O> as std::borrow::Borrow<[O]>>::borrow(&buffer).as_ptr();
    ctx.label(if faults.is_empty() { "accepted" } else { "refused" });
    ctx.label_if(faults.len() > 1, "several faults");
    match quiet("Offsets::try_from_parts", || Offsets::<C, O, S>::try_from_parts(child, buffer))? {
        Ok(c) => {
            ensure!(faults.is_empty(), "accepted offsets {o:?} over {n} items in spite of {faults:?}");
            let ty = Ty::List(size_of::<O>() == 8, Box::new(C::ty()));
            let whole = Phys::Offs { offsets: o.clone(), child: Box::new(p.clone()) };
            let c = denotes(c, &ty, &whole, ctx)?;
            let (child, buffer) = c.into_parts();
            same_child(child, p, &addrs)?;
            let s: &[O] = std::borrow::Borrow::borrow(&buffer);
            ensure!(s.as_ptr() == at, "offsets moved");
        }
        Err(e) => {
            ensure!(faults.contains(&e), "rejection {e:?} of {o:?} over {n} items names none of {faults:?}");
            let numbers = match e {
                OffsetsError::NonZeroFirst { first } => vec![first],
                OffsetsError::Negative { index } | OffsetsError::NonMonotonic { index } => vec![index],
                OffsetsError::OutOfBounds { last, data } => vec![last, data],
                OffsetsError::Empty => vec![],
            };
            shown(&e.to_string(), &numbers, ctx)?;
        }
    }
    Ok(())
}

fn flat<C: Build, const N: usize>(parts: &Parts, ctx: &mut Ctx) -> Outcome {
    let Parts::Flat(p) = parts else { return Err("harness: parts".into()) };
    let child = C::build(p)?;
    let mut addrs = Vec::new();
    child.addrs(&mut addrs);
    let n = decode(&C::ty(), p)?.len();
    let want = if N == 0 {
        Some(FlattenError::ZeroChunkSize)
    } else if n % N.max(1) != 0 {
        Some(FlattenError::NotMultiple { len: n, n: N })
    } else {
        None
    };
    ctx.label(if want.is_none() { "accepted" } else { "refused" });
    match quiet("Flatten::try_from_parts", || Flatten::<C, N>::try_from_parts(child))? {
        Ok(c) => {
            ensure!(want.is_none(), "accepted {n} items as groups of {N}");
            ensure_eq!(c.len(), n / N.max(1), "length");
            let ty = Ty::Arr(N, Box::new(C::ty()));
            let whole = Phys::Flat { n: N, child: Box::new(p.clone()) };
            let c = denotes(c, &ty, &whole, ctx)?;
            same_child(c.into_parts(), p, &addrs)?;
        }
        Err(e) => {
            ensure_eq!(Some(e), want, "rejection of {n} items as groups of {N}");
            if N > 0 {
                shown(&e.to_string(), &[n, N], ctx)?;
            }
        }
    }
    Ok(())
}

fn rows() -> &'static [Row] {
    static ROWS: OnceLock<Vec<Row>> = OnceLock::new();
    ROWS.get_or_init(|| {
        let mut v: Vec<Row> = Vec::new();
        macro_rules! row {
            ($n:expr, $ty:expr, $f:expr) => { v.push(Row { name: $n, ty: $ty, run: $f }) };
        }
        macro_rules! child {
            ($s:ty, $c:ty) => {{
                type C = $c;
                row!(concat!("Validity<", stringify!($c), ">"), <C as vharness::phys::Node>::ty, valid::<C, $s>);
                row!(concat!("Offsets<", stringify!($c), ", i32>"), <C as vharness::phys::Node>::ty, offs::<C, i32, $s>);
                row!(concat!("Offsets<", stringify!($c), ", i64>"), <C as vharness::phys::Node>::ty, offs::<C, i64, $s>);
                row!(concat!("Flatten<", stringify!($c), ", 1>"), <C as vharness::phys::Node>::ty, flat::<C, 1>);
                row!(concat!("Flatten<", stringify!($c), ", 3>"), <C as vharness::phys::Node>::ty, flat::<C, 3>);
                row!(concat!("Flatten<", stringify!($c), ", 0>"), <C as vharness::phys::Node>::ty, flat::<C, 0>);
                row!(concat!("Flatten<", stringify!($c), ", 8>"), <C as vharness::phys::Node>::ty, flat::<C, 8>);
            }};
        }
        macro_rules! store {
            ($($s:ident),*) => {$({
                #[allow(dead_code)]
                type S = kind::$s;
                row!(concat!("Bitmap<", stringify!($s), ">"), || Ty::Bool, bits::<S>);
                row!(concat!("Bitmap<", stringify!($s), ">"), || Ty::Bool, bits::<S>);
                child!(S, <S as Buffer>::For<u8>);
                child!(S, <S as Buffer>::For<i64>);
                child!(S, Bitmap<S>);
                child!(S, Validity<Bitmap<S>, S>);
                child!(S, Offsets<<S as Buffer>::For<u16>, i32, S>);
                child!(S, Flatten<Bitmap<S>, 3>);
                child!(S, Validity<Offsets<<S as Buffer>::For<u16>, i64, S>, S>);
            })*};
        }
        store!(Vec, Boxed, Rc, Arc, Slice);
        v
    })
}
mod kind {
    pub type Vec = super::VecBuffer;
    pub type Boxed = super::BoxBuffer;
    pub type Rc = super::RcBuffer;
    pub type Arc = super::ArcBuffer;
    pub type Slice = super::SliceBuffer<'static>;
}

#[derive(Debug)]
#[allow(dead_code)]
struct Case {
    row: Row,
    index: usize,
    parts: Parts,
}

fn edge(src: &mut Src, around: usize) -> usize {
    match src.weighted(&[6, 6, 2, 1, 1]) {
        0 => around,
        1 => (around + src.range(0, 3)).saturating_sub(src.range(0, 2)),
        2 => src.range(0, 2 * around + 9),
        3 => usize::MAX - src.range(0, 9),
        _ => {
            let k = src.range(3, 63);
            (1usize << k) - src.range(0, 1)
        }
    }
}

fn gen_offsets(src: &mut Src, n: usize) -> Vec<i64> {
    let len = match src.weighted(&[1, 2, 8, 2]) {
        0 => 0,
        1 => 1,
        2 => src.range(2, 10),
        _ => src.range(60, 1100),
    };
    if len == 0 {
        return vec![];
    }
    // A valid sequence that may or may not reach the child's end.
    let mut o: Vec<i64> = (1..len).map(|_| src.below(n as u64 + 1) as i64).collect();
    o.push(0);
    o.sort_unstable();
    if src.chance(1, 2)
        && let Some(l) = o.last_mut().filter(|_| len > 1)
    {
        *l = n as i64;
    }
    // Faults, none or a few, anywhere.
    for _ in 0..src.weighted(&[4, 5, 2, 1]) {
        let i = match src.weighted(&[2, 2, 3]) {
            0 => 0,
            1 => len - 1,
            _ => src.usize(len),
        };
        let odd = [
            -1,
            1,
            n as i64 + 1,
            n as i64,
            i64::from(i32::MIN),
            i64::from(i32::MAX),
            i64::MIN,
            i64::MAX,
            o[i].wrapping_sub(1),
            o[i].wrapping_add(1),
            1 << 32,
            0,
        ];
        o[i] = *src.pick(&odd);
    }
    o
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P07";
    const RULE: &'static str = "random bitmap, nullable, list or fixed-size-list parts over five storages, valid or with one or several faults at chosen places (bit windows, lengths, offsets, widths, up to the largest numbers); acceptance must equal validity by the Arrow rules computed separately, errors must name a fault really present with its numbers, accepted memory must denote its decoding and come back bit for bit from the same addresses; non-trivial: refused, or accepted with at least one item";
    fn cases(thorough: bool) -> u64 {
        if thorough { 180_000_000 } else { 9_000_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let index = src.usize(rows().len());
        let row = rows()[index];
        let ty = (row.ty)();
        let long = src.chance(1, 12);
        let n = if long { gen_len(src, (3000 / ty.weight()).max(3)) } else { src.range(0, 26) };
        let d = gen_dens(src);
        let o = RawOpts { offsets: true, omit: true };
        let parts = if row.name.starts_with("Bitmap") {
            let bytes: Vec<u8> = (0..src.range(0, 9)).map(|_| src.below(256) as u8).collect();
            let offset = match src.weighted(&[3, 3, 1]) {
                0 => src.range(0, 9),
                1 => edge(src, 8 * bytes.len()),
                _ => src.word() as usize,
            };
            let bits = match src.weighted(&[2, 6, 1, 2]) {
                0 => src.range(0, 9),
                1 => edge(src, (8 * bytes.len()).saturating_sub(offset)),
                2 => src.word() as usize,
                // Sums that wrap around to something small.
                _ => 0usize.wrapping_sub(offset).wrapping_add(src.range(0, 3)),
            };
            Parts::Bits(Bm { bytes, bits, offset })
        } else if row.name.starts_with("Validity") {
            let m = if src.chance(1, 2) { n } else { edge(src, n).min(4 * n + 20) };
            let Phys::Bits(b) = gen_phys(src, &Ty::Bool, m, d, o) else { unreachable!() };
            Parts::Valid(b, gen_phys(src, &ty, n, d, o))
        } else if row.name.starts_with("Offsets") {
            Parts::Offs(gen_offsets(src, n), gen_phys(src, &ty, n, d, o))
        } else {
            let k = if src.chance(1, 2) { n - n % 24 } else { n };
            Parts::Flat(gen_phys(src, &ty, k, d, o))
        };
        Case { row, index, parts }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        (case.row.run)(&case.parts, ctx)
    }
}

fn main() {
    main_for::<P>();
}

//! Checks shared by several properties.

use crate::{
    coll::{Grow, Maker, Read, Steps},
    engine::{Ctx, Outcome, Src},
    ensure, ensure_eq,
    feed::{Feed, Plan},
    phys::{NullInfo, Phys, RawOpts, decode, gen_phys},
    val::{Ty, Val, gen_dens, gen_items, gen_len},
};

/// Compares long sequences with a short message.
pub fn same_items(got: &[Val], want: &[Val], what: &str) -> Outcome {
    if got == want {
        return Ok(());
    }
    if got.len() != want.len() {
        let at = got.iter().zip(want).position(|(a, b)| a != b);
        return Err(format!("{what}: {} items instead of {} (first difference {at:?})", got.len(), want.len()));
    }
    let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(0);
    Err(format!("{what}: item {at} is {:?}, expected {:?}", got[at], want[at]))
}

/// Length and every borrowed read path agree with the model.
pub fn reads(c: &dyn Read, model: &[Val], ctx: &mut Ctx) -> Outcome {
    ensure_eq!(c.len(), model.len(), "length");
    ensure_eq!(c.is_empty(), model.is_empty(), "is_empty");
    for (i, want) in model.iter().enumerate() {
        match c.view(i) {
            None => return Err(format!("no item at {i} of {}", model.len())),
            Some(v) => ensure!(v == *want, "view({i}) is {v:?}, expected {want:?}"),
        }
        match c.owned(i) {
            None => return Err(format!("no owned item at {i} of {}", model.len())),
            Some(v) => ensure!(v == *want, "owned({i}) is {v:?}, expected {want:?}"),
        }
    }
    iterates(c.iter(), model, 0, "borrowed iteration")?;
    ctx.checks += 3 * model.len() as u64 + 2;
    Ok(())
}

/// Cheaper: length and one full borrowed iteration.
pub fn reads_light(c: &dyn Read, model: &[Val], ctx: &mut Ctx) -> Outcome {
    ensure_eq!(c.len(), model.len(), "length");
    iterates(c.iter(), model, 1, "borrowed iteration")?;
    ctx.checks += model.len() as u64 + 1;
    Ok(())
}

pub fn drain(mut s: Box<dyn Steps + '_>) -> Vec<Val> {
    let mut v = Vec::new();
    while let Some(x) = s.next() {
        v.push(x);
    }
    v
}

fn mix(h: u64, v: &Val) -> u64 {
    let m = |x: u64| (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29);
    match v {
        Val::N => m(1),
        Val::B(b) => m(2 + u64::from(*b)),
        Val::P(p) => m(5 ^ *p as u64 ^ (*p >> 64) as u64),
        Val::L(l) => l.iter().take(3).fold(m(l.len() as u64 + 11), mix),
    }
}

/// The iterator yields exactly the items, in order, on a route through its
/// operations chosen by the items themselves (and `salt`).
pub fn iterates(mut it: Box<dyn Steps + '_>, items: &[Val], salt: u64, what: &str) -> Outcome {
    let h = items.iter().take(6).fold(items.len() as u64 ^ (salt << 32), mix);
    let h = h ^ (h >> 32);
    let n = items.len();
    let mut at = 0;
    let mut route = String::new();
    if h % 8 >= 3 {
        // Some items one by one, then a skip.
        let k = (h >> 8) as usize % (n.min(70) + 1);
        for _ in 0..k {
            let x = it.next();
            ensure!(x.as_ref() == items.get(at), "{what}: item {at} is {x:?}, expected {:?}", items.get(at));
            at += 1;
        }
        route = format!(" after {k} items");
        if h % 8 >= 6 && n > at {
            let s = (h >> 40) as usize % (n - at);
            let x = it.nth(s);
            at += s;
            ensure!(x.as_ref() == items.get(at), "{what}{route}: skipping {s} gives {x:?}, expected {:?}", items.get(at));
            at += 1;
            route += &format!(" and a skip of {s}");
        }
    }
    let rest = &items[at..];
    ensure_eq!(it.hint(), (rest.len(), Some(rest.len())), "{what}{route}: remaining length");
    let got = match (h >> 4) % 4 {
        0 => it.fold(),
        1 => it.collect(),
        _ => {
            let v: Vec<Val> = std::iter::from_fn(|| it.next()).take(rest.len() + 1).collect();
            v
        }
    };
    same_items(&got, rest, &format!("{what}{route}"))
}

/// Physical memory decodes to the model.
pub fn memory(c: &dyn Read, ty: &Ty, model: &[Val], ctx: &mut Ctx) -> Outcome {
    let p = c.dump();
    let items = decode(ty, &p).map_err(|e| format!("memory breaks the format: {e}"))?;
    same_items(&items, model, "memory decoded by the format's rules")?;
    ctx.checks += model.len() as u64 + 1;
    Ok(())
}

pub fn consumes(c: Box<dyn Read>, model: &[Val], ctx: &mut Ctx) -> Outcome {
    iterates(c.into_steps(), model, 2, "consuming iteration")?;
    ctx.checks += model.len() as u64;
    Ok(())
}

/// Constructors.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ctor {
    Collect,
    CollectIn,
    TryCollectIn,
    DefaultExtend,
    CapacityExtend(usize),
    CapacityInTryExtend(usize),
    TryCapacityExtend(usize),
    /// Default, then appends of about equal parts.
    Parts(usize),
}

pub fn gen_ctor(src: &mut Src) -> Ctor {
    match src.weighted(&[4, 3, 3, 2, 2, 2, 2, 3]) {
        0 => Ctor::Collect,
        1 => Ctor::CollectIn,
        2 => Ctor::TryCollectIn,
        3 => Ctor::DefaultExtend,
        4 => Ctor::CapacityExtend(src.range(0, 40)),
        5 => Ctor::CapacityInTryExtend(src.range(0, 40)),
        6 => Ctor::TryCapacityExtend(src.range(0, 40)),
        _ => Ctor::Parts(src.range(1, 5)),
    }
}

/// Whether the constructor produces freshly collected memory.
pub fn is_collect(c: Ctor) -> bool {
    matches!(c, Ctor::Collect | Ctor::CollectIn | Ctor::TryCollectIn)
}

pub fn construct(m: &dyn Maker, ctor: Ctor, items: &[Val], plan: &Plan) -> Result<Box<dyn Grow>, String> {
    let feed = || Feed::new(items.to_vec(), plan);
    Ok(match ctor {
        Ctor::Collect => m.collect(feed()),
        Ctor::CollectIn => m.collect_in(feed()),
        Ctor::TryCollectIn => m.try_collect_in(feed()).map_err(|e| format!("construction failed: {e:?}"))?,
        Ctor::DefaultExtend => {
            let mut c = m.default();
            c.extend(feed());
            c
        }
        Ctor::CapacityExtend(n) => {
            let mut c = m.with_capacity(n);
            c.extend(feed());
            c
        }
        Ctor::CapacityInTryExtend(n) => {
            let mut c = m.with_capacity_in(n);
            c.try_extend(feed()).map_err(|e| format!("append failed: {e:?}"))?;
            c
        }
        Ctor::TryCapacityExtend(n) => {
            let mut c = m.try_with_capacity_in(n).map_err(|e| format!("construction failed: {e:?}"))?;
            c.extend(feed());
            c
        }
        Ctor::Parts(k) => {
            let mut c = m.default();
            let mut rest = items;
            for i in 0..k {
                let (a, b) = rest.split_at(rest.len() / (k - i));
                let f = Feed::new(a.to_vec(), plan);
                if i % 2 == 0 {
                    c.extend(f);
                } else {
                    c.try_extend(f).map_err(|e| format!("append failed: {e:?}"))?;
                }
                rest = b;
            }
            c
        }
    })
}

/// How a history starts.
#[derive(Clone, Debug)]
pub enum Start {
    Built(Ctor, Plan, Vec<Val>),
    Raw(Phys),
}

pub fn gen_start(src: &mut Src, ty: &Ty, raw: u64) -> Start {
    if src.chance(raw, 4) {
        let cap = (12_000 / ty.weight()).max(3);
        let n = gen_len(src, cap);
        let d = gen_dens(src);
        Start::Raw(gen_phys(src, ty, n, d, RawOpts { offsets: true, omit: true }))
    } else {
        let ctor = gen_ctor(src);
        let plan = Plan::gen_tame(src);
        Start::Built(ctor, plan, gen_items(src, ty))
    }
}

pub fn start(m: &dyn Maker, s: &Start) -> Result<(Box<dyn Grow>, Vec<Val>), String> {
    match s {
        Start::Built(ctor, plan, items) => Ok((construct(m, *ctor, items, plan)?, items.clone())),
        Start::Raw(p) => {
            let items = decode(&m.ty(), p).map_err(|e| format!("harness: generated invalid memory: {e}"))?;
            Ok((m.from_phys(p)?, items))
        }
    }
}

pub fn start_len(ty: &Ty, s: &Start) -> usize {
    match s {
        Start::Built(_, _, i) => i.len(),
        Start::Raw(p) => decode(ty, p).map_or(0, |v| v.len()),
    }
}

/// What the validity answers at every nullable level must be.
pub fn expected_nulls(ty: &Ty, p: &Phys, out: &mut Vec<NullInfo>) {
    match (ty, p) {
        (Ty::Opt(t), Phys::Valid { bitmap, child }) => {
            let n = decode(t, child).map_or(0, |v| v.len());
            let bits: Vec<bool> = bitmap.as_ref().map_or_else(|| vec![true; n], |b| b.to_bools());
            out.push(info(&bits));
            expected_nulls(t, child, out);
        }
        (Ty::Arr(_, t), Phys::Flat { child, .. }) | (Ty::List(_, t), Phys::Offs { child, .. }) => {
            expected_nulls(t, child, out);
        }
        _ => {}
    }
}

pub fn info(valid: &[bool]) -> NullInfo {
    let nulls = valid.iter().filter(|v| !**v).count();
    NullInfo {
        len: valid.len(),
        valid: valid.iter().map(|v| Some(*v)).collect(),
        null: valid.iter().map(|v| Some(!*v)).collect(),
        null_count: nulls,
        valid_count: valid.len() - nulls,
        any_null: nulls > 0,
        all_null: nulls == valid.len(),
        any_valid: nulls < valid.len(),
        all_valid: nulls == 0,
        far: [None; 3],
    }
}

pub fn nulls_match(c: &dyn Read, ty: &Ty, model: &[Val], ctx: &mut Ctx) -> Outcome {
    let got = c.nulls();
    if let (Ty::Opt(_), Some(outer)) = (ty, got.first()) {
        let want = info(&model.iter().map(|v| *v != Val::N).collect::<Vec<_>>());
        ensure_eq!(*outer, want, "null information of the outermost level");
    }
    let mut want = Vec::new();
    expected_nulls(ty, &c.dump(), &mut want);
    ensure_eq!(got, want, "null information per nesting level");
    ctx.checks += got.iter().map(|g| 2 * g.len as u64 + 9).sum::<u64>();
    Ok(())
}

/// One step of a mutation history.
#[derive(Clone, Debug)]
pub enum Op {
    Extend(Plan, Vec<Val>),
    TryExtend(Plan, Vec<Val>),
    /// Keeps this many of 256ths of the items, plus some.
    Truncate(u8, usize),
    Reserve(usize),
    TryReserve(usize),
    /// Continues on a clone and spoils the original.
    Clone,
    Rebuild,
}

pub fn gen_op(src: &mut Src, ty: &Ty) -> Op {
    let items = |src: &mut Src| {
        // Now and then one append passes the range of sixteen bits.
        if ty.weight() <= 2 && src.range(0, 400) == 400 {
            let n = *src.pick(&[65_535, 65_536, 65_537, 66_000, 70_001]);
            let d = gen_dens(src);
            return crate::val::gen_vals(src, ty, n, d);
        }
        let cap = (3000 / ty.weight()).max(2);
        let n = match src.weighted(&[1, 10, 3, 2, 1]) {
            0 => 0,
            1 => src.range(1, 9),
            2 => src.range(10, 40),
            3 => *src.pick(&[63, 64, 65, 128]),
            _ => gen_len(src, 1100),
        };
        let d = gen_dens(src);
        crate::val::gen_vals(src, ty, n.min(cap), d)
    };
    match src.weighted(&[6, 5, 4, 1, 1, 1, 2]) {
        0 => Op::Extend(Plan::gen_tame(src), items(src)),
        1 => Op::TryExtend(Plan::gen_tame(src), items(src)),
        2 => {
            let part = *src.pick(&[0u8, 255, 128, 200, 40]);
            let off = match src.weighted(&[15, 1]) {
                0 => src.range(0, 9),
                _ => *src.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 2 + 1, usize::MAX / 8 + 1, 1 << 32]),
            };
            Op::Truncate(part, off)
        }
        3 => Op::Reserve(src.range(0, 200)),
        4 => Op::TryReserve(src.range(0, 200)),
        5 => Op::Clone,
        _ => Op::Rebuild,
    }
}

pub fn truncate_to(part: u8, off: usize, len: usize) -> usize {
    if part == 255 { len.saturating_sub(4).saturating_add(off) } else { ((len * part as usize) / 256).saturating_add(off) }
}

pub fn apply(c: &mut Box<dyn Grow>, model: &mut Vec<Val>, op: &Op) -> Outcome {
    match op {
        Op::Extend(plan, items) => {
            c.extend(Feed::new(items.clone(), plan));
            model.extend(items.iter().cloned());
        }
        Op::TryExtend(plan, items) => {
            c.try_extend(Feed::new(items.clone(), plan))
                .map_err(|e| format!("try_extend of {} items failed: {e:?}", items.len()))?;
            model.extend(items.iter().cloned());
        }
        Op::Truncate(part, off) => {
            let n = truncate_to(*part, *off, model.len());
            c.truncate(n);
            model.truncate(n);
        }
        Op::Reserve(n) => c.reserve(*n),
        Op::TryReserve(n) => c.try_reserve(*n).map_err(|e| format!("try_reserve({n}) failed: {e:?}"))?,
        Op::Clone => {
            if let Some(mut d) = c.try_clone() {
                std::mem::swap(c, &mut d);
                d.truncate(model.len() / 2);
                let again: Vec<Val> = model.iter().take(20).rev().cloned().collect();
                d.extend(Feed::new(again, &Plan::PLAIN));
            }
        }
        Op::Rebuild => replace(c, |c| c.rebuild())?,
    }
    Ok(())
}

fn replace(c: &mut Box<dyn Grow>, f: impl FnOnce(Box<dyn Grow>) -> Result<Box<dyn Grow>, String>) -> Outcome {
    struct Hole;
    impl Read for Hole {
        fn len(&self) -> usize { 0 }
        fn is_empty(&self) -> bool { true }
        fn view(&self, _: usize) -> Option<Val> { None }
        fn owned(&self, _: usize) -> Option<Val> { None }
        fn probe(&self, _: usize, _: &[usize]) -> Result<Option<Val>, String> { Ok(None) }
        fn iter(&self) -> Box<dyn Steps + '_> { unreachable!() }
        fn into_steps<'a>(self: Box<Self>) -> Box<dyn Steps + 'a> where Self: 'a { unreachable!() }
        fn inner(&self, _: usize, _: crate::coll::Inner<'_>) -> Result<(), String> { Ok(()) }
        fn touch(&self) -> crate::quiet::Touch { unreachable!() }
        fn into_touch(self: Box<Self>) -> crate::quiet::Sum { unreachable!() }
        fn dump(&self) -> Phys { unreachable!() }
        fn addrs(&self) -> Vec<(usize, usize)> { vec![] }
        fn nulls(&self) -> Vec<NullInfo> { vec![] }
    }
    impl Grow for Hole {
        fn extend(&mut self, _: Feed) {}
        fn try_extend(&mut self, _: Feed) -> Result<(), narrow::collection::AllocError> { Ok(()) }
        fn reserve(&mut self, _: usize) {}
        fn try_reserve(&mut self, _: usize) -> Result<(), narrow::collection::AllocError> { Ok(()) }
        fn truncate(&mut self, _: usize) {}
        fn try_clone(&self) -> Option<Box<dyn Grow>> { None }
        fn reports(&self) -> Option<usize> { None }
        fn rebuild(self: Box<Self>) -> Result<Box<dyn Grow>, String> { Ok(self) }
        fn any(self: Box<Self>) -> Box<dyn std::any::Any> { unreachable!() }
    }
    let old = std::mem::replace(c, Box::new(Hole));
    *c = f(old)?;
    Ok(())
}

//! P21: reserved space suffices and never changes contents.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    panic::{AssertUnwindSafe, catch_unwind},
    sync::OnceLock,
};

use vharness::{
    budget,
    coll::{Grow, Maker},
    common::{Op, Start, apply, consumes, gen_op, gen_start, memory, nulls_match, reads, reads_light, start},
    engine::{Ctx, Outcome, Prop, Src, last_panic, main_for},
    ensure, ensure_eq,
    feed::{Feed, Plan},
    phys::{decode, leftovers},
    val::{Ty, Val, gen_dens, gen_len, gen_vals},
};
use vtypes::{Mk, makers};

/// Notices when watched memory is moved or freed.
struct Watching;
thread_local! {
    static WATCHED: Cell<([usize; 16], usize)> = const { Cell::new(([0; 16], 0)) };
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}
fn notice(p: *mut u8) {
    let _ = WATCHED.try_with(|w| {
        let (list, n) = w.get();
        if list[..n].contains(&(p as usize)) {
            EVENTS.with(|e| e.set(e.get() + 1));
        }
    });
}
unsafe impl GlobalAlloc for Watching {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        notice(p);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        notice(p);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static GLOBAL: Watching = Watching;

/// Whether an item always takes the same space.
fn flat(t: &Ty) -> bool {
    match t {
        Ty::Opt(t) | Ty::Arr(_, t) => flat(t),
        // An item of its own is moved in, whatever it holds.
        Ty::Plain(_) => true,
        Ty::List(..) => false,
        _ => true,
    }
}

/// Whether no list in it holds more than one element, so that as many
/// elements as items are reserved for suffice at every level.
fn thin(v: &Val, t: &Ty) -> bool {
    match (v, t) {
        (_, Ty::Plain(_)) => true,
        (Val::N, _) => true,
        (v, Ty::Opt(t)) => thin(v, t),
        (Val::L(l), Ty::List(_, t)) => l.len() <= 1 && l.iter().all(|v| thin(v, t)),
        (Val::L(l), Ty::Arr(_, t)) => l.iter().all(|v| thin(v, t)),
        _ => true,
    }
}
fn make_thin(v: &mut Val, t: &Ty) {
    match (v, t) {
        (_, Ty::Plain(_)) | (Val::N, _) => {}
        (v, Ty::Opt(t)) => make_thin(v, t),
        (Val::L(l), Ty::List(_, t)) => {
            l.truncate(1);
            l.iter_mut().for_each(|v| make_thin(v, t));
        }
        (Val::L(l), Ty::Arr(_, t)) => l.iter_mut().for_each(|v| make_thin(v, t)),
        _ => {}
    }
}

fn pool() -> &'static [(&'static dyn Maker, bool)] {
    static M: OnceLock<Vec<(&'static dyn Maker, bool)>> = OnceLock::new();
    M.get_or_init(|| {
        let all = makers().iter().map(|m| (*m, false)).chain(vbudgeted::budgeted().into_iter().map(|m| (m, true)));
        all.collect()
    })
}

#[derive(Debug)]
enum Reserve {
    Infallible,
    Fallible,
}

#[derive(Debug)]
enum Begin {
    /// An empty collection with space for so many.
    With(u8, usize),
    From(Start),
}

#[derive(Debug)]
enum Step {
    /// Reserve for these items plus some, then append them, in parts.
    Fill { how: Reserve, spare: usize, items: Vec<Val>, parts: usize, plan: Plan, smaller: usize },
    Absurd(usize),
    Op(Op),
}

#[derive(Debug)]
struct Case {
    mk: Mk,
    budgeted: bool,
    begin: Begin,
    first: Option<(Vec<Val>, usize, Plan)>,
    steps: Vec<Step>,
}

fn gen_absurd(src: &mut Src) -> usize {
    match src.weighted(&[3, 2, 2, 2]) {
        0 => usize::MAX - src.range(0, 70),
        1 => {
            let k = src.range(1, 17);
            usize::MAX / k - src.range(0, 2)
        }
        2 => (1usize << src.range(59, 63)) + src.range(0, 2) - 1,
        _ => (src.word() | 1 << 60) as usize,
    }
}

fn gen_list(src: &mut Src, ty: &Ty) -> Vec<Val> {
    let n = match src.weighted(&[4, 3, 2]) {
        0 => src.range(1, 20),
        1 => src.range(1, 140),
        _ => gen_len(src, 2200),
    };
    let d = gen_dens(src);
    let mut items = gen_vals(src, ty, n.min((6000 / ty.weight()).max(3)), d);
    if !flat(ty) && src.chance(2, 3) {
        items.iter_mut().for_each(|v| make_thin(v, ty));
    }
    items
}

/// Appends in parts and requires that no memory is requested for it.
fn append(c: &mut Box<dyn Grow>, items: &[Val], parts: usize, plan: &Plan, budgeted: bool, ty: &Ty, ctx: &mut Ctx) -> Outcome {
    // An unreferenced tail of list elements goes away with the first append,
    // and the space made behind it may or may not be of use.
    let strict = items.iter().all(|v| thin(v, ty)) && !items.is_empty() && leftovers(ty, &c.dump()) == 0;
    ctx.label_if(strict && !flat(ty), "lists of at most one element");
    let state = budget::ambient();
    let before = c.addrs();
    let requests = state.0.requests.get();
    if strict && !budgeted {
        let mut w = [0; 16];
        let n = before.len().min(16);
        for (i, (p, _)) in before.iter().take(16).enumerate() {
            w[i] = *p;
        }
        EVENTS.with(|e| e.set(0));
        WATCHED.with(|x| x.set((w, n)));
    }
    let mut rest = items;
    let mut out = Ok(());
    for i in 0..parts {
        let (a, b) = rest.split_at(rest.len() / (parts - i));
        let f = Feed::new(a.to_vec(), plan);
        if i % 2 == 0 {
            c.extend(f);
        } else if c.try_extend(f).is_err() {
            out = Err(format!("fallible append of {} items within the reserved space failed", a.len()));
        }
        rest = b;
    }
    WATCHED.with(|x| x.set(([0; 16], 0)));
    out?;
    if strict {
        if budgeted {
            let asked = state.0.requests.get() - requests;
            ensure_eq!(asked, 0, "memory requests while appending {} items to reserved space", items.len());
            ctx.label("appended without a request");
        } else {
            let moved = EVENTS.with(Cell::get);
            let at = |a: &[(usize, usize)]| a.iter().map(|x| x.0).collect::<Vec<_>>();
            ensure!(
                moved == 0 && at(&before) == at(&c.addrs()),
                "appending {} items to reserved space reallocated {moved} buffers",
                items.len()
            );
            ctx.label("appended in place");
        }
        ctx.checks += 1;
        ctx.nontrivial();
    }
    Ok(())
}

fn observe(c: &dyn Grow, ty: &Ty, model: &[Val], ctx: &mut Ctx) -> Outcome {
    reads_light(c, model, ctx)?;
    memory(c, ty, model, ctx)?;
    nulls_match(c, ty, model, ctx)
}

struct P;
impl P {
    fn history(case: &Case, ctx: &mut Ctx) -> Outcome {
        let m = case.mk.0;
        let ty = m.ty();
        let (mut c, mut model) = match &case.begin {
            Begin::From(s) => start(m, s)?,
            Begin::With(how, n) => {
                let c = match how {
                    0 => m.with_capacity(*n),
                    1 => m.with_capacity_in(*n),
                    _ => m.try_with_capacity_in(*n).map_err(|_| format!("capacity for {n} items refused"))?,
                };
                // Just like a default one.
                let d = m.default();
                for e in [&c, &d] {
                    ensure!(e.len() == 0 && e.is_empty(), "an empty collection with capacity has {} items", e.len());
                    observe(&**e, &ty, &[], ctx)?;
                    reads(&**e, &[], ctx)?;
                    ensure_eq!(decode(&ty, &e.dump()), Ok(vec![]), "memory of an empty collection");
                }
                ctx.label("with capacity");
                (c, vec![])
            }
        };
        if let Some((items, parts, plan)) = &case.first {
            append(&mut c, items, *parts, plan, case.budgeted, &ty, ctx)?;
            model.extend(items.iter().cloned());
            observe(&*c, &ty, &model, ctx)?;
        }
        for step in &case.steps {
            match step {
                Step::Fill { how, spare, items, parts, plan, smaller } => {
                    let n = items.len() + spare;
                    for n in [n, *smaller] {
                        match how {
                            Reserve::Infallible => c.reserve(n),
                            Reserve::Fallible => c.try_reserve(n).map_err(|_| format!("space for {n} more items refused"))?,
                        }
                        observe(&*c, &ty, &model, ctx).map_err(|e| format!("after reserving {n}: {e}"))?;
                    }
                    append(&mut c, items, *parts, plan, case.budgeted, &ty, ctx)?;
                    model.extend(items.iter().cloned());
                }
                Step::Absurd(n) => {
                    let r = catch_unwind(AssertUnwindSafe(|| c.try_reserve(*n)))
                        .map_err(|_| format!("try_reserve({n}) panicked: {}", last_panic()))?;
                    ensure!(r.is_err(), "space for {n} more items was granted");
                    let r = catch_unwind(AssertUnwindSafe(|| m.try_with_capacity_in(*n).is_err()))
                        .map_err(|_| format!("try_with_capacity_in({n}) panicked: {}", last_panic()))?;
                    ensure!(r, "capacity for {n} items was granted");
                    ctx.label("over-large request");
                }
                Step::Op(op) => apply(&mut c, &mut model, op)?,
            }
            observe(&*c, &ty, &model, ctx)?;
        }
        reads(&*c, &model, ctx)?;
        consumes(c, &model, ctx)
    }
}
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P21";
    const RULE: &'static str = "random type over vectors or over storage that counts its requests; created with capacity, compared with a default one and filled; or any start, raw memory included, with reservations (also a second smaller one) followed by appends in parts of up to as many items, over-large requests and other operations between; contents are compared after every step, and appends to reserved space of fixed-width items, or of lists of at most one element at every level, may neither request nor move memory; non-trivial: such an append";
    const ASSUMPTIONS: &'static [&'static str] = &["requests of 2^58 items or more are over-large on any machine"];
    fn cases(thorough: bool) -> u64 {
        if thorough { 5_200_000 } else { 260_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let mut pick = *src.pick(pool());
        if !flat(&pick.0.ty()) && src.chance(1, 2) {
            pick = *src.pick(pool());
        }
        let (mk, budgeted) = (Mk(pick.0), pick.1);
        let ty = mk.0.ty();
        let (begin, first) = if src.chance(2, 5) {
            let items = gen_list(src, &ty);
            let cap = items.len() + if src.chance(1, 2) { 0 } else { src.range(0, 70) };
            (Begin::With(src.below(3) as u8, cap), Some((items, src.range(1, 4), Plan::gen_tame(src))))
        } else {
            (Begin::From(gen_start(src, &ty, 2)), None)
        };
        let n = src.range(if first.is_some() { 0 } else { 1 }, 4);
        let steps = (0..n)
            .map(|_| match src.weighted(&[6, 1, 4]) {
                0 => Step::Fill {
                    how: if src.bool() { Reserve::Infallible } else { Reserve::Fallible },
                    spare: if src.bool() { 0 } else { src.range(0, 40) },
                    items: gen_list(src, &ty),
                    parts: src.range(1, 5),
                    plan: Plan::gen_tame(src),
                    smaller: src.range(0, 3),
                },
                1 => Step::Absurd(gen_absurd(src)),
                _ => Step::Op(gen_op(src, &ty)),
            })
            .collect();
        Case { mk, budgeted, begin, first, steps }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        budget::fresh_ambient();
        WATCHED.with(|x| x.set(([0; 16], 0)));
        ctx.label(if case.budgeted { "counting storage" } else { "vectors" });
        Self::history(case, ctx)
    }
}

fn main() {
    main_for::<P>();
}

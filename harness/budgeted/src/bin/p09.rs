//! P09: a failed allocation leaves the collection unchanged and usable.
use std::{
    panic::{AssertUnwindSafe, catch_unwind},
    sync::OnceLock,
};

use vharness::{
    budget::{self, BAlloc},
    coll::{Grow, Maker},
    common::{Op, apply, consumes, gen_op, memory, nulls_match, reads, reads_light},
    engine::{Ctx, Outcome, Prop, Src, last_panic, main_for},
    ensure, ensure_eq,
    feed::{Feed, Plan},
    refuse::{self, Refuse, Refusing},
    phys::{Phys, RawOpts, decode, gen_phys, leftovers},
    val::{Ty, Val, gen_dens, gen_items_cap, gen_len, gen_vals},
};
use vtypes::{Mk, boxed, makers};

fn budgeted() -> &'static [&'static dyn Maker] {
    static M: OnceLock<Vec<&'static dyn Maker>> = OnceLock::new();
    M.get_or_init(vbudgeted::budgeted)
}

#[derive(Debug)]
enum Begin {
    Collect(Refuse, Plan, Vec<Val>),
    Capacity(Refuse, usize),
    /// The infallible constructors, without refusals.
    CollectIn(Plan, Vec<Val>),
    CapacityIn(usize),
    Raw(Phys),
}

#[derive(Debug)]
enum Step {
    TryExtend(Refuse, Plan, Vec<Val>),
    TryReserve(Refuse, usize),
    Op(Op),
}

#[derive(Debug)]
struct Case {
    mk: Mk,
    /// Real vectors instead of scheduled storage; it is the global allocator
    /// that refuses.
    real: bool,
    /// Boxed slices, which are only constructed.
    boxed: Option<usize>,
    begin: Begin,
    steps: Vec<Step>,
}

fn schedule(a: &BAlloc, r: Refuse) {
    let s = &a.0;
    s.refuse_at.set(None);
    s.refuse_rest.set(false);
    s.budget.set(None);
    match r {
        Refuse::Never => {}
        Refuse::Once(n) => s.refuse_at.set(Some(s.requests.get() + n)),
        Refuse::From(n) => {
            s.refuse_at.set(Some(s.requests.get() + n));
            s.refuse_rest.set(true);
        }
        Refuse::Budget(b) => s.budget.set(Some(s.granted.get().saturating_add(b))),
    }
}

fn gen_refuse(src: &mut Src, scale: usize) -> Refuse {
    let at = |src: &mut Src| match src.weighted(&[4, 2]) {
        0 => src.below(8),
        _ => src.below(scale as u64 + 2),
    };
    match src.weighted(&[2, 5, 4, 2]) {
        0 => Refuse::Never,
        1 => Refuse::Once(at(src)),
        2 => Refuse::From(at(src)),
        _ => Refuse::Budget(src.range(0, 4 * scale + 64)),
    }
}

/// Capacities no machine can provide for any of the types.
fn gen_absurd(src: &mut Src) -> usize {
    match src.weighted(&[3, 2, 2, 2]) {
        0 => usize::MAX - src.range(0, 70),
        1 => {
            let k = src.range(1, 17);
            usize::MAX / k - src.range(0, 2)
        }
        2 => (1usize << src.range(59, 63)) + src.range(0, 2) - 1,
        _ => (src.word() | 1 << 60) as usize,
    }
}
fn absurd(n: usize) -> bool {
    n >= 1 << 58
}

fn gen_cap(src: &mut Src) -> usize {
    if src.chance(1, 3) { gen_absurd(src) } else { src.range(0, 300) }
}

/// Weighted towards long appends, so that refusals come in the middle.
fn gen_list(src: &mut Src, ty: &Ty) -> Vec<Val> {
    if src.chance(1, 4) {
        let n = gen_len(src, (6000 / ty.weight()).max(3));
        let d = gen_dens(src);
        gen_vals(src, ty, n, d)
    } else {
        gen_items_cap(src, ty, 60)
    }
}

#[global_allocator]
static GLOBAL: Refusing = Refusing;

/// The allocator behind the collection.
enum Source {
    /// Handed over with it.
    Given(BAlloc),
    /// The global one.
    Global,
}
impl Source {
    fn schedule(&self, r: Refuse) {
        match self {
            Source::Given(a) => schedule(a, r),
            Source::Global => refuse::schedule(r),
        }
    }
    /// Requests refused, ever or since the schedule began.
    fn refused(&self) -> u64 {
        match self {
            Source::Given(a) => a.0.refused.get(),
            Source::Global => refuse::refused(),
        }
    }
}

struct P;
impl P {
    fn begin(case: &Case, a: &BAlloc, src: &Source, ctx: &mut Ctx) -> Result<Option<(Box<dyn Grow>, Vec<Val>)>, String> {
        let m = case.mk.0;
        let refused = |hit: bool, what: &str, r: Refuse, n: usize, ctx: &mut Ctx| -> Result<(), String> {
            ensure!(
                hit || absurd(n),
                "{what} failed although the allocator refused nothing ({r:?})"
            );
            ctx.label("construction refused");
            ctx.nontrivial();
            Ok(())
        };
        let guard = |what: &str, f: &mut dyn FnMut() -> Result<Box<dyn Grow>, ()>| {
            budget::hand_over(a);
            catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("{what} panicked: {}", last_panic()))
        };
        Ok(match &case.begin {
            Begin::Collect(r, plan, items) => {
                src.schedule(*r);
                let c = guard("fallible construction", &mut || m.try_collect_in(Feed::new(items.clone(), plan)).map_err(drop))?;
                let hit = src.refused() > 0;
                src.schedule(Refuse::Never);
                match c {
                    Ok(c) => Some((c, items.clone())),
                    Err(()) => {
                        refused(hit, "fallible construction", *r, 0, ctx)?;
                        // Without a refusal the very same succeeds.
                        let again = guard("fallible construction", &mut || {
                            m.try_collect_in(Feed::new(items.clone(), plan)).map_err(drop)
                        })?;
                        let Ok(c) = again else { return Err("fallible construction fails without a refusal".into()) };
                        Some((c, items.clone()))
                    }
                }
            }
            Begin::Capacity(r, n) => {
                src.schedule(*r);
                let c = guard("construction with capacity", &mut || m.try_with_capacity_in(*n).map_err(drop))?;
                let hit = src.refused() > 0;
                src.schedule(Refuse::Never);
                match c {
                    Ok(c) => {
                        ensure!(!absurd(*n), "capacity for {n} items was granted");
                        Some((c, vec![]))
                    }
                    Err(()) => {
                        refused(hit, "construction with capacity", *r, *n, ctx)?;
                        ctx.label_if(absurd(*n), "absurd size");
                        None
                    }
                }
            }
            Begin::CollectIn(plan, items) => {
                let c = guard("construction", &mut || Ok(m.collect_in(Feed::new(items.clone(), plan))))?;
                Some((c.map_err(|()| "")?, items.clone()))
            }
            Begin::CapacityIn(n) => {
                let c = guard("construction with capacity", &mut || Ok(m.with_capacity_in(*n)))?;
                Some((c.map_err(|()| "")?, vec![]))
            }
            Begin::Raw(p) => {
                let ambient = budget::ambient();
                budget::install(a);
                let c = m.from_phys(p);
                budget::install(&ambient);
                Some((c?, decode(&m.ty(), p)?))
            }
        })
    }
}
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P09";
    const RULE: &'static str = "random type over storage whose allocator refuses a chosen request, everything from a request on, or beyond a byte budget; fallible constructions, appends and reservations (absurd sizes included), refused and not, in a history; a refusal must come back as an error with contents, memory and null information unchanged and later steps working, success must equal the plain list, and no memory may come from any allocator but the given one; non-trivial: something was refused";
    fn cases(thorough: bool) -> u64 {
        if thorough { 12_000_000 } else { 600_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let real = src.chance(1, 3);
        let mk = Mk(if real { *src.pick(makers()) } else { *src.pick(budgeted()) });
        let boxed = (real && src.chance(1, 5)).then(|| src.usize(boxed().len()));
        let ty = boxed.map_or(mk.0.ty(), |b| vtypes::boxed()[b].ty());
        let begin = match src.weighted(if boxed.is_some() { &[5, 2] } else { &[5, 3, 2, 1, 4] }) {
            0 => {
                let items = gen_list(src, &ty);
                let r = gen_refuse(src, items.len());
                Begin::Collect(r, Plan::gen_tame(src), items)
            }
            1 => {
                let n = gen_cap(src);
                Begin::Capacity(gen_refuse(src, 4), n)
            }
            2 => {
                let items = gen_list(src, &ty);
                Begin::CollectIn(Plan::gen_tame(src), items)
            }
            3 => Begin::CapacityIn(src.range(0, 300)),
            _ => {
                let n = gen_len(src, (3000 / ty.weight()).max(3));
                let d = gen_dens(src);
                Begin::Raw(gen_phys(src, &ty, n, d, RawOpts { offsets: true, omit: true }))
            }
        };
        let n = if boxed.is_some() { 0 } else { src.range(0, 5) };
        let steps = (0..n)
            .map(|_| match src.weighted(&[6, 2, 2]) {
                0 => {
                    let items = gen_list(src, &ty);
                    let r = gen_refuse(src, items.len());
                    Step::TryExtend(r, Plan::gen_tame(src), items)
                }
                1 => {
                    let n = gen_cap(src);
                    Step::TryReserve(gen_refuse(src, 4), n)
                }
                _ => Step::Op(gen_op(src, &ty)),
            })
            .collect();
        Case { mk, real, boxed, begin, steps }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let others = budget::fresh_ambient();
        let a = budget::separate();
        let r = match case.boxed {
            Some(b) => Self::built(b, case, ctx),
            None => Self::history(case, &a, ctx),
        };
        refuse::schedule(Refuse::Never);
        // An unconsumed handle must not leak into the next case.
        budget::hand_over(&a);
        let _ = BAlloc::default();
        r?;
        ensure_eq!(others.0.requests.get(), 0, "requests to an allocator other than the one given");
        Ok(())
    }
}
impl P {
    fn built(row: usize, case: &Case, ctx: &mut Ctx) -> Outcome {
        let f = boxed()[row];
        ctx.label("boxed slices");
        let (items, n, r) = match &case.begin {
            Begin::Collect(r, _, items) => (&items[..], None, *r),
            Begin::Capacity(r, n) => (&[][..], Some(*n), *r),
            _ => unreachable!(),
        };
        let attempt = || {
            let build = || match &case.begin {
                Begin::Collect(_, plan, items) => f.try_collect_in(Feed::new(items.clone(), plan)),
                _ => f.try_with_capacity_in(n.unwrap_or(0)),
            };
            catch_unwind(AssertUnwindSafe(build)).map_err(|_| format!("fallible construction panicked: {}", last_panic()))
        };
        refuse::schedule(r);
        let c = attempt()?;
        let hit = refuse::refused() > 0;
        refuse::schedule(Refuse::Never);
        let c = match c {
            Ok(c) => c,
            Err(_) => {
                let over = n.is_some_and(absurd);
                ensure!(hit || over, "fallible construction failed although nothing was refused ({r:?})");
                ctx.label("construction refused");
                ctx.nontrivial();
                if over {
                    return Ok(());
                }
                attempt()?.map_err(|_| "fallible construction fails without a refusal")?
            }
        };
        ensure!(!n.is_some_and(absurd), "capacity for {n:?} items was granted");
        reads(&*c, items, ctx)?;
        memory(&*c, &f.ty(), items, ctx)?;
        consumes(c, items, ctx)
    }
    fn history(case: &Case, a: &BAlloc, ctx: &mut Ctx) -> Outcome {
        let ty = case.mk.0.ty();
        ctx.label(if case.real { "vectors" } else { "scheduled storage" });
        let src = if case.real { Source::Global } else { Source::Given(a.clone()) };
        let Some((mut c, mut model)) = Self::begin(case, a, &src, ctx)? else { return Ok(()) };
        reads_light(&*c, &model, ctx)?;
        let own = |c: &dyn Grow| {
            ensure!(case.real || c.reports() == Some(a.id()), "the collection reports another allocator than the one given");
            Ok(())
        };
        own(&*c)?;
        for (k, step) in case.steps.iter().enumerate() {
            let at = |e: String| format!("after step {k}: {e}");
            src.schedule(Refuse::Never);
            let before = src.refused();
            let unused = leftovers(&ty, &c.dump());
            match step {
                Step::TryExtend(r, plan, items) => {
                    src.schedule(*r);
                    let out = catch_unwind(AssertUnwindSafe(|| c.try_extend(Feed::new(items.clone(), plan))))
                        .map_err(|_| format!("step {k}: try_extend panicked: {}", last_panic()))?;
                    let hit = src.refused() > before;
                    src.schedule(Refuse::Never);
                    if out.is_ok() {
                        model.extend(items.iter().cloned());
                    } else {
                        ensure!(hit, "step {k}: try_extend failed although nothing was refused");
                        let left = leftovers(&ty, &c.dump());
                        ensure!(left <= unused, "step {k}: the refused append leaves {left} list elements without a list, {unused} before");
                        ctx.label("append refused");
                        ctx.label_if(items.len() > 1024, "long append refused");
                        ctx.nontrivial();
                    }
                    reads(&*c, &model, ctx).map_err(at)?;
                    memory(&*c, &ty, &model, ctx).map_err(at)?;
                    nulls_match(&*c, &ty, &model, ctx).map_err(at)?;
                }
                Step::TryReserve(r, n) => {
                    src.schedule(*r);
                    let out = catch_unwind(AssertUnwindSafe(|| c.try_reserve(*n)))
                        .map_err(|_| format!("step {k}: try_reserve({n}) panicked: {}", last_panic()))?;
                    let hit = src.refused() > before;
                    src.schedule(Refuse::Never);
                    if out.is_err() {
                        ensure!(hit || absurd(*n), "step {k}: try_reserve({n}) failed although nothing was refused");
                        ctx.label("reservation refused");
                        ctx.label_if(absurd(*n), "absurd size");
                        ctx.nontrivial();
                    } else {
                        ensure!(!absurd(*n), "step {k}: space for {n} more items was granted");
                    }
                    reads(&*c, &model, ctx).map_err(at)?;
                    memory(&*c, &ty, &model, ctx).map_err(at)?;
                    nulls_match(&*c, &ty, &model, ctx).map_err(at)?;
                }
                Step::Op(op) => {
                    apply(&mut c, &mut model, op).map_err(at)?;
                    reads_light(&*c, &model, ctx).map_err(at)?;
                }
            }
        }
        own(&*c)?;
        reads(&*c, &model, ctx)?;
        memory(&*c, &ty, &model, ctx)?;
        nulls_match(&*c, &ty, &model, ctx)?;
        consumes(c, &model, ctx)
    }
}

fn main() {
    main_for::<P>();
}

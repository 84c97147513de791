//! P08: a panicking input iterator never corrupts a collection.
use std::panic::{AssertUnwindSafe, catch_unwind};

use vharness::{
    common::{
        Op, Start, apply, consumes, drain, gen_op, gen_start, memory, nulls_match, reads, reads_light,
        start,
    },
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure,
    feed::{Feed, Plan, gen_hint},
    val::{Val, gen_dens, gen_len, gen_vals},
};
use vtypes::{Mk, gen_maker};

#[derive(Debug)]
enum Step {
    Op(Op),
    Panic { fallible: bool, plan: Plan, items: Vec<Val> },
}

#[derive(Debug)]
struct Case {
    mk: Mk,
    start: Start,
    steps: Vec<Step>,
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P08";
    const RULE: &'static str = "random type, start and history in which at least one append is fed by an iterator that panics at a chosen item (chunk and byte boundaries favoured, any truthful size hint); after the caught panic the contents must be the old items and a prefix of those produced, everything readable, countable and decodable, and all later steps must act on exactly those items; non-trivial: the panic came after the first item or after earlier contents";
    fn cases(thorough: bool) -> u64 {
        if thorough { 4_000_000 } else { 200_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let mk = gen_maker(src);
        let ty = mk.0.ty();
        let start = gen_start(src, &ty, 1);
        let n = src.range(1, 5);
        let bad = src.usize(n);
        let steps = (0..n)
            .map(|i| {
                if i == bad || src.chance(1, 6) {
                    let len = match src.weighted(&[5, 2, 2]) {
                        0 => src.range(0, 20),
                        1 => gen_len(src, (6000 / ty.weight()).max(3)),
                        _ => (1024 + src.range(0, 40)).min((9000 / ty.weight()).max(3)),
                    };
                    let d = gen_dens(src);
                    let items = gen_vals(src, &ty, len, d);
                    let at = match src.weighted(&[3, 2, 2]) {
                        0 => len,
                        1 => src.range(0, len),
                        _ => len - src.range(0, len.min(12)),
                    };
                    let plan = Plan { hint: gen_hint(src, false), panic_at: Some(at), ..Plan::EXACT };
                    Step::Panic { fallible: src.chance(1, 3), plan, items }
                } else {
                    Step::Op(gen_op(src, &ty))
                }
            })
            .collect();
        Case { mk, start, steps }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let ty = case.mk.0.ty();
        let (mut c, mut model) = start(case.mk.0, &case.start)?;
        for (k, step) in case.steps.iter().enumerate() {
            let at = |e: String| format!("after step {k}: {e}");
            match step {
                Step::Op(op) => {
                    apply(&mut c, &mut model, op).map_err(at)?;
                    reads_light(&*c, &model, ctx).map_err(at)?;
                }
                Step::Panic { fallible, plan, items } => {
                    let feed = Feed::new(items.clone(), plan);
                    let produced = std::rc::Rc::clone(&feed.produced);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        if *fallible { c.try_extend(feed).map_err(|e| format!("{e:?}")) } else { Ok(c.extend(feed)) }
                    }));
                    ensure!(r.is_err(), "step {k}: the iterator's panic did not come out: {r:?}");
                    let old = model.len();
                    let now = c.len();
                    ensure!(
                        now >= old && now - old <= produced.get(),
                        "after step {k}: {now} items after a caught panic, with {old} before and {} produced",
                        produced.get()
                    );
                    model.extend(items[..now - old].iter().cloned());
                    reads(&*c, &model, ctx).map_err(at)?;
                    // Past the end nothing shows.
                    for i in now..now + 70 {
                        ensure!(c.view(i).is_none(), "after step {k}: item {i} of {now} is {:?}", c.view(i));
                    }
                    memory(&*c, &ty, &model, ctx).map_err(at)?;
                    nulls_match(&*c, &ty, &model, ctx).map_err(at)?;
                    if produced.get() > 0 || old > 0 {
                        ctx.nontrivial();
                    }
                    ctx.label_if(now > old, "part of the items kept");
                    ctx.label_if(now == old, "no item kept");
                    ctx.label_if(*fallible, "fallible append");
                }
            }
        }
        reads(&*c, &model, ctx)?;
        memory(&*c, &ty, &model, ctx)?;
        nulls_match(&*c, &ty, &model, ctx)?;
        if model.len() % 2 == 0 {
            let c = c.rebuild().map_err(|e| format!("taken apart and put together: {e}"))?;
            reads_light(&*c, &model, ctx)?;
            drop(drain(c.iter()));
        } else {
            consumes(c, &model, ctx)?;
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

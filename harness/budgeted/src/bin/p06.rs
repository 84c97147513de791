//! P06: null information always matches the items.
use std::sync::OnceLock;
use vharness::{
    budget,
    common::{Op, Start, apply, gen_op, gen_start, nulls_match, reads_light, start},
    coll::Maker,
    engine::{Ctx, Outcome, Prop, Src, main_for},
    feed::{Feed, Plan},
    val::{Val, gen_items_cap},
};
use vtypes::{Mk, gen_maker, makers};

fn nullable() -> &'static [&'static dyn Maker] {
    static M: OnceLock<Vec<&'static dyn Maker>> = OnceLock::new();
    M.get_or_init(|| makers().iter().copied().filter(|m| m.ty().has_null()).collect())
}
fn budgeted() -> &'static [&'static dyn Maker] {
    static M: OnceLock<Vec<&'static dyn Maker>> = OnceLock::new();
    M.get_or_init(|| vbudgeted::budgeted().into_iter().filter(|m| m.ty().has_null()).collect())
}

#[derive(Debug)]
struct Case {
    mk: Mk,
    start: Start,
    ops: Vec<Op>,
    /// A fallible append whose allocator refuses from this request on.
    refused: Option<(Vec<Val>, u64)>,
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P06";
    const RULE: &'static str = "random nullable type (any nesting level), start and mutation history, over vector storage and over storage whose allocator refuses; every per-item answer, count and summary at every nullable level is compared with counting after every step; non-trivial: some level holds both nulls and values";
    fn cases(thorough: bool) -> u64 {
        if thorough { 9_000_000 } else { 450_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let fail = src.chance(1, 4);
        let mk = if fail { Mk(*src.pick(budgeted())) } else { Mk(*src.pick(nullable())) };
        let _ = gen_maker;
        let ty = mk.0.ty();
        let start = gen_start(src, &ty, 2);
        let n = src.range(0, 6);
        let ops = (0..n).map(|_| gen_op(src, &ty)).collect();
        let refused = fail.then(|| {
            let items = gen_items_cap(src, &ty, 1100);
            let at = src.below(6);
            (items, at)
        });
        Case { mk, start, ops, refused }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let alloc = budget::fresh_ambient();
        let ty = case.mk.0.ty();
        let (mut c, mut model) = start(case.mk.0, &case.start)?;
        nulls_match(&*c, &ty, &model, ctx)?;
        for (k, op) in case.ops.iter().enumerate() {
            apply(&mut c, &mut model, op)?;
            nulls_match(&*c, &ty, &model, ctx).map_err(|e| format!("after step {k}: {e}"))?;
        }
        if let Some((items, at)) = &case.refused {
            alloc.0.refuse_at.set(Some(alloc.0.requests.get() + at));
            alloc.0.refuse_rest.set(true);
            let r = c.try_extend(Feed::new(items.clone(), &Plan::EXACT));
            alloc.0.refuse_at.set(None);
            if r.is_ok() {
                model.extend(items.iter().cloned());
            } else {
                ctx.label("append refused");
            }
            nulls_match(&*c, &ty, &model, ctx).map_err(|e| format!("after a refused append: {e}"))?;
        }
        reads_light(&*c, &model, ctx)?;
        for n in c.nulls() {
            if n.any_null && n.any_valid {
                ctx.nontrivial();
            }
            ctx.label_if(n.all_null && n.len > 0, "a level all null");
            ctx.label_if(n.all_valid && n.len > 0, "a level all valid");
        }
        ctx.label_if(matches!(case.start, Start::Raw(_)), "raw start");
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

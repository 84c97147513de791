//! P02: every history of mutations agrees with a plain list of items.
use vharness::{
    common::{Op, Start, apply, consumes, gen_op, gen_start, memory, nulls_match, reads, reads_light, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
};
use vtypes::{Mk, gen_maker};

#[derive(Debug)]
struct Case {
    mk: Mk,
    start: Start,
    ops: Vec<Op>,
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P02";
    const RULE: &'static str = "random item type, starting state (constructed, or valid raw memory with bit offsets, leftovers, tails and omitted validity) and up to 10 mutations (append, fallible append, truncate, reserve, fallible reserve, clone, take apart and rebuild), compared with a plain list after every step; non-trivial: an append follows a truncation or a raw start, or at least three appends";
    fn cases(thorough: bool) -> u64 {
        if thorough { 6_600_000 } else { 330_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let mk = gen_maker(src);
        let ty = mk.0.ty();
        let start = gen_start(src, &ty, 2);
        let n = src.range(0, 10);
        let ops = (0..n).map(|_| gen_op(src, &ty)).collect();
        Case { mk, start, ops }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let (mut c, mut model) = start(case.mk.0, &case.start)?;
        reads_light(&*c, &model, ctx)?;
        let raw = matches!(case.start, Start::Raw(_));
        let mut cut = raw;
        let mut after_cut = false;
        let mut appends = 0;
        for (k, op) in case.ops.iter().enumerate() {
            let at = |e: String| format!("after step {k}: {e}");
            apply(&mut c, &mut model, op).map_err(at)?;
            if k % 3 == 2 {
                reads(&*c, &model, ctx).map_err(at)?;
            } else {
                reads_light(&*c, &model, ctx).map_err(at)?;
            }
            match op {
                Op::Extend(_, i) | Op::TryExtend(_, i) if !i.is_empty() => {
                    appends += 1;
                    after_cut |= cut;
                }
                Op::Truncate(..) => cut = true,
                _ => {}
            }
        }
        reads(&*c, &model, ctx)?;
        memory(&*c, &case.mk.0.ty(), &model, ctx)?;
        nulls_match(&*c, &case.mk.0.ty(), &model, ctx)?;
        consumes(c, &model, ctx)?;
        ctx.label_if(raw, "raw start");
        ctx.label_if(after_cut, "append after truncation or raw start");
        ctx.label_if(case.ops.iter().any(|o| matches!(o, Op::Clone)) && case.mk.0.clones(), "cloned");
        ctx.label_if(case.ops.iter().any(|o| matches!(o, Op::Rebuild)), "rebuilt");
        if after_cut || appends >= 3 {
            ctx.nontrivial();
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

//! P03: memory always follows the Arrow columnar format.
use vharness::{
    common::{Ctor, Op, Start, apply, gen_op, gen_start, is_collect, memory, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure,
    phys::{leftovers, minimal},
};
use vtypes::{Mk, gen_maker};

#[derive(Debug)]
struct Case {
    mk: Mk,
    start: Start,
    ops: Vec<Op>,
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P03";
    const RULE: &'static str = "random item type, start and mutation history; after every step all buffers are read through the public accessors and decoded by an independent implementation of the columnar format; freshly collected memory must be minimal; non-trivial: a nested or nullable or bit-packed type with at least two items, or any mutation of a raw start";
    fn cases(thorough: bool) -> u64 {
        if thorough { 11_000_000 } else { 550_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let mk = gen_maker(src);
        let ty = mk.0.ty();
        let start = gen_start(src, &ty, 1);
        let n = src.range(0, 5);
        let ops = (0..n).map(|_| gen_op(src, &ty)).collect();
        Case { mk, start, ops }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let ty = case.mk.0.ty();
        let (mut c, mut model) = start(case.mk.0, &case.start)?;
        memory(&*c, &ty, &model, ctx)?;
        if let Start::Built(ctor, ..) = &case.start {
            // Appending to an empty default may keep slack nowhere either,
            // but only collecting is promised to be minimal.
            if is_collect(*ctor) {
                minimal(&ty, &c.dump())?;
                ctx.label("freshly collected");
            }
            ctx.label_if(matches!(ctor, Ctor::Parts(_)), "in parts");
        }
        let mut unused = leftovers(&ty, &c.dump());
        for (k, op) in case.ops.iter().enumerate() {
            apply(&mut c, &mut model, op)?;
            memory(&*c, &ty, &model, ctx).map_err(|e| format!("after step {k}: {e}"))?;
            let left = leftovers(&ty, &c.dump());
            ensure!(left <= unused, "step {k} leaves {left} list elements without a list, {unused} before");
            unused = left;
        }
        let raw = matches!(case.start, Start::Raw(_));
        ctx.label_if(raw, "raw start");
        let shaped = ty.has_null() || ty.depth() > 0 || ty == vharness::val::Ty::Bool;
        if (shaped && model.len() >= 2) || (raw && !case.ops.is_empty()) {
            ctx.nontrivial();
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

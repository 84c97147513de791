//! P11: only the items an input iterator yields matter, not how it yields them.
use std::sync::OnceLock;

use vharness::{
    budget,
    coll::Maker,
    common::{Ctor, Start, construct, consumes, gen_ctor, gen_start, memory, nulls_match, reads, reads_light, start},
    engine::{Ctx, Outcome, Prop, Src, guarded, main_for},
    ensure,
    feed::{Feed, Hint, Plan, gen_hint},
    val::{Val, gen_dens, gen_items_cap, gen_len, gen_val, gen_vals, Ty},
};
use vtypes::{Mk, makers};

fn budgeted() -> &'static [&'static dyn Maker] {
    static M: OnceLock<Vec<&'static dyn Maker>> = OnceLock::new();
    M.get_or_init(vbudgeted::budgeted)
}

#[derive(Debug)]
enum Begin {
    Start(Start),
    /// A constructor fed by a strange iterator.
    Odd(Ctor, Plan, Vec<Val>),
}

#[derive(Debug)]
struct Append {
    fallible: bool,
    plan: Plan,
    items: Vec<Val>,
}

#[derive(Debug)]
struct Case {
    mk: Mk,
    begin: Begin,
    appends: Vec<Append>,
}

/// Lengths at which chunked or packed loops look for more.
fn gen_list(src: &mut Src, ty: &Ty) -> Vec<Val> {
    if src.chance(1, 3) {
        let n = match src.weighted(&[3, 3, 2]) {
            0 => *src.pick(&[1024, 2048, 1023, 1025, 8, 16, 64]),
            1 => 8 * src.range(0, 20),
            _ => gen_len(src, 4200),
        };
        let n = n.min((9000 / ty.weight()).max(3));
        let d = gen_dens(src);
        gen_vals(src, ty, n, d)
    } else {
        gen_items_cap(src, ty, 70)
    }
}

fn gen_plan(src: &mut Src, ty: &Ty) -> Plan {
    let hint = gen_hint(src, true);
    let d = gen_dens(src);
    let after = match src.weighted(&[3, 4]) {
        0 => vec![],
        _ => {
            let gap = src.range(0, 3);
            let n = *src.pick(&[1, 2, 7, 8, 20, 40]);
            let n = src.range(1, n);
            let mut v: Vec<Option<Val>> = (0..gap).map(|_| None).collect();
            let mut f = src.fork();
            v.extend((0..n).map(|i| (i % 5 != 4).then(|| gen_val(&mut f, ty, d))));
            v
        }
    };
    Plan { hint, after, panic_at: None, vec: false }
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P11";
    const RULE: &'static str = "random type over vectors and over storage that refuses absurd requests, constructed and extended from iterators whose size hints are truthful but arbitrarily loose (upper bounds up to the largest number) and which yield further items when polled after their end; everything must equal a plain list of the items before the first end; non-trivial: a loose or huge hint, or items after the end, with at least one item";
    fn cases(thorough: bool) -> u64 {
        if thorough { 6_000_000 } else { 300_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let mk = Mk(if src.chance(1, 3) { *src.pick(makers()) } else { *src.pick(budgeted()) });
        let ty = mk.0.ty();
        let begin = if src.chance(1, 4) {
            Begin::Start(gen_start(src, &ty, 2))
        } else {
            let ctor = gen_ctor(src);
            let items = gen_list(src, &ty);
            Begin::Odd(ctor, gen_plan(src, &ty), items)
        };
        let appends = (0..src.range(0, 3))
            .map(|_| Append { fallible: src.bool(), items: gen_list(src, &ty), plan: gen_plan(src, &ty) })
            .collect();
        Case { mk, begin, appends }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        budget::fresh_ambient();
        let ty = case.mk.0.ty();
        let mut note = |plan: &Plan, items: &[Val]| {
            ctx.label_if(matches!(plan.hint, Hint::Huge(..)), "huge upper bound");
            ctx.label_if(!plan.after.is_empty(), "items after the end");
            if !items.is_empty() && (plan.hint != Hint::Exact || !plan.after.is_empty()) {
                ctx.nontrivial();
            }
        };
        let (mut c, mut model) = match &case.begin {
            Begin::Start(s) => start(case.mk.0, s)?,
            Begin::Odd(ctor, plan, items) => {
                note(plan, items);
                // With parts, only the plain prefix of each counts.
                let c = guarded(|| construct(case.mk.0, *ctor, items, plan))
                    .map_err(|e| format!("construction {ctor:?} of {} items: {e}", items.len()))??;
                (c, items.clone())
            }
        };
        reads_light(&*c, &model, ctx)?;
        for (k, a) in case.appends.iter().enumerate() {
            let mut note = |plan: &Plan, items: &[Val]| {
                ctx.label_if(matches!(plan.hint, Hint::Huge(..)), "huge upper bound");
                ctx.label_if(!plan.after.is_empty(), "items after the end");
                if !items.is_empty() && (plan.hint != Hint::Exact || !plan.after.is_empty()) {
                    ctx.nontrivial();
                }
            };
            note(&a.plan, &a.items);
            let feed = Feed::new(a.items.clone(), &a.plan);
            let at = |e: String| format!("after append {k} of {} items: {e}", a.items.len());
            if a.fallible {
                let r = guarded(|| c.try_extend(feed)).map_err(at)?;
                ensure!(r.is_ok(), "append {k} of {} items failed", a.items.len());
            } else {
                guarded(|| c.extend(feed)).map_err(at)?;
            }
            model.extend(a.items.iter().cloned());
            reads_light(&*c, &model, ctx).map_err(at)?;
        }
        reads(&*c, &model, ctx)?;
        memory(&*c, &ty, &model, ctx)?;
        nulls_match(&*c, &ty, &model, ctx)?;
        consumes(c, &model, ctx)
    }
}

fn main() {
    main_for::<P>();
}

//! P10: iterators report their exact remaining length and stay finished.
use std::sync::OnceLock;

use vharness::{
    coll::{Read, Steps},
    common::{Op, Start, apply, gen_op, gen_start, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{Phys, RawOpts, decode, gen_phys},
    val::{Val, gen_dens, gen_len},
};
use vkinds::{Kinds, kinds};
use vtypes::{Mk, gen_maker};

fn all_kinds() -> &'static [Kinds] {
    static K: OnceLock<Vec<Kinds>> = OnceLock::new();
    K.get_or_init(kinds)
}

#[derive(Clone, Copy, Debug)]
enum Move {
    Next(usize),
    Nth(usize),
    /// As many as remain, and some.
    NthEnd(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Exhaust,
    Count,
    Last,
    Fold,
    Collect,
}
#[derive(Clone, Debug)]
struct Script(Vec<Move>, End);

#[derive(Debug)]
#[allow(dead_code)]
enum Target {
    Grown { mk: Mk, start: Start, ops: Vec<Op> },
    Stored { ty: usize, name: &'static str, storage: usize, phys: Phys },
}
#[derive(Debug)]
struct Case {
    target: Target,
    borrowed: Script,
    consuming: Script,
    inner: Script,
}

fn gen_script(src: &mut Src) -> Script {
    let n = src.range(0, 7);
    let moves = (0..n)
        .map(|_| match src.weighted(&[6, 5, 1]) {
            0 => {
                let k = *src.pick(&[1, 2, 7, 8, 9, 63, 64, 65, 1024]);
                Move::Next(src.range(1, k))
            }
            1 => {
                let k = *src.pick(&[0, 1, 2, 7, 8, 9, 15, 16, 63, 64, 200, 1024]);
                Move::Nth(src.range(0, k))
            }
            _ => {
                let k = *src.pick(&[0, 1, 7, 8, 64, usize::MAX]);
                Move::NthEnd(k)
            }
        })
        .collect();
    let end = *src.pick(&[End::Exhaust, End::Exhaust, End::Count, End::Last, End::Fold, End::Collect]);
    Script(moves, end)
}

fn exact(it: &dyn Steps, left: usize, what: &str, ctx: &mut Ctx) -> Outcome {
    ensure_eq!(it.hint(), (left, Some(left)), "{what}: remaining length");
    if let Some(n) = it.exact() {
        ensure_eq!(n, left, "{what}: len()");
    }
    ctx.checks += 1;
    Ok(())
}

fn walk(mut it: Box<dyn Steps + '_>, items: &[Val], script: &Script, what: &str, ctx: &mut Ctx) -> Outcome {
    let mut at = 0;
    let step = |got: Option<Val>, pos: usize| -> Outcome {
        ensure!(got.as_ref() == items.get(pos), "{what}: position {pos} of {} yields {got:?}, expected {:?}", items.len(), items.get(pos));
        Ok(())
    };
    exact(&*it, items.len(), what, ctx)?;
    for m in &script.0 {
        match *m {
            Move::Next(n) => {
                for _ in 0..n {
                    step(it.next(), at)?;
                    at = (at + 1).min(items.len());
                    exact(&*it, items.len() - at, what, ctx)?;
                }
            }
            Move::Nth(n) => {
                step(it.nth(n), at.saturating_add(n))?;
                at = at.saturating_add(n).saturating_add(1).min(items.len());
                exact(&*it, items.len() - at, what, ctx)?;
            }
            Move::NthEnd(k) => {
                let n = (items.len() - at).saturating_add(k);
                step(it.nth(n), at.saturating_add(n))?;
                at = items.len();
                exact(&*it, 0, what, ctx)?;
            }
        }
    }
    let rest = &items[at..];
    ctx.checks += rest.len() as u64;
    match script.1 {
        End::Exhaust => {
            while at < items.len() {
                step(it.next(), at)?;
                at += 1;
                if at % 5 == 0 || items.len() - at < 20 {
                    exact(&*it, items.len() - at, what, ctx)?;
                }
            }
            for k in 0..10 {
                let x = if k % 3 == 2 { it.nth(k) } else { it.next() };
                ensure!(x.is_none(), "{what}: yields {x:?} after its end");
                exact(&*it, 0, what, ctx)?;
            }
        }
        End::Count => ensure_eq!(it.count(), rest.len(), "{what}: count()"),
        End::Last => ensure_eq!(it.last(), rest.last().cloned(), "{what}: last()"),
        End::Fold => vharness::common::same_items(&it.fold(), rest, what)?,
        End::Collect => vharness::common::same_items(&it.collect(), rest, what)?,
    }
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P10";
    const RULE: &'static str = "random type in any storage, built, mutated or wrapped from raw memory; its borrowed and consuming iterators, and those of list items at every level, are advanced by a random script of next and nth (past the end too) and a terminal operation; before and after every step the reported remaining length must be exact, items must come in order, and nothing may come after the end; non-trivial: at least two items and a script that stops part-way or ends";
    fn cases(thorough: bool) -> u64 {
        if thorough { 24_000_000 } else { 1_200_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let target = if src.chance(1, 2) {
            let ty = src.usize(all_kinds().len());
            let k = &all_kinds()[ty];
            let storage = src.usize(k.others.len());
            let t = k.vec.ty();
            let n = gen_len(src, (4000 / t.weight()).max(3));
            let d = gen_dens(src);
            let phys = gen_phys(src, &t, n, d, RawOpts { offsets: true, omit: true });
            Target::Stored { ty, name: k.others[storage].1.name(), storage, phys }
        } else {
            let mk = gen_maker(src);
            let ty = mk.0.ty();
            let start = gen_start(src, &ty, 2);
            let n = src.range(0, 2);
            let ops = (0..n).map(|_| gen_op(src, &ty)).collect();
            Target::Grown { mk, start, ops }
        };
        Case { target, borrowed: gen_script(src), consuming: gen_script(src), inner: gen_script(src) }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let (c, model): (Box<dyn Read>, Vec<Val>) = match &case.target {
            Target::Grown { mk, start: s, ops } => {
                let (mut c, mut model) = start(mk.0, s)?;
                for op in ops {
                    apply(&mut c, &mut model, op)?;
                }
                (c, model)
            }
            Target::Stored { ty, storage, phys, .. } => {
                let k = &all_kinds()[*ty];
                let (name, s) = k.others[*storage];
                ctx.label(name);
                (s.from_phys(phys)?, decode(&s.ty(), phys)?)
            }
        };
        ensure_eq!(c.len(), model.len(), "length");
        walk(c.iter(), &model, &case.borrowed, "borrowed iterator", ctx)?;
        // A second one, independent of the first.
        walk(c.iter(), &model, &case.consuming, "borrowed iterator", ctx)?;
        let mut lists = 0;
        for i in [0, 1, model.len() / 2, model.len().saturating_sub(1)] {
            c.inner(i, &mut |it, items| {
                lists += 1;
                let mut quiet = Ctx::default();
                walk(it, items, &case.inner, "iterator of a list item", &mut quiet)
            })?;
        }
        ctx.label_if(lists > 0, "list item iterators");
        ctx.checks += lists;
        walk(c.into_steps(), &model, &case.consuming, "consuming iterator", ctx)?;
        ctx.label_if(case.consuming.1 == End::Exhaust, "consumed to the end");
        if model.len() >= 2 && (!case.consuming.0.is_empty() || case.consuming.1 == End::Exhaust) {
            ctx.nontrivial();
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

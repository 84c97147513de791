//! P04: random access agrees with iteration; out-of-range reads give nothing.
use vharness::{
    common::{Op, Start, apply, drain, iterates, gen_op, gen_start, same_items, start},
    coll::Read,
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{Phys, RawOpts, decode, gen_phys},
    val::{Val, gen_dens, gen_len},
};
use vkinds::{Kinds, kinds};
use vtypes::{Mk, gen_maker};
use std::sync::OnceLock;

fn all_kinds() -> &'static [Kinds] {
    static K: OnceLock<Vec<Kinds>> = OnceLock::new();
    K.get_or_init(kinds)
}

#[derive(Debug)]
enum Target {
    Grown { mk: Mk, start: Start, ops: Vec<Op> },
    #[allow(dead_code)]
    Stored { ty: usize, name: &'static str, storage: usize, phys: Phys },
}

#[derive(Debug)]
struct Case {
    target: Target,
    far: Vec<usize>,
}

/// Positions that overflow some arithmetic when scaled, shifted or offset.
fn gen_far(src: &mut Src) -> Vec<usize> {
    let n = src.range(1, 4);
    (0..n)
        .map(|_| match src.weighted(&[2, 4, 3, 2, 2]) {
            0 => usize::MAX,
            1 => usize::MAX - src.range(0, 40),
            2 => {
                let k = src.range(1, 40);
                (usize::MAX / k).saturating_add(src.range(0, 3)).saturating_sub(1)
            }
            3 => {
                let k = src.range(3, 63);
                (1usize << k).saturating_sub(1) + src.range(0, 2)
            }
            _ => src.word() as usize,
        })
        .collect()
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P04";
    const RULE: &'static str = "random type in any storage, built, mutated or wrapped from raw memory with leftovers beyond the end; every position below the length is read by every path, and positions just past the end and up to the largest index must give nothing, inside list views too; non-trivial: at least two items, or leftovers beyond the end";
    fn cases(thorough: bool) -> u64 {
        if thorough { 14_000_000 } else { 700_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let target = if src.chance(1, 3) {
            let ty = src.usize(all_kinds().len());
            let k = &all_kinds()[ty];
            let storage = src.usize(k.others.len());
            let t = k.vec.ty();
            let n = gen_len(src, (4000 / t.weight()).max(3));
            let d = gen_dens(src);
            let phys = gen_phys(src, &t, n, d, RawOpts { offsets: true, omit: true });
            Target::Stored { ty, name: k.others[storage].1.name(), storage, phys }
        } else {
            let mk = gen_maker(src);
            let ty = mk.0.ty();
            let start = gen_start(src, &ty, 2);
            let n = src.range(0, 3);
            let ops = (0..n).map(|_| gen_op(src, &ty)).collect();
            Target::Grown { mk, start, ops }
        };
        Case { target, far: gen_far(src) }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let (c, model): (Box<dyn Read>, Vec<Val>) = match &case.target {
            Target::Grown { mk, start: s, ops } => {
                let (mut c, mut model) = start(mk.0, s)?;
                for op in ops {
                    apply(&mut c, &mut model, op)?;
                }
                if matches!(s, Start::Raw(_)) || ops.iter().any(|o| matches!(o, Op::Truncate(..))) {
                    ctx.nontrivial();
                    ctx.label("leftovers possible");
                }
                (c, model)
            }
            Target::Stored { ty, storage, phys, .. } => {
                let k = &all_kinds()[*ty];
                let (name, s) = k.others[*storage];
                ctx.label(name);
                ctx.nontrivial();
                (s.from_phys(phys)?, decode(&s.ty(), phys)?)
            }
        };
        let n = c.len();
        ensure_eq!(n, model.len(), "length");
        let iterated = drain(c.iter());
        same_items(&iterated, &model, "borrowed iteration")?;
        for (i, want) in model.iter().enumerate() {
            ensure!(c.view(i).as_ref() == Some(want), "view({i}) is {:?}, expected {want:?}", c.view(i));
            ensure!(c.owned(i).as_ref() == Some(want), "owned({i}) is {:?}, expected {want:?}", c.owned(i));
            if n <= 80 || i % 97 == 0 {
                let p = c.probe(i, &case.far)?;
                ensure!(p.as_ref() == Some(want), "the paths of item {i}'s view read {p:?}, expected {want:?}");
            }
        }
        let near = [0, 1, 2, 6, 7, 8, 9, 62, 63, 64, 65, 1023, n];
        for i in near.iter().map(|d| n + d).chain(case.far.iter().copied().filter(|i| *i >= n)) {
            ensure!(c.view(i).is_none(), "view({i}) of {n} items is {:?}", c.view(i));
            ensure!(c.owned(i).is_none(), "owned({i}) of {n} items is {:?}", c.owned(i));
            ctx.checks += 2;
        }
        iterates(c.iter(), &model, 0, "borrowed iteration")?;
        iterates(c.into_steps(), &model, 1, "consuming iteration")?;
        ctx.checks += 4 * n as u64;
        ctx.label_if(n == 0, "empty");
        if n >= 2 {
            ctx.nontrivial();
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

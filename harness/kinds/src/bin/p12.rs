//! P12: every storage kind reads the same memory the same way, without copying.
use std::sync::OnceLock;

use vharness::{
    coll::{Read, Store},
    common::{expected_nulls, iterates},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{Phys, RawOpts, decode, gen_fixed, gen_phys, stored},
    val::{Ty, Val, gen_dens, gen_len},
};
use vkinds::{Kinds, fixed, kinds};

fn all_kinds() -> &'static [Kinds] {
    static K: OnceLock<Vec<Kinds>> = OnceLock::new();
    K.get_or_init(kinds)
}
fn all_fixed() -> &'static [(usize, &'static dyn Store)] {
    static K: OnceLock<Vec<(usize, &'static dyn Store)>> = OnceLock::new();
    K.get_or_init(fixed)
}

#[derive(Debug)]
#[allow(dead_code)]
enum Case {
    /// One memory in every storage.
    Kinds { ty: usize, name: &'static str, phys: Phys },
    Fixed { row: usize, name: &'static str, phys: Phys },
}

fn all_reads(c: &dyn Read, ty: &Ty, p: &Phys, model: &[Val], ctx: &mut Ctx) -> Outcome {
    ensure_eq!(c.len(), model.len(), "length");
    ensure_eq!(c.is_empty(), model.is_empty(), "is_empty");
    let few = model.len() <= 100;
    for (i, want) in model.iter().enumerate() {
        ensure!(c.view(i).as_ref() == Some(want), "view({i}) is {:?}, expected {want:?}", c.view(i));
        ensure!(c.owned(i).as_ref() == Some(want), "owned({i}) is {:?}, expected {want:?}", c.owned(i));
        if few {
            let x = c.probe(i, &[])?;
            ensure!(x.as_ref() == Some(want), "the paths of item {i}'s view read {x:?}, expected {want:?}");
        }
    }
    ensure!(c.view(model.len()).is_none(), "an item past the end");
    iterates(c.iter(), model, 0, "borrowed iteration")?;
    let mut want = Vec::new();
    expected_nulls(ty, p, &mut want);
    ensure_eq!(c.nulls(), want, "null information");
    ensure!(c.dump() == *p, "the memory reads as {:?}", c.dump());
    ctx.checks += 4 * model.len() as u64 + 3;
    Ok(())
}

/// Every buffer the collection uses is one that was handed over.
fn own(addrs: &[(usize, usize)], given: &[(usize, usize)]) -> Outcome {
    for a in addrs {
        ensure!(a.1 == 0 || given.contains(a), "buffer {a:x?} is none of those put in, {given:x?}");
    }
    Ok(())
}

fn one(kind: &'static str, s: &dyn Store, p: &Phys, model: &[Val], ctx: &mut Ctx) -> Outcome {
    let ty = s.ty();
    let what = |e: String| format!("{} ({kind}): {e}", s.name());
    let (c, given) = stored(|| s.from_phys(p));
    let c = c.map_err(what)?;
    let first = c.addrs();
    if kind != "array" {
        own(&first, &given).map_err(what)?;
    }
    all_reads(&*c, &ty, p, model, ctx).map_err(what)?;
    ensure!(kind == "array" || c.addrs() == first, "{} ({kind}): reading moved buffers", s.name());
    iterates(c.into_steps(), model, 1, "consuming iteration").map_err(what)?;

    // Taken apart, the storage that was put in comes out.
    let (r, given) = stored(|| s.rebuilt(p));
    let (before, r) = r.map_err(what)?;
    if kind != "array" {
        own(&before, &given).map_err(what)?;
        ensure!(r.addrs() == before, "{} ({kind}): taking apart moved buffers {before:x?} to {:x?}", s.name(), r.addrs());
    }
    all_reads(&*r, &ty, p, model, ctx).map_err(what)?;
    drop(r);

    if let Some((a, b)) = s.cloned(p).map_err(what)? {
        ctx.label("cloned");
        if matches!(kind, "rc" | "arc" | "slice") {
            ensure!(a.addrs() == b.addrs(), "{} ({kind}): cloning shared storage copied it", s.name());
        }
        all_reads(&*b, &ty, p, model, ctx).map_err(what)?;
        drop(a);
        all_reads(&*b, &ty, p, model, ctx).map_err(|e| what(format!("clone after dropping the original: {e}")))?;
        iterates(b.into_steps(), model, 2, "consuming iteration of a clone").map_err(what)?;
    }
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P12";
    const RULE: &'static str = "random valid memory (bit offsets, leftovers, omitted validity, unreferenced tails) of a random type, wrapped in vectors, boxes, reference-counted and atomically reference-counted slices and borrowed slices, or in fixed arrays; every read path must give the memory's decoding in each, and buffer addresses must be those handed in, before and after reading, sharing clones and taking apart; non-trivial: at least two items";
    fn cases(thorough: bool) -> u64 {
        if thorough { 12_000_000 } else { 600_000 }
    }
    fn generate(src: &mut Src) -> Case {
        if src.chance(1, 4) {
            let row = src.usize(all_fixed().len());
            let (n, s) = all_fixed()[row];
            let d = gen_dens(src);
            Case::Fixed { row, name: s.name(), phys: gen_fixed(src, &s.ty(), n, d, None) }
        } else {
            let ty = src.usize(all_kinds().len());
            let k = &all_kinds()[ty];
            let t = k.vec.ty();
            let long = src.chance(1, 6);
            let n = if long { gen_len(src, (3000 / t.weight()).max(3)) } else { src.range(0, 30) };
            let d = gen_dens(src);
            let phys = gen_phys(src, &t, n, d, RawOpts { offsets: true, omit: true });
            Case::Kinds { ty, name: k.vec.name(), phys }
        }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        match case {
            Case::Kinds { ty, phys, .. } => {
                let k = &all_kinds()[*ty];
                let model = decode(&k.vec.ty(), phys)?;
                one("vec", k.vec, phys, &model, ctx)?;
                for (kind, s) in &k.others {
                    one(kind, *s, phys, &model, ctx)?;
                }
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
            }
            Case::Fixed { row, phys, .. } => {
                let (_, s) = all_fixed()[*row];
                let model = decode(&s.ty(), phys)?;
                ctx.label("fixed arrays");
                one("array", s, phys, &model, ctx)?;
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
            }
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

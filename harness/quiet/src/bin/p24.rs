//! P24: reading, wrapping, sharing and importing take no memory.
use std::sync::OnceLock;

use vffi::{
    foreign::{Level, emit, gen_level},
    items, without_offsets,
};
use vharness::{
    coll::{Read, Store},
    common::expected_nulls,
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{Phys, RawOpts, decode, gen_fixed, gen_phys},
    quiet::{Counting, Touch, listless, taken},
    val::{Ty, Val, gen_dens, gen_len},
};
use vkinds::{Kinds, fixed, kinds};

#[global_allocator]
static GLOBAL: Counting = Counting;

fn all_kinds() -> &'static [Kinds] {
    static K: OnceLock<Vec<Kinds>> = OnceLock::new();
    K.get_or_init(kinds)
}
fn all_fixed() -> &'static [(usize, &'static dyn Store)] {
    static K: OnceLock<Vec<(usize, &'static dyn Store)>> = OnceLock::new();
    K.get_or_init(fixed)
}

#[derive(Debug)]
#[allow(dead_code)]
enum Case {
    /// One memory in every storage.
    Kinds { ty: usize, name: &'static str, phys: Phys },
    Fixed { row: usize, name: &'static str, phys: Phys },
    /// Cut down step by step.
    Truncate { row: usize, name: &'static str, phys: Phys, to: Vec<usize> },
    Export { row: usize, name: &'static str, kind: usize, phys: Phys },
    Import { row: usize, name: &'static str, phys: Phys, level: Level, others: Vec<usize> },
}

fn none(what: &str) -> Outcome {
    let (n, bytes) = taken();
    ensure!(n == 0, "{what} requests memory: {n} times, {bytes} bytes");
    Ok(())
}

/// No more than can go to bookkeeping, whatever the contents.
fn few(what: &str, ty: &Ty) -> Outcome {
    let (n, bytes) = taken();
    let most = 1024 * (ty.depth() + 1);
    ensure!(bytes <= most, "{what} requests memory: {n} times, {bytes} bytes, more than {most}");
    Ok(())
}

fn read(c: &dyn Read, want: &Touch, ctx: &mut Ctx) -> Outcome {
    taken();
    let t = c.touch();
    none("reading")?;
    ensure_eq!(t, *want, "what reading without memory finds");
    ctx.checks += 6 * want.len as u64 + 6;
    Ok(())
}
fn consume(c: Box<dyn Read>, ty: &Ty, want: &Touch, ctx: &mut Ctx) -> Outcome {
    if listless(ty) {
        taken();
        let s = c.into_touch();
        none("consuming iteration")?;
        ensure_eq!(s, want.positions, "what consuming iteration without memory finds");
        ctx.checks += want.len as u64;
    }
    Ok(())
}

fn one(kind: &'static str, s: &dyn Store, p: &Phys, want: &Touch, ctx: &mut Ctx) -> Outcome {
    let ty = s.ty();
    let what = |e: String| format!("{} ({kind}): {e}", s.name());
    let c = s.from_phys(p).map_err(what)?;
    read(&*c, want, ctx).map_err(what)?;
    consume(c, &ty, want, ctx).map_err(what)?;
    taken();
    let (_, c) = s.rebuilt(p).map_err(what)?;
    few("taking apart and wrapping", &ty).map_err(what)?;
    read(&*c, want, ctx).map_err(what)?;
    drop(c);
    if matches!(kind, "rc" | "arc" | "slice") {
        taken();
        if let Some((_, c)) = s.cloned(p).map_err(what)? {
            few("cloning over shared storage", &ty).map_err(what)?;
            read(&*c, want, ctx).map_err(what)?;
            consume(c, &ty, want, ctx).map_err(what)?;
            ctx.label("shared clone");
        }
    }
    Ok(())
}

fn expected(ty: &Ty, p: &Phys, model: &[Val]) -> Touch {
    let mut nulls = Vec::new();
    expected_nulls(ty, p, &mut nulls);
    Touch::expected(ty, model, &nulls)
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P24";
    const RULE: &'static str = "random valid memory of a random type, in vectors, boxes, shared and borrowed slices or fixed arrays, grown arrays cut down, arrays exported, and foreign structures imported; with every request to the allocator counted while library code runs, all borrowed reads (positions, iteration, skipping, views inside views, null information) and owned reads of types without variable-size lists must request nothing; taking apart and wrapping, clones over shared storage, truncation, export and import no more than 1 KiB per nesting level, whatever the contents; the sums of all items read are those of the memory's decoding; non-trivial: at least two items";
    fn cases(thorough: bool) -> u64 {
        if thorough { 10_000_000 } else { 500_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let raw = RawOpts { offsets: true, omit: true };
        let size = |src: &mut Src, t: &Ty| {
            if src.chance(1, 5) { gen_len(src, (4000 / t.weight()).max(3)) } else { src.range(0, 40) }
        };
        match src.weighted(&[4, 2, 1, 2, 3]) {
            0 => {
                let ty = src.usize(all_kinds().len());
                let k = &all_kinds()[ty];
                let t = k.vec.ty();
                let n = size(src, &t);
                let d = gen_dens(src);
                let phys = gen_phys(src, &t, n, d, raw);
                Case::Kinds { ty, name: k.vec.name(), phys }
            }
            1 => {
                let row = src.usize(all_fixed().len());
                let (n, s) = all_fixed()[row];
                let d = gen_dens(src);
                Case::Fixed { row, name: s.name(), phys: gen_fixed(src, &s.ty(), n, d, None) }
            }
            kind => {
                let row = src.usize(items().len());
                let i = &items()[row];
                let n = size(src, &i.ty);
                let d = gen_dens(src);
                let mut phys = gen_phys(src, &i.ty, n, d, raw);
                let name = i.maker.name();
                match kind {
                    2 => {
                        let k = src.range(1, 4);
                        let to = (0..k).map(|_| src.usize(n + 2)).collect();
                        Case::Truncate { row, name, phys, to }
                    }
                    3 => {
                        if src.chance(9, 10) {
                            without_offsets(&mut phys);
                        }
                        Case::Export { row, name, kind: src.usize(i.sources.len()), phys }
                    }
                    _ => {
                        without_offsets(&mut phys);
                        let level = gen_level(src, &i.sch, &phys);
                        let k = src.range(0, 2);
                        let others = (0..k).map(|_| src.usize(items().len())).collect();
                        Case::Import { row, name, phys, level, others }
                    }
                }
            }
        }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        match case {
            Case::Kinds { ty, phys, .. } => {
                let k = &all_kinds()[*ty];
                let t = k.vec.ty();
                let model = decode(&t, phys)?;
                let want = expected(&t, phys, &model);
                one("vec", k.vec, phys, &want, ctx)?;
                for (kind, s) in &k.others {
                    one(kind, *s, phys, &want, ctx)?;
                }
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
                ctx.label("storages");
            }
            Case::Fixed { row, phys, .. } => {
                let (_, s) = all_fixed()[*row];
                let t = s.ty();
                let model = decode(&t, phys)?;
                one("array", s, phys, &expected(&t, phys, &model), ctx)?;
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
                ctx.label("fixed arrays");
            }
            Case::Truncate { row, phys, to, .. } => {
                let i = &items()[*row];
                let mut model = decode(&i.ty, phys)?;
                let mut c = i.maker.from_phys(phys)?;
                for n in to {
                    taken();
                    c.truncate(*n);
                    few(&format!("truncating to {n}"), &i.ty)?;
                    model.truncate(*n);
                    ensure_eq!(c.len(), model.len(), "length after truncating to {n}");
                }
                let now = c.dump();
                read(&*c, &expected(&i.ty, &now, &model), ctx)?;
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
                ctx.label("truncations");
            }
            Case::Export { row, kind, phys, .. } => {
                let i = &items()[*row];
                let (_, s) = i.sources[*kind];
                let model = decode(&i.ty, phys)?;
                let c = s.build(phys)?;
                read(&*c, &expected(&i.ty, phys, &model), ctx)?;
                taken();
                let r = c.export();
                few("exporting", &i.ty)?;
                ctx.checks += 1;
                ctx.label(if r.is_ok() { "exports" } else { "refused exports" });
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
            }
            Case::Import { row, phys, level, others, .. } => {
                let i = &items()[*row];
                let model = decode(&i.ty, phys).map_err(|e| format!("harness: {e}"))?;
                let f = emit(level);
                for o in others {
                    taken();
                    // SAFETY: in the arena, which is only cleared by the next case.
                    let r = unsafe { items()[*o].port.import(f.array, f.schema) };
                    few("an import as another type", if items()[*o].ty.depth() > i.ty.depth() { &items()[*o].ty } else { &i.ty })?;
                    ctx.label_if(r.is_err(), "refused imports");
                }
                taken();
                // SAFETY: as above.
                let r = unsafe { i.port.import(f.array, f.schema) };
                few("importing", &i.ty)?;
                let c = r.map_err(|e| format!("a valid array is refused: {e:?}"))?;
                let mut nulls = Vec::new();
                expected_nulls(&i.ty, &c.dump(), &mut nulls);
                let want = Touch::expected(&i.ty, &model, &nulls);
                read(&*c, &want, ctx)?;
                consume(c, &i.ty, &want, ctx)?;
                ctx.label("imports");
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
            }
        }
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

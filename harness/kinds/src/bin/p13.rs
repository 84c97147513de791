//! P13: omitting validity is the same as marking every item valid.
use std::sync::OnceLock;

use vharness::{
    coll::{Grow, Maker, Read},
    common::{Op, apply, consumes, drain, iterates, gen_op, memory, nulls_match, reads, same_items},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{Bm, Phys, RawOpts, decode, explicit, gen_phys},
    val::{Ty, Val, gen_dens, gen_len},
};
use vkinds::{Kinds, kinds};
use vtypes::{Mk, makers};

fn nullable() -> &'static [&'static dyn Maker] {
    static M: OnceLock<Vec<&'static dyn Maker>> = OnceLock::new();
    M.get_or_init(|| makers().iter().copied().filter(|m| m.ty().has_null()).collect())
}
/// A nullable type and the same type without nulls.
fn pairs() -> &'static [(&'static dyn Maker, &'static dyn Maker)] {
    static M: OnceLock<Vec<(&'static dyn Maker, &'static dyn Maker)>> = OnceLock::new();
    M.get_or_init(|| {
        let mut v = Vec::new();
        for a in makers() {
            for b in makers() {
                if a.ty() == Ty::Opt(Box::new(b.ty())) {
                    v.push((*a, *b));
                }
            }
        }
        v
    })
}
fn all_kinds() -> &'static [Kinds] {
    static K: OnceLock<Vec<Kinds>> = OnceLock::new();
    K.get_or_init(|| kinds().into_iter().filter(|k| k.vec.ty().has_null()).collect())
}

#[derive(Debug)]
#[allow(dead_code)]
enum Case {
    /// Memory with omitted levels, and the same made explicit.
    Omitted { mk: Mk, phys: Phys, ops: Vec<Op> },
    /// A nullable array without nulls and a non-nullable one.
    Plain { a: Mk, b: Mk, phys: Phys, form: Option<Bm>, ops: Vec<Op> },
    Stored { ty: usize, name: &'static str, storage: usize, phys: Phys },
}

/// Omits validity at a random set of levels, with at least one.
fn omit(src: &mut Src, p: &Phys) -> Phys {
    match p {
        Phys::Valid { bitmap, child } => Phys::Valid {
            bitmap: bitmap.clone().filter(|_| src.chance(1, 2)),
            child: Box::new(omit(src, child)),
        },
        Phys::Flat { n, child } => Phys::Flat { n: *n, child: Box::new(omit(src, child)) },
        Phys::Offs { offsets, child } => Phys::Offs { offsets: offsets.clone(), child: Box::new(omit(src, child)) },
        p => p.clone(),
    }
}
fn omitted(p: &Phys) -> usize {
    match p {
        Phys::Valid { bitmap, child } => usize::from(bitmap.is_none()) + omitted(child),
        Phys::Flat { child, .. } | Phys::Offs { child, .. } => omitted(child),
        _ => 0,
    }
}

/// Both read and count the same, item by item.
fn alike(a: &dyn Read, b: &dyn Read, ctx: &mut Ctx) -> Outcome {
    ensure_eq!(a.len(), b.len(), "lengths");
    ensure_eq!(a.is_empty(), b.is_empty(), "is_empty");
    let n = a.len();
    for i in (0..n).chain([n, n + 1, n + 8, usize::MAX]) {
        let (x, y) = (a.view(i), b.view(i));
        ensure!(x == y, "item {i}: {x:?} and {y:?}");
        let (x, y) = (a.owned(i), b.owned(i));
        ensure!(x == y, "owned item {i}: {x:?} and {y:?}");
    }
    if n <= 100 {
        for i in 0..n {
            ensure_eq!(a.probe(i, &[])?, b.probe(i, &[])?, "paths of item {i}");
        }
    }
    same_items(&drain(a.iter()), &drain(b.iter()), "iteration")?;
    same_items(&a.iter().fold(), &b.iter().fold(), "iteration")?;
    ctx.checks += 5 * n as u64 + 4;
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P13";
    const RULE: &'static str = "(a) random nullable memory with validity omitted at random levels against the same memory with it explicit, in growable and other storages, (b) a nullable array without nulls, validity omitted or explicit at a bit offset, against a non-nullable one of the same values; both go through the same mutations and must read, iterate, count and consume identically at every step, with the omitted form kept until something is appended or reserved; non-trivial: at least two items and an omitted level";
    fn cases(thorough: bool) -> u64 {
        if thorough { 12_000_000 } else { 600_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let gen_raw = |src: &mut Src, ty: &Ty| {
            let long = src.chance(1, 5);
            let n = if long { gen_len(src, (4000 / ty.weight()).max(3)) } else { src.range(0, 30) };
            let d = gen_dens(src);
            let p = gen_phys(src, ty, n, d, RawOpts { offsets: true, omit: false });
            let o = omit(src, &p);
            (o, n)
        };
        match src.weighted(&[4, 4, 2]) {
            0 => {
                let mk = Mk(*src.pick(nullable()));
                let ty = mk.0.ty();
                let (phys, _) = gen_raw(src, &ty);
                let ops = (0..src.range(0, 4)).map(|_| gen_op(src, &ty)).collect();
                Case::Omitted { mk, phys, ops }
            }
            1 => {
                let (a, b) = *src.pick(pairs());
                let ty = b.ty();
                let (phys, n) = gen_raw(src, &ty);
                let form = src.chance(1, 2).then(|| {
                    let Phys::Bits(mut b) = gen_phys(src, &Ty::Bool, n, gen_dens(&mut Src::random(1)), RawOpts { offsets: true, omit: false }) else {
                        unreachable!()
                    };
                    for i in 0..n {
                        let at = b.offset + i;
                        b.bytes[at / 8] |= 1 << (at % 8);
                    }
                    b
                });
                let ops = (0..src.range(0, 4)).map(|_| gen_op(src, &ty)).collect();
                Case::Plain { a: Mk(a), b: Mk(b), phys, form, ops }
            }
            _ => {
                let ty = src.usize(all_kinds().len());
                let k = &all_kinds()[ty];
                let storage = src.usize(k.others.len());
                let (phys, _) = gen_raw(src, &k.vec.ty());
                Case::Stored { ty, name: k.others[storage].1.name(), storage, phys }
            }
        }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        match case {
            Case::Omitted { mk, phys, ops } => {
                let ty = mk.0.ty();
                let mut model = decode(&ty, phys)?;
                let full = explicit(&ty, phys);
                let (mut a, mut b) = (mk.0.from_phys(phys)?, mk.0.from_phys(&full)?);
                ctx.label("omitted and explicit");
                ctx.label_if(omitted(phys) > 1, "several levels omitted");
                let mut kept = omitted(phys);
                if model.len() >= 2 && kept > 0 {
                    ctx.nontrivial();
                }
                alike(&*a, &*b, ctx)?;
                ensure_eq!(a.nulls(), b.nulls(), "null information");
                for (k, op) in ops.iter().enumerate() {
                    let at = |e: String| format!("after step {k}: {e}");
                    let mut other = model.clone();
                    apply(&mut a, &mut model, op).map_err(at)?;
                    apply(&mut b, &mut other, op).map_err(at)?;
                    alike(&*a, &*b, ctx).map_err(at)?;
                    ensure_eq!(a.nulls(), b.nulls(), "after step {k}: null information");
                    match op {
                        Op::Truncate(..) | Op::Rebuild => {
                            ensure_eq!(omitted(&a.dump()), kept, "after step {k}: levels with omitted validity");
                        }
                        _ => kept = omitted(&a.dump()),
                    }
                    reads(&*a, &model, ctx).map_err(at)?;
                }
                finish(a, b, &ty, &ty, &model, ctx)
            }
            Case::Plain { a, b, phys, form, ops } => {
                let (ta, tb) = (a.0.ty(), b.0.ty());
                let mut model = decode(&tb, phys)?;
                let whole = Phys::Valid { bitmap: form.clone(), child: Box::new(phys.clone()) };
                let (mut x, mut y) = (a.0.from_phys(&whole)?, b.0.from_phys(phys)?);
                ctx.label("nullable and non-nullable");
                if model.len() >= 2 {
                    ctx.nontrivial();
                }
                alike(&*x, &*y, ctx)?;
                for (k, op) in ops.iter().enumerate() {
                    let at = |e: String| format!("after step {k}: {e}");
                    let mut other = model.clone();
                    apply(&mut x, &mut model, op).map_err(at)?;
                    apply(&mut y, &mut other, op).map_err(at)?;
                    alike(&*x, &*y, ctx).map_err(at)?;
                    let n = x.nulls();
                    ensure!(
                        n[0].null_count == 0 && n[0].valid_count == model.len() && n[0].all_valid && !n[0].any_null,
                        "after step {k}: null information {:?} without nulls",
                        n[0]
                    );
                    ensure_eq!(n[1..].to_vec(), y.nulls(), "after step {k}: inner null information");
                }
                finish(x, y, &ta, &tb, &model, ctx)
            }
            Case::Stored { ty, storage, phys, .. } => {
                let k = &all_kinds()[*ty];
                let (kind, s) = k.others[*storage];
                let t = s.ty();
                let model = decode(&t, phys)?;
                let (a, b) = (s.from_phys(phys)?, s.from_phys(&explicit(&t, phys))?);
                ctx.label(kind);
                if model.len() >= 2 && omitted(phys) > 0 {
                    ctx.nontrivial();
                }
                alike(&*a, &*b, ctx)?;
                ensure_eq!(a.nulls(), b.nulls(), "null information");
                ensure_eq!(omitted(&a.dump()), omitted(phys), "levels with omitted validity after reading");
                iterates(a.into_steps(), &model, 0, "consuming iteration, omitted")?;
                iterates(b.into_steps(), &model, 1, "consuming iteration, explicit")
            }
        }
    }
}
fn finish(a: Box<dyn Grow>, b: Box<dyn Grow>, ta: &Ty, tb: &Ty, model: &[Val], ctx: &mut Ctx) -> Outcome {
    memory(&*a, ta, model, ctx)?;
    memory(&*b, tb, model, ctx)?;
    nulls_match(&*a, ta, model, ctx)?;
    nulls_match(&*b, tb, model, ctx)?;
    consumes(a, model, ctx)?;
    consumes(b, model, ctx)
}

fn main() {
    main_for::<P>();
}

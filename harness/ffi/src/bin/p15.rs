//! P15: exports conform to the Arrow C Data Interface and denote the same items.
use vffi::{Exp, Known, Sch, bit_offsets, conforms, fixed, items, known, raw_array, raw_schema, without_offsets};
use vharness::{
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, mem,
    phys::{Phys, RawOpts, decode, gen_fixed, gen_phys},
    val::{Ty, gen_dens, gen_len},
};

#[global_allocator]
static WATCH: mem::Watch = mem::Watch;

#[derive(Debug)]
#[allow(dead_code)]
enum Case {
    Kinds { row: usize, name: &'static str, phys: Phys },
    Fixed { row: usize, name: &'static str, phys: Phys },
}

fn one(what: &str, c: Box<dyn Exp>, ty: &Ty, sch: &Sch, own: bool, ctx: &mut Ctx) -> Outcome {
    let k: Known = known(&*c, ty, sch)?;
    let mut off = Vec::new();
    bit_offsets(&k.phys, &mut off);
    let r = mem::watched(|| c.export());
    let fail = |e: String| format!("{what}: {e}");
    match r {
        Err(narrow_ffi::ExportError::NonZeroOffset { offset }) => {
            ensure!(off.contains(&offset), "{what}: refused for offset {offset}, the array's offsets are {off:?}");
            let shown = narrow_ffi::ExportError::NonZeroOffset { offset }.to_string();
            ensure!(shown.contains(&offset.to_string()), "{what}: the message {shown:?} does not mention {offset}");
            ctx.label("refused for a bit offset");
        }
        Err(e) => return Err(fail(format!("refused with {e:?}"))),
        Ok((a, s)) => {
            ensure!(off.is_empty(), "{what}: exported in spite of bit offsets {off:?}");
            ensure!(!a.is_released() && !s.is_released(), "{what}: exported structures say they are released");
            let (a, s) = (raw_array(a), raw_schema(s));
            conforms(&raw const a, Some(&raw const s), &k, own).map_err(fail)?;
            ctx.checks += k.model.len() as u64 + 10 * k.sch.depth() as u64;
            ctx.label_if(k.sch.depth() > 1, "nested");
            // SAFETY: handed over by the export, released once each.
            unsafe {
                let (mut a, mut s) = (a, s);
                (a.release.expect("live"))(&raw mut a);
                (s.release.expect("live"))(&raw mut s);
            }
        }
    }
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P15";
    const RULE: &'static str = "random valid memory of a random exportable type (at times with a bit offset somewhere, or validity omitted), in vectors, boxes, shared and borrowed slices, or fixed arrays; every exported structure is read through its C layout by an independent reader of the interface: every field, the items, and whether the buffers are the array's own; non-trivial: at least two items exported";
    fn cases(thorough: bool) -> u64 {
        if thorough { 24_000_000 } else { 1_200_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let offsets = src.chance(1, 6);
        let d = gen_dens(src);
        if src.chance(1, 5) {
            let row = src.usize(fixed().len());
            let (n, s) = fixed()[row];
            let mut phys = gen_fixed(src, &s.ty(), n, d, None);
            if !offsets {
                // The bytes must keep their number.
                fn shift(p: &mut Phys) {
                    match p {
                        Phys::Bits(b) => b.offset = 0,
                        Phys::Prim { .. } | Phys::Items(_) => {}
                        Phys::Flat { child, .. } | Phys::Offs { child, .. } => shift(child),
                        Phys::Valid { bitmap, child } => {
                            if let Some(b) = bitmap {
                                b.offset = 0;
                            }
                            shift(child);
                        }
                    }
                }
                shift(&mut phys);
            }
            Case::Fixed { row, name: s.name(), phys }
        } else {
            let row = src.usize(items().len());
            let i = &items()[row];
            let n = if src.chance(1, 6) { gen_len(src, (3000 / i.ty.weight()).max(3)) } else { src.range(0, 30) };
            let spare = offsets || src.chance(1, 2);
            let mut phys = gen_phys(src, &i.ty, n, d, RawOpts { offsets: spare, omit: true });
            if !offsets {
                without_offsets(&mut phys);
            }
            Case::Kinds { row, name: i.maker.name(), phys }
        }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        mem::clear();
        let (ty, phys) = match case {
            Case::Kinds { row, phys, .. } => {
                let i = &items()[*row];
                for (kind, s) in &i.sources {
                    let c = mem::watched(|| s.build(phys))?;
                    one(kind, c, &i.ty, &i.sch, true, ctx)?;
                }
                (i.ty.clone(), phys)
            }
            Case::Fixed { row, phys, .. } => {
                let s = fixed()[*row].1;
                let c = mem::watched(|| s.build(phys))?;
                one("array", c, &s.ty(), &s.sch(), false, ctx)?;
                ctx.label("fixed arrays");
                (s.ty(), phys)
            }
        };
        let mut off = Vec::new();
        bit_offsets(phys, &mut off);
        if decode(&ty, phys)?.len() >= 2 && off.is_empty() {
            ctx.nontrivial();
        }
        mem::sound()
    }
}

fn main() {
    main_for::<P>();
}

//! P18: any valid foreign array of a supported type is imported exactly.
use vffi::{
    foreign::{Foreign, Level, emit, gen_level, releases},
    items, without_offsets,
};
use vharness::{
    common::{consumes, nulls_match, reads, reads_light},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::{RawOpts, decode, gen_phys, Phys},
    val::{Ty, gen_dens, gen_len},
};

#[derive(Debug)]
#[allow(dead_code)]
struct Case {
    row: usize,
    name: &'static str,
    phys: Phys,
    level: Level,
    others: Vec<usize>,
}

fn within(c: &dyn vharness::coll::Read, f: &Foreign) -> Outcome {
    let mut given = f.buffers.iter();
    for (at, len) in c.addrs() {
        ensure!(
            len == 0 || given.any(|(p, n)| *p == at && *n >= len),
            "the import's buffer of {len} bytes at {at:#x} is none of the producer's {:x?}",
            f.buffers
        );
    }
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P18";
    const RULE: &'static str = "random valid memory of a random importable type described by a foreign producer using the freedom the interface leaves (null counts known or not, validity omitted or redundant, padding, child tails, ranges under nulls, names, metadata, extra flags, null or dangling pointers where nothing is stored), in read-only memory in which every piece borders on an inaccessible page; the import's every read path, null information and buffer addresses are compared with what the interface says the memory means, after the schema has been overwritten; importing as other types must be refused and no release callback may run; non-trivial: at least two items";
    const ASSUMPTIONS: &'static [&'static str] =
        &["a read outside the given buffers shows as a crash of the check's worker where the buffer borders on the inaccessible page on that side"];
    fn cases(thorough: bool) -> u64 {
        if thorough { 80_000_000 } else { 4_000_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let row = src.usize(items().len());
        let i = &items()[row];
        let d = gen_dens(src);
        let n = if src.chance(1, 6) { gen_len(src, (3000 / i.ty.weight()).max(3)) } else { src.range(0, 30) };
        let mut phys = gen_phys(src, &i.ty, n, d, RawOpts { offsets: true, omit: true });
        without_offsets(&mut phys);
        let level = gen_level(src, &i.sch, &phys);
        let k = src.range(0, 4);
        let others = (0..k).map(|_| src.usize(items().len())).collect();
        Case { row, name: i.maker.name(), phys, level, others }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let item = &items()[case.row];
        let ty: &Ty = &item.ty;
        let model = decode(ty, &case.phys).map_err(|e| format!("harness: {e}"))?;
        let before = releases();
        let f = emit(&case.level);
        for o in &case.others {
            let other = &items()[*o];
            // SAFETY: in the arena, which is only cleared by the next case.
            let r = unsafe { other.port.import(f.array, f.schema) };
            if *o == case.row {
                let c = r.map_err(|e| format!("a valid array is refused: {e:?}"))?;
                reads_light(&*c, &model, ctx)?;
            } else {
                ctx.checks += 1;
                ctx.label("other type");
                ensure!(r.is_err(), "an array of {:?} is imported as {:?}", item.sch, other.sch);
            }
        }
        // SAFETY: as above.
        let r = unsafe { item.port.import(f.array, f.schema) };
        let c = r.map_err(|e| format!("a valid array is refused: {e:?}"))?;
        f.scramble_schema();
        if model.len() >= 2 {
            ctx.nontrivial();
        }
        let mut l = Some(&case.level);
        while let Some(x) = l {
            ctx.label_if(x.null_count == -1, "unknown null count");
            ctx.label_if(x.metadata.is_some(), "metadata");
            ctx.label_if(x.flags & !2 != 0, "extra flags");
            l = x.child.as_deref();
        }
        ctx.label_if(item.sch.child.is_some(), "nested");
        ensure_eq!(c.len(), model.len(), "length of the imported array");
        reads(&*c, &model, ctx)?;
        nulls_match(&*c, ty, &model, ctx)?;
        within(&*c, &f)?;
        consumes(c, &model, ctx)?;
        ensure!(releases() == before, "the import releases the producer's structures");
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

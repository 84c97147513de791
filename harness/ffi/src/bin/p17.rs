//! P17: export followed by import is lossless and copies nothing.
use vffi::{CArray, CSchema, Exp, Known, Shape, fixed, items, known, raw_array, raw_schema, snapshot, without_offsets};
use vharness::{
    common::{Op, Start, apply, consumes, drain, gen_op, gen_start, nulls_match, reads, reads_light, same_items, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq, mem,
    phys::{Phys, RawOpts, gen_fixed, gen_phys},
    val::{gen_dens, gen_len},
};

#[global_allocator]
static WATCH: mem::Watch = mem::Watch;

#[derive(Debug)]
#[allow(dead_code)]
enum What {
    /// Grown step by step.
    Grown { row: usize, name: &'static str, start: Start, ops: Vec<Op> },
    Kind { row: usize, storage: usize, name: &'static str, phys: Phys },
    Fixed { row: usize, name: &'static str, phys: Phys },
}
#[derive(Debug)]
#[allow(dead_code)]
struct Case {
    what: What,
    /// Other types to try importing as.
    others: Vec<usize>,
    /// How often an import is exported and imported again.
    chain: usize,
}

struct Pair {
    a: CArray,
    s: CSchema,
}
impl Drop for Pair {
    fn drop(&mut self) {
        // SAFETY: handed over by the export, released once each.
        unsafe {
            if let Some(f) = self.a.release {
                f(&raw mut self.a);
            }
            if let Some(f) = self.s.release {
                f(&raw mut self.s);
            }
        }
    }
}

/// Imports, compares with what was exported and returns the import.
fn import(p: &Pair, row: usize, k: &Known, own: bool, ctx: &mut Ctx) -> Result<Box<dyn Exp>, String> {
    let item = &items()[row];
    // SAFETY: the pair outlives the import.
    let c = unsafe { item.port.import(&raw const p.a, &raw const p.s) }
        .map_err(|e| format!("importing as the same type is refused: {e:?}"))?;
    ensure_eq!(c.len(), k.model.len(), "length of the imported array");
    reads(&*c, &k.model, ctx)?;
    nulls_match(&*c, &item.ty, &k.model, ctx)?;
    let mut mine = k.addrs.iter();
    if own {
        shares(&*c, k, &mut mine)?;
    }
    Ok(c)
}

/// Every buffer the import uses is the exported array's own.
fn shares(c: &dyn Exp, k: &Known, mine: &mut std::slice::Iter<'_, (usize, usize)>) -> Outcome {
    for (at, len) in c.addrs() {
        if len == 0 {
            continue;
        }
        ensure!(
            mine.any(|(p, n)| *p == at && *n >= len),
            "the import's buffer of {len} bytes is none of the array's own {:x?}",
            k.addrs
        );
    }
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P17";
    const RULE: &'static str = "arrays of a random exportable type, grown by a random history or laid over random memory in a random storage, are exported and imported back, repeatedly and in chains of export and import; every read path of the import, its null information and buffer addresses are compared with the original; importing as other types must be refused; the structures must stay bit for bit as exported; non-trivial: at least two items exported";
    fn cases(thorough: bool) -> u64 {
        if thorough { 8_000_000 } else { 400_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let what = match src.weighted(&[3, 4, 1]) {
            0 => {
                let row = src.usize(items().len());
                let i = &items()[row];
                let mut start = gen_start(src, &i.ty, 1);
                if let Start::Raw(p) = &mut start {
                    without_offsets(p);
                }
                let n = src.range(0, 5);
                let ops = (0..n).map(|_| gen_op(src, &i.ty)).collect();
                What::Grown { row, name: i.maker.name(), start, ops }
            }
            1 => {
                let row = src.usize(items().len());
                let i = &items()[row];
                let storage = src.usize(i.sources.len());
                let d = gen_dens(src);
                let n = if src.chance(1, 6) { gen_len(src, (3000 / i.ty.weight()).max(3)) } else { src.range(0, 30) };
                let spare = src.chance(1, 2);
                let mut phys = gen_phys(src, &i.ty, n, d, RawOpts { offsets: spare, omit: true });
                without_offsets(&mut phys);
                What::Kind { row, storage, name: i.sources[storage].1.name(), phys }
            }
            _ => {
                let row = src.usize(fixed().len());
                let (n, s) = fixed()[row];
                let d = gen_dens(src);
                let phys = gen_fixed(src, &s.ty(), n, d, None);
                What::Fixed { row, name: s.name(), phys }
            }
        };
        let n = src.range(0, 6);
        let others = (0..n).map(|_| src.usize(items().len())).collect();
        let chain = src.range(0, 3);
        Case { what, others, chain }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        mem::clear();
        let mut expect = None;
        let (row, c, own): (usize, Box<dyn Exp>, bool) = match &case.what {
            What::Grown { row, start: st, ops, .. } => {
                let i = &items()[*row];
                let (mut g, mut model) = start(i.maker, st)?;
                for op in ops {
                    apply(&mut g, &mut model, op)?;
                }
                expect = Some(model);
                ctx.label("grown");
                (*row, i.port.grown(g), true)
            }
            What::Kind { row, storage, phys, .. } => {
                let i = &items()[*row];
                let (kind, s) = i.sources[*storage];
                ctx.label(kind);
                (*row, mem::watched(|| s.build(phys))?, true)
            }
            What::Fixed { row, phys, .. } => {
                let s = fixed()[*row].1;
                ctx.label("array");
                let sch = s.sch();
                let row = items().iter().position(|i| i.sch == sch).ok_or("harness: item type")?;
                (row, mem::watched(|| s.build(phys))?, false)
            }
        };
        let item = &items()[row];
        let k = known(&*c, &item.ty, &item.sch)?;
        if let Some(model) = expect {
            // The items exported are those of the history.
            same_items(&k.model, &model, "the grown array's memory")?;
        }
        let (a, s) = match mem::watched(|| c.export()) {
            Ok(e) => e,
            Err(_) => {
                let mut off = Vec::new();
                vffi::bit_offsets(&k.phys, &mut off);
                ensure!(!off.is_empty(), "an array without bit offsets is refused");
                ctx.label("refused");
                return Ok(());
            }
        };
        if k.model.len() >= 2 {
            ctx.nontrivial();
        }
        let pair = Pair { a: raw_array(a), s: raw_schema(s) };
        let before: Shape = snapshot(&raw const pair.a, &raw const pair.s)?;
        let one = import(&pair, row, &k, own, ctx)?;
        let two = import(&pair, row, &k, own, ctx)?;
        ensure!(one.addrs() == two.addrs(), "two imports of the same structures differ");
        consumes(two, &k.model, ctx)?;
        for o in &case.others {
            let other = &items()[*o];
            // SAFETY: as above; nothing of it is kept.
            let r = unsafe { other.port.import(&raw const pair.a, &raw const pair.s) };
            if *o == row {
                let c = r.map_err(|e| format!("importing once more is refused: {e:?}"))?;
                reads_light(&*c, &k.model, ctx)?;
            } else {
                ctx.label("other type");
                ctx.checks += 1;
                ensure!(r.is_err(), "structures of {:?} are imported as {:?}", item.sch, other.sch);
            }
        }
        reads_light(&*one, &k.model, ctx)?;
        // In chains, the buffers stay the first array's.
        let mut last = one;
        let mut links = Vec::new();
        for _ in 0..case.chain {
            let kn = known(&*last, &item.ty, &item.sch)?;
            let (a, s) = mem::watched(|| last.export()).map_err(|e| format!("exporting an import is refused: {e:?}"))?;
            links.push(Box::new(Pair { a: raw_array(a), s: raw_schema(s) }));
            let p = links.last().ok_or("harness: chain")?;
            last = import(p, row, &kn, true, ctx)?;
            same_items(&kn.model, &k.model, "a chain of imports")?;
            if own {
                shares(&*last, &k, &mut k.addrs.iter())?;
            }
            ctx.label("chained");
        }
        drop(last);
        while links.pop().is_some() {}
        ensure!(before == snapshot(&raw const pair.a, &raw const pair.s)?, "importing changed the structures");
        mem::sound()?;
        // The structures are as good as ever.
        let c = import(&pair, row, &k, own, ctx)?;
        same_items(&drain(c.iter()), &k.model, "a last import")?;
        drop(c);
        drop(pair);
        mem::sound()
    }
}

fn main() {
    main_for::<P>();
}

//! P16: exported memory lives until release and is freed exactly once.
use std::rc::Rc;

use narrow_ffi::{ArrowArray, ArrowSchema, ExportError};
use vffi::{
    CArray, CSchema, Exp, Known, Sch, bit_offsets, child_array, child_phys, child_schema, conforms, fixed, items, known,
    own_addrs, raw_array, raw_schema, read_schema, without_offsets,
};
use vharness::{
    common::{drain, same_items},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, mem,
    phys::{Phys, RawOpts, decode, gen_fixed, gen_phys, stored},
    val::gen_dens,
};

#[global_allocator]
static WATCH: mem::Watch = mem::Watch;

#[derive(Debug)]
#[allow(dead_code)]
enum What {
    Kind { row: usize, storage: usize, name: &'static str },
    Fixed { row: usize, name: &'static str },
}

/// A lifecycle step; operands choose among what is there at the time.
#[derive(Debug, Clone, Copy)]
enum Step {
    /// By hand, or as Rust code takes a value out of its place.
    Move(usize, bool),
    Read(usize),
    Release(usize),
    Drop(usize),
    /// Moves a child out and releases the parent, explicitly or by dropping.
    Take(usize, bool),
    /// Imports an array with a fitting schema, reads it, and exports the
    /// imported array in turn for a moment.
    Import(usize, bool),
    ReadClone(usize),
    DropClone(usize),
    ExportClone(usize),
}

#[derive(Debug)]
#[allow(dead_code)]
struct Case {
    what: What,
    phys: Phys,
    clones: usize,
    steps: Vec<Step>,
    end: Vec<(usize, bool)>,
}

/// A structure at an address of its own.
enum Slot {
    Array(*mut CArray, Rc<Known>),
    Schema(*mut CSchema, Sch),
}

fn place<T>(v: T) -> *mut T {
    mem::watched(|| Box::into_raw(Box::new(v)))
}
/// Frees the place without running a destructor.
fn vacate<T>(p: *mut T) {
    // SAFETY: made by `place`, not used again.
    drop(unsafe { Box::from_raw(p.cast::<std::mem::ManuallyDrop<T>>()) });
}

/// Drops the structure at `p` as its Rust owner would.
fn drop_array(p: *mut CArray) {
    // SAFETY: same layout; not used again.
    drop(unsafe { Box::from_raw(p.cast::<ArrowArray>()) });
}
fn drop_schema(p: *mut CSchema) {
    // SAFETY: same layout; not used again.
    drop(unsafe { Box::from_raw(p.cast::<ArrowSchema>()) });
}

impl Slot {
    fn moved(self, take: bool) -> Result<Slot, String> {
        // SAFETY: live places, of the same layout.
        Ok(unsafe {
            match self {
                Slot::Array(p, k) if take => {
                    let old = p.cast::<ArrowArray>();
                    let q = place(mem::watched(|| std::mem::take(&mut *old))).cast::<CArray>();
                    ensure!((*old).is_released() && (*p).release.is_none(), "a default array is not released");
                    drop_array(p);
                    Slot::Array(q, k)
                }
                Slot::Schema(p, s) if take => {
                    let old = p.cast::<ArrowSchema>();
                    let q = place(mem::watched(|| std::mem::take(&mut *old))).cast::<CSchema>();
                    ensure!((*old).is_released() && (*p).release.is_none(), "a default schema is not released");
                    drop_schema(p);
                    Slot::Schema(q, s)
                }
                Slot::Array(p, k) => {
                    let q = place(*p);
                    (*p).release = None;
                    vacate(p);
                    Slot::Array(q, k)
                }
                Slot::Schema(p, s) => {
                    let q = place(*p);
                    (*p).release = None;
                    vacate(p);
                    Slot::Schema(q, s)
                }
            }
        })
    }
    fn read(&self) -> Outcome {
        // SAFETY: live places, of the same layout.
        let released = unsafe {
            match self {
                Slot::Array(p, _) => (*p.cast::<ArrowArray>()).is_released(),
                Slot::Schema(p, _) => (*p.cast::<ArrowSchema>()).is_released(),
            }
        };
        ensure!(!released, "a live structure passes for released");
        match self {
            Slot::Array(p, k) => conforms(*p, None, k, !k.addrs.is_empty()),
            Slot::Schema(p, sch) => {
                let s = read_schema(*p)?;
                ensure!(s == *sch, "schema {s:?} instead of {sch:?}");
                Ok(())
            }
        }
    }
    fn end(self, explicit: bool) -> Outcome {
        // SAFETY: live places; the structures are released once.
        unsafe {
            match self {
                Slot::Array(p, _) => {
                    if explicit {
                        ((*p).release.ok_or("a live array is marked released")?)(p);
                        ensure!((*p).release.is_none(), "release did not mark the array released");
                        ensure!((*p.cast::<ArrowArray>()).is_released(), "a released array passes for live");
                    }
                    drop_array(p);
                }
                Slot::Schema(p, _) => {
                    if explicit {
                        ((*p).release.ok_or("a live schema is marked released")?)(p);
                        ensure!((*p).release.is_none(), "release did not mark the schema released");
                        ensure!((*p.cast::<ArrowSchema>()).is_released(), "a released schema passes for live");
                    }
                    drop_schema(p);
                }
            }
        }
        Ok(())
    }
    /// Moves the child out and releases the parent.
    fn take(self, explicit: bool) -> Result<Slot, String> {
        // SAFETY: live places; the child is marked moved at its old place.
        unsafe {
            match &self {
                Slot::Array(p, k) => {
                    let c = child_array(&**p)?;
                    mem::readable(c as usize, 80, "a child array")?;
                    let q = place(*c);
                    ensure!((*q).release.is_some(), "a child array is released");
                    (*c).release = None;
                    let phys = child_phys(&k.phys).ok_or("harness: child")?.clone();
                    let sch = k.sch.child.as_deref().ok_or("harness: child")?.clone();
                    let ty = sch.ty().ok_or("harness: type")?;
                    let model = decode(&ty, &phys)?;
                    let addrs = k.addrs.get(own_addrs(&k.phys)..).unwrap_or(&[]).to_vec();
                    self.end(explicit)?;
                    Ok(Slot::Array(q, Rc::new(Known { ty, sch, phys, model, addrs })))
                }
                Slot::Schema(p, s) => {
                    let c = child_schema(&**p)?;
                    mem::readable(c as usize, 72, "a child schema")?;
                    let q = place(*c);
                    ensure!((*q).release.is_some(), "a child schema is released");
                    (*c).release = None;
                    let sch = s.child.as_deref().ok_or("harness: child")?.clone();
                    self.end(explicit)?;
                    Ok(Slot::Schema(q, sch))
                }
            }
        }
    }
    fn has_child(&self) -> bool {
        match self {
            Slot::Array(_, k) => k.sch.child.is_some(),
            Slot::Schema(_, s) => s.child.is_some(),
        }
    }
}

fn put(slots: &mut Vec<Slot>, e: (ArrowArray, ArrowSchema), k: Rc<Known>) {
    let sch = k.sch.clone();
    slots.push(Slot::Array(place(raw_array(e.0)), k));
    slots.push(Slot::Schema(place(raw_schema(e.1)), sch));
}

fn import(a: *const CArray, s: *const CSchema, k: &Known, again: bool, ctx: &mut Ctx) -> Outcome {
    let Some(item) = items().iter().find(|i| i.sch == k.sch) else { return Ok(()) };
    // SAFETY: both are live while the import is used.
    let c = unsafe { item.port.import(a, s) }.map_err(|e| format!("import refused: {e:?}"))?;
    same_items(&drain(c.iter()), &k.model, "the imported array")?;
    ctx.label("imported");
    if again {
        let known = known(&*c, &k.ty, &k.sch)?;
        let (a, s) = mem::watched(|| c.export()).map_err(|e| format!("export of an import refused: {e:?}"))?;
        let (a, s) = (place(raw_array(a)), place(raw_schema(s)));
        conforms(a, Some(s), &known, true)?;
        drop_schema(s);
        drop_array(a);
        ctx.label("exported an import");
    }
    Ok(())
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P16";
    const RULE: &'static str = "random memory of a random exportable type and storage is exported; the structures, and clones sharing the storage, then go through a random sequence of moves to other addresses, reads through the C layout, imports, exports of imports and clones, moving children out and releasing the parent, explicit releases and drops, until all are gone, in random order; every allocation is watched: nothing read may lie in freed memory, freed memory is never written, nothing is freed twice or differently than allocated, the storage is gone once the last array sharing it is, and nothing is left; refused exports leave nothing; non-trivial: at least three steps on an export";
    fn cases(thorough: bool) -> u64 {
        if thorough { 72_000_000 } else { 3_600_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let d = gen_dens(src);
        let offsets = src.chance(1, 10);
        let (what, phys) = if src.chance(1, 6) {
            let row = src.usize(fixed().len());
            let (n, s) = fixed()[row];
            let phys = gen_fixed(src, &s.ty(), n, d, None);
            (What::Fixed { row, name: s.name() }, phys)
        } else {
            let row = src.usize(items().len());
            let i = &items()[row];
            let storage = src.usize(i.sources.len());
            let n = src.range(0, 12);
            let spare = src.chance(1, 2);
            let mut phys = gen_phys(src, &i.ty, n, d, RawOpts { offsets: offsets || spare, omit: true });
            if !offsets {
                without_offsets(&mut phys);
            }
            (What::Kind { row, storage, name: i.sources[storage].1.name() }, phys)
        };
        let clones = if src.chance(1, 3) { src.range(1, 2) } else { 0 };
        let n = src.range(0, 14);
        let steps = (0..n)
            .map(|_| {
                let a = src.usize(8);
                match src.weighted(&[4, 4, 2, 2, 5, 3, 1, 1, 1]) {
                    0 => Step::Move(a, src.bool()),
                    1 => Step::Read(a),
                    2 => Step::Release(a),
                    3 => Step::Drop(a),
                    4 => Step::Take(a, src.bool()),
                    5 => Step::Import(a, src.bool()),
                    6 => Step::ReadClone(a),
                    7 => Step::DropClone(a),
                    _ => Step::ExportClone(a),
                }
            })
            .collect();
        let end = (0..6).map(|_| (src.usize(8), src.bool())).collect();
        Case { what, phys, clones, steps, end }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        mem::clear();
        let (source, ty, sch, keeps, own) = match &case.what {
            What::Kind { row, storage, .. } => {
                let i = &items()[*row];
                let (kind, s) = i.sources[*storage];
                ctx.label(kind);
                (s, i.ty.clone(), i.sch.clone(), kind == "slice", true)
            }
            What::Fixed { row, .. } => {
                let s = fixed()[*row].1;
                ctx.label("array");
                (s, s.ty(), s.sch(), false, false)
            }
        };
        let (c, given) = stored(|| mem::watched(|| source.build(&case.phys)));
        let borrowed: &[(usize, usize)] = if keeps { &given } else { &[] };
        let c = c?;
        let mut k = known(&*c, &ty, &sch)?;
        if !own {
            k.addrs.clear();
        }
        let k = Rc::new(k);
        let mut clones: Vec<(Box<dyn Exp>, Rc<Known>)> = Vec::new();
        for _ in 0..case.clones {
            if let Some(d) = mem::watched(|| c.try_clone()) {
                let mut kd = known(&*d, &ty, &sch)?;
                if !own {
                    kd.addrs.clear();
                }
                clones.push((d, Rc::new(kd)));
            }
        }
        let mut off = Vec::new();
        bit_offsets(&k.phys, &mut off);
        let mut slots = Vec::new();
        match mem::watched(|| c.export()) {
            Err(ExportError::NonZeroOffset { offset }) => {
                ensure!(off.contains(&offset), "refused for offset {offset} of {off:?}");
                ctx.label("refused");
            }
            Err(e) => return Err(format!("refused with {e:?}")),
            Ok(e) => {
                ensure!(off.is_empty(), "exported in spite of bit offsets {off:?}");
                put(&mut slots, e, k);
            }
        }
        let mut done = 0;
        for step in &case.steps {
            ctx.checks += 1;
            let at = |a: usize, n: usize| (n > 0).then(|| a % n.max(1));
            match *step {
                Step::ReadClone(a) => {
                    if let Some(i) = at(a, clones.len()) {
                        let (c, k) = &clones[i];
                        same_items(&drain(c.iter()), &k.model, "a clone of the exported array")?;
                    }
                }
                Step::DropClone(a) => {
                    if let Some(i) = at(a, clones.len()) {
                        drop(clones.swap_remove(i));
                    }
                }
                Step::ExportClone(a) => {
                    if let Some(i) = at(a, clones.len()) {
                        let (c, k) = clones.swap_remove(i);
                        if let Ok(e) = mem::watched(|| c.export()) {
                            put(&mut slots, e, k);
                            ctx.label("exported a clone");
                        }
                    }
                }
                Step::Import(a, again) => {
                    let arrays: Vec<(*mut CArray, Rc<Known>)> = slots
                        .iter()
                        .filter_map(|s| match s {
                            Slot::Array(p, k) => Some((*p, k.clone())),
                            _ => None,
                        })
                        .collect();
                    if let Some(i) = at(a, arrays.len()) {
                        let (p, k) = &arrays[i];
                        let fit = slots.iter().find_map(|s| match s {
                            Slot::Schema(q, sch) if *sch == k.sch => Some(*q),
                            _ => None,
                        });
                        if let Some(q) = fit {
                            import(*p, q, k, again, ctx)?;
                        }
                    }
                }
                Step::Move(a, _) | Step::Read(a) | Step::Release(a) | Step::Drop(a) | Step::Take(a, _) => {
                    let Some(i) = at(a, slots.len()) else { continue };
                    done += 1;
                    match *step {
                        Step::Read(_) => slots[i].read().map_err(|e| format!("while live: {e}"))?,
                        Step::Move(_, take) => {
                            let s = slots.swap_remove(i).moved(take)?;
                            slots.push(s);
                        }
                        Step::Take(_, explicit) => {
                            if slots[i].has_child() {
                                let s = slots.swap_remove(i).take(explicit)?;
                                s.read().map_err(|e| format!("a child moved out of its released parent: {e}"))?;
                                slots.push(s);
                                ctx.label("child moved out");
                            }
                        }
                        Step::Release(_) | Step::Drop(_) => {
                            let s = slots.swap_remove(i);
                            s.end(matches!(step, Step::Release(_)))?;
                        }
                        _ => unreachable!(),
                    }
                }
            }
            mem::sound()?;
        }
        for s in &slots {
            s.read().map_err(|e| format!("at the end: {e}"))?;
        }
        if done >= 3 {
            ctx.nontrivial();
        }
        let mut order = case.end.iter();
        while !slots.is_empty() {
            let (i, explicit) = order.next().copied().unwrap_or((0, false));
            let i = i % slots.len();
            slots.swap_remove(i).end(explicit)?;
            mem::sound()?;
            for s in &slots {
                s.read().map_err(|e| format!("after another structure's end: {e}"))?;
            }
            let arrays = slots.iter().filter(|s| matches!(s, Slot::Array(..))).count();
            if arrays == 0 && clones.is_empty() {
                for (at, len) in &given {
                    ensure!(keeps || *len == 0 || !mem::is_live(*at), "storage outlives the last array that shares it");
                }
            }
        }
        for (c, k) in clones {
            same_items(&drain(c.iter()), &k.model, "a clone after the exports are gone")?;
        }
        mem::sound()?;
        let left = mem::live(borrowed);
        ensure!(left == 0, "{left} blocks are never freed");
        Ok(())
    }
}

fn main() {
    main_for::<P>();
}

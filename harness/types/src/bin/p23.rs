//! P23: growing is amortised.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

use vharness::{
    common::{Start, gen_start, memory, nulls_match, reads_light, start},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure,
    feed::{Feed, Plan},
    val::{Val, gen_dens, gen_vals},
};
use vtypes::{Mk, gen_maker};

/// Never grows memory in place, so that every growth shows, and counts the
/// bytes handed out.
struct Moving;
static TAKEN: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        TAKEN.fetch_add(l.size(), Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        TAKEN.fetch_add(l.size(), Relaxed);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    // Reallocation allocates anew, copies and frees.
}
#[global_allocator]
static GLOBAL: Moving = Moving;

#[derive(Debug, Clone, Copy)]
enum How {
    Append,
    Try,
    ReserveAppend,
    TryReserveTry,
}
const HOW: [How; 4] = [How::Append, How::Try, How::ReserveAppend, How::TryReserveTry];

#[derive(Debug)]
struct Case {
    mk: Mk,
    start: Start,
    /// One way throughout, or each in turn.
    how: Option<How>,
    /// Appended over and over.
    pool: Vec<Val>,
    batch: usize,
    steps: usize,
}

/// What an item itself may cost, generously.
fn bytes(v: &Val) -> usize {
    match v {
        Val::L(l) => 64 + l.iter().map(bytes).sum::<usize>(),
        _ => 32,
    }
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P23";
    const RULE: &'static str = "random type over vectors and random start, raw memory included; hundreds of appends of one item or a few, infallible or fallible, with or without a reservation for each, over an allocator that never grows memory in place; every buffer may move only logarithmically often in its growth, all memory taken meanwhile stays proportional to the buffers and items, and the contents, null information and memory are those of the model; non-trivial: some buffer grew to at least four times its size and 64 bytes";
    fn cases(thorough: bool) -> u64 {
        if thorough { 800_000 } else { 40_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let mk = gen_maker(src);
        let ty = mk.0.ty();
        let start = gen_start(src, &ty, 1);
        let n = src.range(1, 12);
        let d = gen_dens(src);
        let pool = gen_vals(src, &ty, n, d);
        let batch = match src.weighted(&[3, 1, 1]) {
            0 => 1,
            1 => src.range(2, 5),
            _ => *src.pick(&[7, 8, 9, 16]),
        };
        let how = src.chance(4, 5).then(|| *src.pick(&HOW));
        let steps = src.range(64, 900).min((40_000 / ty.weight() / batch).max(24));
        Case { mk, start, how, pool, batch, steps }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let ty = case.mk.0.ty();
        let (mut c, mut model) = start(case.mk.0, &case.start)?;
        let mut was: Vec<(usize, usize)> = Vec::new();
        let mut from: Vec<usize> = Vec::new();
        let mut moves: Vec<usize> = Vec::new();
        let mut taken = 0;
        let mut items = case.pool.iter().cycle();
        for i in 0..case.steps {
            let batch: Vec<Val> = items.by_ref().take(case.batch).cloned().collect();
            model.extend(batch.iter().cloned());
            let n = batch.len();
            let f = Feed::new(batch, &Plan::EXACT);
            let refused = |_| format!("append {i} of {n} items is refused");
            let before = TAKEN.load(Relaxed);
            match case.how.unwrap_or(HOW[i % 4]) {
                How::Append => c.extend(f),
                How::Try => c.try_extend(f).map_err(refused)?,
                How::ReserveAppend => {
                    c.reserve(n);
                    c.extend(f);
                }
                How::TryReserveTry => {
                    c.try_reserve(n).map_err(refused)?;
                    c.try_extend(f).map_err(refused)?;
                }
            }
            taken += TAKEN.load(Relaxed) - before;
            let now = c.addrs();
            // An append may make null information explicit.
            if now.len() != was.len() {
                ensure!(i == 0 || now.len() > was.len(), "append {i} took the buffers from {} to {}", was.len(), now.len());
                from = now.iter().map(|a| a.1).collect();
                moves = vec![0; now.len()];
            } else {
                for (m, (a, b)) in moves.iter_mut().zip(was.iter().zip(&now)) {
                    *m += usize::from(a.0 != b.0);
                }
            }
            was = now;
        }
        for (k, ((_, to), (from, moves))) in was.iter().zip(from.iter().zip(&moves)).enumerate() {
            let ratio = (to + 16) as f64 / (from + 16) as f64;
            let most = 6 + (3.0 * ratio.log2().max(0.0)) as usize;
            ensure!(
                *moves <= most,
                "buffer {k} moved {moves} times while {} appends took it from {from} to {to} bytes",
                case.steps
            );
            ctx.checks += 1;
            if *to >= 4 * from && *to >= 64 {
                ctx.nontrivial();
            }
        }
        let grown: usize = was.iter().map(|a| a.1 + 64).sum();
        let own = case.pool.iter().map(bytes).sum::<usize>() * (case.steps * case.batch).div_ceil(case.pool.len());
        // Far above what geometric growth and the items take.
        let most = 10 * (grown + own) + 4096;
        ensure!(
            taken <= most,
            "{} appends took {taken} bytes of memory for {grown} bytes of buffers and {own} of items",
            case.steps
        );
        ctx.checks += 1;
        match case.how {
            Some(How::Append) => ctx.label("infallible"),
            Some(How::Try) => ctx.label("fallible"),
            Some(_) => ctx.label("reserved for each append"),
            None => ctx.label("mixed"),
        }
        ctx.label_if(case.batch == 1, "one by one");
        reads_light(&*c, &model, ctx)?;
        memory(&*c, &ty, &model, ctx)?;
        nulls_match(&*c, &ty, &model, ctx)
    }
}

fn main() {
    main_for::<P>();
}

//! P05: bit-packed collections are exact at every bit offset and length.
use narrow::{
    bitmap::{Bitmap, ValidityBitmap},
    buffer::{ArcBuffer, BoxBuffer, BufferRef, RcBuffer, SliceBuffer, VecBuffer},
    collection::{Collection, CollectionRealloc},
    length::Length,
    validity::Validity,
};
use vharness::{
    engine::{Ctx, Outcome, Prop, Src, main_for},
    ensure, ensure_eq,
    phys::Bm,
    val::gen_len,
};

#[derive(Clone, Debug)]
enum Op {
    Extend(Vec<bool>),
    ExtendRef(Vec<bool>),
    TryExtend(Vec<bool>),
    Truncate(usize),
    Reserve(usize),
    TryReserve(usize),
    Clone,
    Rebuild,
}

#[derive(Debug)]
struct Case {
    bm: Bm,
    ops: Vec<Op>,
}

fn gen_bits(src: &mut Src, cap: usize) -> Vec<bool> {
    let mut n = gen_len(src, cap);
    if src.range(0, 300) == 300 {
        n = *src.pick(&[65_535, 65_536, 65_537, 66_001, 131_080]);
    }
    let mut f = src.fork();
    if src.chance(1, 4) {
        let mut v = Vec::with_capacity(n);
        let mut run = f.bool();
        while v.len() < n {
            let k = f.range(1, 150).min(n - v.len());
            v.extend(std::iter::repeat_n(run, k));
            run = !run;
        }
        return v;
    }
    let d = src.below(5);
    (0..n).map(|_| f.below(4) < d).collect()
}

fn bit(bytes: &[u8], i: usize) -> bool {
    bytes[i / 8] >> (i % 8) & 1 == 1
}

struct P;
const LENS: u64 = 20;
const OFFS: u64 = 18;
const APPENDS: u64 = 20;
const FILLS: u64 = 6;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P05";
    const RULE: &'static str = "a bit window over random bytes and a history of appends, truncations and reservations, compared bit by bit with the addressed bytes; the enumerated prefix covers every bit offset 0..18, length 0..20, append length 0..20 over six fillings with append and fallible append; non-trivial: the window does not begin and end on byte boundaries, or at least two mutations";
    fn cases(thorough: bool) -> u64 {
        if thorough { 80_000_000 } else { 4_000_000 }
    }
    fn enumerated(_: bool) -> u64 {
        OFFS * LENS * APPENDS * FILLS
    }
    fn enumerate(mut i: u64) -> Case {
        let mut take = |n: u64| {
            let r = i % n;
            i /= n;
            r
        };
        let (offset, bits, add, fill) = (take(OFFS) as usize, take(LENS) as usize, take(APPENDS) as usize, take(FILLS));
        let n = (offset + bits).div_ceil(8) + (fill as usize % 3);
        let bytes = (0..n).map(|k| match fill % 3 { 0 => 0xff, 1 => 0, _ => (k as u8).wrapping_mul(73) ^ 0x5a }).collect();
        let items: Vec<bool> = (0..add).map(|k| (k as u64 * 5 + fill) % 3 == 0).collect();
        let op = if fill < 3 { Op::Extend(items) } else { Op::TryExtend(items) };
        let cut = bits * 2 / 3;
        Case { bm: Bm { bytes, bits, offset }, ops: vec![op, Op::Truncate(cut), Op::ExtendRef(vec![true, false, true])] }
    }
    fn generate(src: &mut Src) -> Case {
        let offset = match src.weighted(&[300, 200, 100, 1]) {
            0 => src.range(0, 8),
            1 => src.range(0, 40),
            3 => *src.pick(&[2040, 32_760, 65_500]) + src.range(0, 80),
            _ => src.range(0, 700),
        };
        let bits = gen_len(src, 4200);
        let extra = src.range(0, 4) * src.range(0, 2);
        let mut f = src.fork();
        let fill = src.below(4);
        let (mut left, mut run) = (0, 0u8);
        let bytes = (0..(offset + bits).div_ceil(8) + extra)
            .map(|_| match fill {
                0 => f.below(256) as u8,
                1 => 0xff,
                2 => 0,
                // Runs of equal bytes, so that whole words are alike.
                _ => {
                    if left == 0 {
                        left = f.range(1, 20);
                        run = *f.pick(&[0xff, 0, 0xff, 0, 0x7f, 0x80, 0xfe, 1]);
                    }
                    left -= 1;
                    run
                }
            })
            .collect();
        let n = src.range(0, 8);
        let ops = (0..n)
            .map(|_| match src.weighted(&[4, 2, 4, 4, 1, 1, 1, 1]) {
                0 => Op::Extend(gen_bits(src, 1100)),
                1 => Op::ExtendRef(gen_bits(src, 100)),
                2 => Op::TryExtend(gen_bits(src, 1100)),
                3 => Op::Truncate(match src.weighted(&[20, 1]) {
                    0 => src.range(0, bits + 20),
                    _ => usize::MAX - src.range(0, 9),
                }),
                4 => Op::Reserve(src.range(0, 300)),
                5 => Op::TryReserve(src.range(0, 300)),
                6 => Op::Clone,
                _ => Op::Rebuild,
            })
            .collect();
        Case { bm: Bm { bytes, bits, offset }, ops }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let Bm { bytes, bits, offset } = case.bm.clone();
        let mut model: Vec<bool> = (offset..offset + bits).map(|i| bit(&bytes, i)).collect();

        // Read-only over every storage, and taken apart unchanged.
        macro_rules! storage {
            ($s:ty, $v:expr) => {{
                let b = Bitmap::<$s>::try_from_parts($v, bits, offset).map_err(|e| format!("valid window refused: {e}"))?;
                check(&b, &model, ctx)?;
                let (buf, l, o) = b.into_parts();
                let s: &[u8] = std::borrow::Borrow::borrow(&buf);
                ensure!(s == &bytes[..] && l == bits && o == offset, "taken apart into {s:02x?}, {l} bits at {o}");
                let b = Bitmap::<$s>::try_from_parts(buf, l, o).map_err(|e| format!("own parts refused: {e}"))?;
                let v = Validity::<Bitmap<VecBuffer>, $s>::try_from_parts(
                    Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), bits, offset).map_err(|e| e.to_string())?, b)
                    .map_err(|e| format!("equal lengths refused: {e}"))?;
                let nulls = model.iter().filter(|b| !**b).count();
                ensure_eq!(v.null_count(), nulls, "null count");
                ensure_eq!(v.valid_count(), bits - nulls, "valid count");
                ensure_eq!(v.any_null(), nulls > 0, "any null");
                ensure_eq!(v.all_null(), nulls == bits, "all null");
                ensure_eq!(v.any_valid(), nulls < bits, "any valid");
                ensure_eq!(v.all_valid(), nulls == 0, "all valid");
                let (_, b) = v.into_parts();
                let got: Vec<bool> = b.ok_or("validity lost its bitmap")?.into_iter_owned().collect();
                ensure!(got == model, "consuming iteration gives {got:?}");
            }};
        }
        match bits % 5 {
            0 => storage!(BoxBuffer, bytes.clone().into_boxed_slice()),
            1 => storage!(RcBuffer, bytes.clone().into()),
            2 => storage!(ArcBuffer, bytes.clone().into()),
            3 => storage!(SliceBuffer<'_>, &bytes[..]),
            _ => {}
        }
        storage!(VecBuffer, bytes.clone());

        let mut b = Bitmap::<VecBuffer>::try_from_parts(bytes.clone(), bits, offset).map_err(|e| e.to_string())?;
        let mut trusted = bytes;
        let mut mutations = 0;
        for (k, op) in case.ops.iter().enumerate() {
            let end = offset + model.len();
            match op {
                Op::Extend(v) => {
                    b.extend(v.iter().copied());
                    model.extend(v);
                }
                Op::ExtendRef(v) => {
                    b.extend(v.iter());
                    model.extend(v);
                }
                Op::TryExtend(v) => {
                    b.try_extend(v.iter().copied()).map_err(|e| format!("try_extend failed: {e}"))?;
                    model.extend(v);
                }
                Op::Truncate(n) => {
                    b.truncate(*n);
                    model.truncate(*n);
                }
                Op::Reserve(n) => b.reserve(*n),
                Op::TryReserve(n) => b.try_reserve(*n).map_err(|e| format!("try_reserve failed: {e}"))?,
                Op::Clone => {
                    let mut c = b.clone();
                    std::mem::swap(&mut b, &mut c);
                    c.truncate(0);
                    c.extend(vec![true; 40]);
                }
                Op::Rebuild => {
                    let (buf, l, o) = b.into_parts();
                    b = Bitmap::try_from_parts(buf, l, o).map_err(|e| format!("own parts refused: {e}"))?;
                }
            }
            mutations += 1;
            let at = |e: String| format!("after step {k}: {e}");
            check(&b, &model, ctx).map_err(at)?;
            ensure_eq!(b.bit_offset(), offset, "bit offset after step {k}");
            // No bit before the old end may change, not even padding.
            let keep = end.min(offset + model.len());
            let now: &Vec<u8> = b.buffer_ref();
            ensure!(now.len() * 8 >= offset + model.len(), "step {k}: {} bytes cannot hold the bits", now.len());
            for i in 0..keep {
                ensure!(bit(now, i) == bit(&trusted, i), "step {k}: physical bit {i} before the end changed");
            }
            trusted = now.clone();
        }
        ctx.label_if(offset >= 8, "offset of a byte or more");
        ctx.label_if(bits == 0, "empty window");
        if offset % 8 != 0 || (offset + bits) % 8 != 0 || mutations >= 2 {
            ctx.nontrivial();
        }
        Ok(())
    }
}

fn check<S: narrow::buffer::Buffer>(b: &Bitmap<S>, model: &[bool], ctx: &mut Ctx) -> Outcome {
    ensure_eq!(b.len(), model.len(), "length");
    let it: Vec<bool> = b.iter_views().collect();
    ensure!(it == model, "iteration gives {it:?}, expected {model:?}");
    for (i, want) in model.iter().enumerate() {
        ensure!(b.view(i) == Some(*want), "bit {i} is {:?}, expected {want}", b.view(i));
    }
    for i in [model.len(), model.len() + 1, model.len() + 8, usize::MAX] {
        ensure!(b.view(i).is_none(), "bit {i} past the end is {:?}", b.view(i));
    }
    ctx.checks += 2 * model.len() as u64 + 6;
    Ok(())
}

fn main() {
    main_for::<P>();
}

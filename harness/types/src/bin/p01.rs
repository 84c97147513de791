//! P01: any item sequence put into an array reads back unchanged.
use vharness::{
    coll::Read,
    common::{Ctor, construct, consumes, gen_ctor, reads, reads_light, same_items},
    engine::{Ctx, Outcome, Prop, Src, main_for},
    feed::{Feed, Plan},
    val::{Ty, Val, gen_items, interesting},
};
use vtypes::{Mk, boxed, gen_maker, makers};

#[derive(Debug)]
enum Case {
    Growable { mk: Mk, ctor: Ctor, plan: Plan, items: Vec<Val> },
    /// Built once, in boxed slices.
    #[expect(dead_code, reason = "the name is printed")]
    Boxed { name: &'static str, row: usize, how: Build, plan: Plan, items: Vec<Val> },
}

#[derive(Clone, Copy, Debug)]
enum Build {
    Collect,
    CollectIn,
    TryCollectIn,
    Default,
    WithCapacity(usize),
    WithCapacityIn(usize),
    TryWithCapacityIn(usize),
}

/// Small-scope exhaustive prefix: every sequence of up to five items over
/// three item values, for a few shallow types and two constructors.
const SMALL: &[(&str, &[&[u8]])] = &[
    ("Array<bool>", &[b"T", b"F"]),
    ("Array<Option<bool>>", &[b"N", b"T", b"F"]),
    ("Array<Option<u8>>", &[b"N", b"1", b"2"]),
    ("Array<Vec<bool>>", &[b"[]", b"[T]", b"[FT]"]),
    ("Array<Option<Vec<i32>>>", &[b"N", b"[]", b"[12]"]),
    ("Array<Vec<Option<bool>>>", &[b"[]", b"[N]", b"[TN]"]),
    ("Array<[bool;3]>", &[b"[TFT]", b"[FFF]", b"[FTT]"]),
    ("Array<Option<[Option<i64>;2]>>", &[b"N", b"[N1]", b"[2N]"]),
];
const MAXLEN: u32 = 6;

fn parse(s: &[u8], at: &mut usize) -> Val {
    let c = s[*at];
    *at += 1;
    match c {
        b'N' => Val::N,
        b'T' => Val::B(true),
        b'F' => Val::B(false),
        b'[' => {
            let mut l = Vec::new();
            while s[*at] != b']' {
                l.push(parse(s, at));
            }
            *at += 1;
            Val::L(l)
        }
        d => Val::P(u128::from(d - b'0')),
    }
}

fn total(k: u64) -> u64 {
    (0..=MAXLEN).map(|n| k.pow(n)).sum()
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P01";
    const RULE: &'static str = "random item type (113 types over vectors, 26 over boxed slices), constructor, input iterator and item sequence (lengths around byte, word and 1024-item boundaries); non-trivial: at least two items and, for nullable types, both a null and a value; the enumerated prefix covers every sequence of up to six items over two or three values for eight shallow types and every constructor";
    fn cases(thorough: bool) -> u64 {
        if thorough { 14_400_000 } else { 720_000 }
    }
    fn enumerated(_: bool) -> u64 {
        SMALL.iter().map(|(_, a)| 4 * total(a.len() as u64)).sum()
    }
    fn enumerate(mut index: u64) -> Case {
        for (name, alphabet) in SMALL {
            let k = alphabet.len() as u64;
            let t = 4 * total(k);
            if index >= t {
                index -= t;
                continue;
            }
            let ctor = [Ctor::Collect, Ctor::DefaultExtend, Ctor::TryCollectIn, Ctor::Parts(3)][(index % 4) as usize];
            let mut i = index / 4;
            let mut n = 0;
            while i >= k.pow(n) {
                i -= k.pow(n);
                n += 1;
            }
            let mut items = Vec::new();
            for _ in 0..n {
                items.push(parse(alphabet[(i % k) as usize], &mut 0));
                i /= k;
            }
            let mk = makers().iter().find(|m| m.name() == *name).expect("harness: type");
            return Case::Growable { mk: Mk(*mk), ctor, plan: Plan::EXACT, items };
        }
        unreachable!()
    }
    fn generate(src: &mut Src) -> Case {
        if src.chance(1, 6) {
            let row = src.usize(boxed().len());
            let f = boxed()[row];
            let plan = Plan::gen_tame(src);
            let cap = src.range(0, 90);
            let how = match src.weighted(&[4, 4, 4, 1, 1, 1, 1]) {
                0 => Build::Collect,
                1 => Build::CollectIn,
                2 => Build::TryCollectIn,
                3 => Build::Default,
                4 => Build::WithCapacity(cap),
                5 => Build::WithCapacityIn(cap),
                _ => Build::TryWithCapacityIn(cap),
            };
            let items = match how {
                Build::Collect | Build::CollectIn | Build::TryCollectIn => gen_items(src, &f.ty()),
                _ => vec![],
            };
            return Case::Boxed { name: f.name(), row, how, plan, items };
        }
        let mk = gen_maker(src);
        let ctor = gen_ctor(src);
        let plan = Plan::gen_tame(src);
        let items = gen_items(src, &mk.0.ty());
        Case::Growable { mk, ctor, plan, items }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let (mk, ctor, plan, items) = match case {
            Case::Growable { mk, ctor, plan, items } => (mk.0, *ctor, plan, items),
            Case::Boxed { row, how, plan, items, .. } => {
                let f = boxed()[*row];
                let feed = Feed::new(items.clone(), plan);
                let c = match how {
                    Build::Collect => f.collect(feed),
                    Build::CollectIn => f.collect_in(feed),
                    Build::TryCollectIn => f.try_collect_in(feed).map_err(|_| "fallible construction failed")?,
                    Build::Default => f.default(),
                    Build::WithCapacity(n) => f.with_capacity(*n),
                    Build::WithCapacityIn(n) => f.with_capacity_in(*n),
                    Build::TryWithCapacityIn(n) => f.try_with_capacity_in(*n).map_err(|_| "capacity refused")?,
                };
                ctx.label("boxed slices");
                return check(&f.ty(), c, items, plan, ctx);
            }
        };
        let c = construct(mk, ctor, items, plan)?;
        if let Some(d) = c.try_clone() {
            reads_light(&*d, items, ctx)?;
            ctx.label("cloned");
        }
        check(&mk.ty(), c, items, plan, ctx)
    }
}

fn check(ty: &Ty, c: Box<dyn Read>, items: &[Val], plan: &Plan, ctx: &mut Ctx) -> Outcome {
    reads(&*c, items, ctx)?;
    same_items(&c.iter().collect(), items, "collected borrowed iteration")?;
    if items.len() <= 64 {
        for (i, want) in items.iter().enumerate() {
            let got = c.probe(i, &[])?;
            same_items(&[got.unwrap_or(Val::N)], std::slice::from_ref(want), "every path of a view")?;
        }
    }
    consumes(c, items, ctx)?;
    ctx.label_if(ty.depth() >= 2, "nested twice or more");
    ctx.label_if(ty.has_null(), "nullable");
    ctx.label_if(items.len() >= 1024, "1024 items or more");
    ctx.label_if(items.is_empty(), "empty");
    ctx.label_if(plan.vec, "from a vector");
    if interesting(ty, items) {
        ctx.nontrivial();
    }
    Ok(())
}

fn main() {
    main_for::<P>();
}

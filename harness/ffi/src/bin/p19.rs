//! P19: malformed foreign metadata is refused for its actual fault.
use narrow::offset::OffsetsError;
use narrow_ffi::ImportError as E;
use vffi::{
    Sch,
    foreign::{Buf, Kids, LARGE, Level, Place, emit, gen_level, releases, targets},
    items, without_offsets,
};
use vharness::{
    common::{consumes, nulls_match, reads},
    engine::{Ctx, Outcome, Prop, Src, guarded, main_for},
    ensure, ensure_eq,
    phys::{Phys, RawOpts, decode, gen_phys},
    val::{Ty, Val, gen_dens},
};

#[derive(Debug)]
#[allow(dead_code)]
struct Case {
    source: usize,
    target: usize,
    faults: Vec<String>,
    level: Level,
}

/// Bytes a buffer of this format and length covers.
fn covered(fmt: &str, i: usize, length: u64) -> Option<u64> {
    let n = u128::from(length);
    let bytes = match (i, fmt) {
        (0, _) | (_, "b") => n.div_ceil(8),
        (_, "c" | "C") => n,
        (_, "s" | "S") => 2 * n,
        (_, "i" | "I" | "f") => 4 * n,
        (_, "l" | "L" | "g") => 8 * n,
        (_, "+l") => 4 * (n + 1),
        _ => 0,
    };
    u64::try_from(bytes).ok()
}

/// Makes every buffer as large as the declared length says, and no larger.
fn fit(src: &mut Src, sch: &Sch, l: &mut Level) {
    let length = l.length.max(0) as u64;
    let junk = src.bool();
    let mut drop_all = false;
    if let Some(buffers) = &mut l.buffers {
        for (i, b) in buffers.iter_mut().enumerate() {
            match covered(&sch.fmt, i, length).filter(|n| *n < LARGE as u64 - 64) {
                Some(n) => match b {
                    Buf::Bytes(bytes, _) => {
                        let fill = bytes.last().copied().unwrap_or(3);
                        while (bytes.len() as u64) < n {
                            let again = bytes.len().checked_sub(4).map_or(0, |k| bytes[k]);
                            let next = if sch.fmt == "+l" && !junk { again } else if junk { src.below(256) as u8 } else { fill };
                            bytes.push(next);
                        }
                        bytes.truncate(n as usize);
                    }
                    Buf::Nowhere(_) if n > 0 => *b = Buf::Bytes(vec![if junk { 0x5b } else { 0xff }; n as usize], Place::High(0)),
                    _ => {}
                },
                // No buffer is that large.
                None => drop_all = true,
            }
        }
        if drop_all {
            buffers.fill(Buf::Null);
        }
    }
    if let (Some(c), Some(s)) = (&mut l.child, &sch.child) {
        fit(src, s, c);
    }
}

fn extreme(src: &mut Src, right: i64) -> i64 {
    match src.weighted(&[6, 3, 3]) {
        0 => *src.pick(&[
            -1,
            0,
            1,
            2,
            3,
            -2,
            7,
            8,
            64,
            255,
            256,
            1 << 31,
            (1 << 31) - 1,
            1 << 32,
            -(1 << 31),
            i64::MAX,
            i64::MIN,
            i64::MAX - 1,
            i64::MIN + 1,
            1 << 62,
            1 << 61,
            1 << 63 >> 1,
        ]),
        1 => right.wrapping_add(*src.pick(&[1, -1, 2, -2, 8, -8])),
        _ => right.wrapping_add(*src.pick(&[1 << 32, 1 << 16, 1 << 8, -(1 << 32), i64::MIN, 1 << 62, 1 << 31])),
    }
}

const FORMATS: &[&str] = &[
    "", "n", "b", "c", "C", "s", "S", "i", "I", "l", "L", "e", "f", "g", "z", "Z", "u", "U", "vu", "w:4", "tdD", "+l", "+L",
    "+vl", "+s", "+m", "+r", "+w", "+w:", "+w:0", "+w:1", "+w:2", "+w:3", "+w:5", "+w:9", "+w:10", "+w:100", "+w:-2", "+w:+2",
    "+w: 2", "+w:2 ", "+w:2x", "+w:2,3", "+w:2.0", "+w:0x2", "+w:/", "+w::", "+w:1:", "+W:2", "w:2", "+w2", " +w:2",
    "+w:18446744073709551616", "+w:18446744073709551617", "+w:18446744073709551618", "+w:18446744073709551619",
    "+w:36893488147419103234", "+w:4294967298", "+w:4294967299", "+w:258", "+w:259", "+w:99999999999999999999999999",
    "+w:20", "+w:30", "+w:22", "+w:33", "+w:1\u{662}", "ld", "ll", "cc", "bb", "B", " c", "c ", "+", "+ll", "+l+", "l+", "+Ll",
];

/// Widths that careless arithmetic takes for `n`.
fn other_width(src: &mut Src, n: u128) -> Vec<u8> {
    let mut f = b"+w:".to_vec();
    match src.usize(3) {
        // Digits that are none: what is past '9', and letters.
        0 => {
            let low = (n % 10 + 10 * src.below(n as u64 / 10 + 1).min(13) as u128).min(n);
            if n > low {
                f.extend(((n - low) / 10).to_string().bytes());
            }
            f.push(b'0' + low as u8);
        }
        // Too large by a power of two, or as large as numbers go.
        1 => {
            let k = *src.pick(&[8, 16, 31, 32, 33, 62, 63, 64, 65, 66, 100, 120]);
            let many = 1 + u128::from(src.below(3));
            f.extend((n + many * (1u128 << k)).to_string().bytes());
        }
        // Signs, separators and further digits.
        _ => {
            let mut d: Vec<u8> = n.to_string().into_bytes();
            let at = src.usize(d.len() + 1);
            d.insert(at, *src.pick(b"+- ,._:/;<aAxX0123456789"));
            f.extend(d);
        }
    }
    f
}

/// Makes one field wrong (or, at times, merely different).
fn corrupt(src: &mut Src, sch: &Sch, l: &mut Level, foreign_target: bool) -> String {
    let side = src.usize(2);
    let buffer = |src: &mut Src, l: &mut Level, b: fn(&mut Src, &mut Buf)| {
        if let Some(list) = &mut l.buffers {
            let i = if list.len() > 1 && src.chance(2, 3) { 1 } else { 0 };
            if let Some(x) = list.get_mut(i) {
                b(src, x);
            }
        }
    };
    match src.usize(19) {
        0 => {
            l.released[side] = true;
            format!("released {side}")
        }
        1 => {
            l.format = None;
            "no format".into()
        }
        2 if !foreign_target => {
            let width = sch.fmt.strip_prefix("+w:").and_then(|w| w.parse::<u128>().ok());
            l.format = Some(match src.weighted(&[4, 2, if width.is_some() { 4 } else { 0 }]) {
                2 => other_width(src, width.unwrap_or(0)),
                0 => src.pick(FORMATS).as_bytes().to_vec(),
                _ => {
                    let mut f = sch.fmt.clone().into_bytes();
                    let at = src.usize(f.len() + 1);
                    let b = 1 + src.below(255) as u8;
                    match src.usize(3) {
                        0 => f.insert(at, b),
                        1 if at < f.len() => f[at] = b,
                        _ => {
                            f.pop();
                        }
                    }
                    f
                }
            });
            "format".into()
        }
        3 => {
            l.flags = match src.usize(4) {
                0 => l.flags ^ 2,
                1 => 0,
                2 => -1,
                _ => src.word() as i64,
            };
            "flags".into()
        }
        4 | 5 => {
            l.length = extreme(src, l.length);
            "length".into()
        }
        6 => {
            l.offset = extreme(src, 0);
            "offset".into()
        }
        7 | 8 => {
            l.null_count = extreme(src, l.null_count);
            "null count".into()
        }
        9 => {
            l.n_buffers = extreme(src, l.n_buffers);
            "buffer count".into()
        }
        10 => {
            l.n_children[side] = extreme(src, l.n_children[side]);
            if src.bool() {
                l.kids[side] = Kids::Null;
            }
            format!("child count {side}")
        }
        11 => {
            l.dictionary[side] = true;
            format!("dictionary {side}")
        }
        12 => {
            l.buffers = None;
            "no buffer pointers".into()
        }
        13 => {
            l.kids[side] = if src.bool() { Kids::Null } else { Kids::Nulls };
            format!("children {side}")
        }
        14 => {
            buffer(src, l, |_, b| *b = Buf::Null);
            "null buffer".into()
        }
        15 => {
            buffer(src, l, |src, b| {
                if let Buf::Bytes(_, p) = b {
                    let k = src.range(1, 7);
                    *p = if src.bool() { Place::High(k) } else { Place::Low(k) };
                }
            });
            "misaligned buffer".into()
        }
        // Offsets, or values, that differ.
        _ => {
            let list = sch.fmt == "+l";
            let child = l.child.as_ref().map_or(0, |c| c.length);
            if let Some(Buf::Bytes(b, _)) = l.buffers.as_mut().and_then(|b| b.get_mut(1))
                && b.len() >= 4
            {
                let at = 4 * match src.usize(4) {
                    0 => 0,
                    1 => b.len() / 4 - 1,
                    _ => src.usize(b.len() / 4),
                };
                let old = i32::from_ne_bytes(b[at..at + 4].try_into().expect("four"));
                let new = match src.usize(4) {
                    0 => old.wrapping_add(*src.pick(&[1, -1, 2, -2, 256, i32::MIN])),
                    1 => *src.pick(&[-1, 0, 1, i32::MIN, i32::MAX, 1 << 16]),
                    _ => (child as i32).wrapping_add(*src.pick(&[0, 1, -1])),
                };
                b[at..at + 4].copy_from_slice(&new.to_ne_bytes());
            }
            if list { "offsets".into() } else { "values".into() }
        }
    }
}

/// Offsets as they stand in memory.
fn offsets(b: &[u8]) -> Vec<i64> {
    b.chunks_exact(4).map(|c| i64::from(i32::from_ne_bytes(c.try_into().expect("four")))).collect()
}
/// Where the buffer would be.
fn misaligned(b: &Buf, w: usize) -> bool {
    match b {
        Buf::Null => false,
        Buf::Nowhere(k) => (1 + k % 4095) % w != 0,
        Buf::Bytes(_, Place::Low(k)) => k % w != 0,
        Buf::Bytes(b, Place::High(k)) => (b.len() + k) % w != 0,
    }
}

/// All faults an import as `sch` may name; those in `may` leave accepting the
/// structures right as well.
fn faults(sch: &Sch, l: &Level, out: &mut Vec<E>, may: &mut Vec<E>) {
    if l.released[0] {
        out.push(E::ReleasedArray);
    }
    if l.released[1] {
        out.push(E::ReleasedSchema);
    }
    match &l.format {
        None => out.push(E::MissingFormat),
        Some(f) if *f != sch.fmt.as_bytes() => {
            let width = |f: &[u8]| {
                let digits = f.strip_prefix(b"+w:")?;
                let number = digits.iter().all(u8::is_ascii_digit) && !digits.is_empty();
                number.then(|| String::from_utf8_lossy(digits).trim_start_matches('0').to_string())
            };
            // The interface leaves open whether "+w:02" is "+w:2".
            let same = width(f).is_some() && width(f) == width(sch.fmt.as_bytes());
            if same { &mut *may } else { &mut *out }.push(E::UnexpectedFormat);
        }
        _ => {}
    }
    if (l.flags & 2 != 0) != sch.nullable {
        out.push(E::UnexpectedFlags { flags: l.flags });
    }
    if l.length < 0 {
        out.push(E::InvalidLength { length: l.length });
    }
    if l.offset != 0 {
        out.push(E::NonZeroOffset { offset: l.offset });
    }
    if l.null_count < -1 || l.null_count > l.length || (!sch.nullable && l.null_count > 0) {
        out.push(E::UnexpectedNullCount { null_count: l.null_count });
    }
    if l.n_buffers != sch.n_buffers() {
        out.push(E::UnexpectedBufferCount { count: l.n_buffers });
    }
    let n = sch.n_children();
    if l.n_children != [n; 2] {
        out.push(E::UnexpectedChildCount { array: l.n_children[0], schema: l.n_children[1] });
    }
    if l.dictionary != [false; 2] {
        out.push(E::UnexpectedDictionary);
    }
    if l.buffers.is_none() {
        out.push(E::MissingBufferPointers);
    }
    if n > 0 {
        if matches!(l.kids[0], Kids::Null | Kids::Nulls) {
            out.push(E::MissingArrayChildren);
        }
        if matches!(l.kids[1], Kids::Null | Kids::Nulls) {
            out.push(E::MissingSchemaChildren);
        }
    }
    let ty = sch.base();
    let child = l.child.as_deref();
    let buffer = |i: usize| {
        l.buffers.as_ref().and_then(|b| b.get(i)).filter(|_| l.n_buffers > i as i64)
    };
    let width = sch.fmt.strip_prefix("+w:").map(|w| w.parse::<usize>().expect("own format"));
    if let Some(size) = width {
        if size == 0 {
            out.push(E::UnsupportedFixedSizeListSize { size });
        }
        if let Some(c) = child.filter(|c| c.length >= 0 && l.length >= 0)
            && i128::from(l.length) * size as i128 != i128::from(c.length)
        {
            out.push(E::FixedSizeListLengthMismatch { length: l.length as usize, child_length: c.length as usize, size });
        }
    } else if sch.fmt == "+l" {
        match buffer(1) {
            Some(Buf::Null) => {
                // An empty list needs none by older rules.
                if l.length == 0 { &mut *may } else { &mut *out }.push(E::MissingOffsetsBuffer);
            }
            Some(b) => {
                if misaligned(b, 4) {
                    out.push(E::MisalignedOffsetsBuffer { alignment: 4 });
                }
                if let Buf::Bytes(b, _) = b {
                    let o = offsets(b);
                    let mut wrong = |error| out.push(E::InvalidOffsets { error });
                    match o.first() {
                        None => wrong(OffsetsError::Empty),
                        Some(f) if *f > 0 => wrong(OffsetsError::NonZeroFirst { first: *f as usize }),
                        _ => {}
                    }
                    for (i, x) in o.iter().enumerate() {
                        if *x < 0 {
                            wrong(OffsetsError::Negative { index: i });
                        }
                        if i > 0 && *x < o[i - 1] {
                            wrong(OffsetsError::NonMonotonic { index: i });
                        }
                    }
                    if let (Some(last), Some(c)) = (o.last(), child.filter(|c| c.length >= 0))
                        && *last > c.length
                    {
                        wrong(OffsetsError::OutOfBounds { last: *last as usize, data: c.length as usize });
                    }
                }
            }
            None => {}
        }
    } else if l.length > 0 {
        match buffer(1) {
            Some(Buf::Null) => out.push(E::MissingValuesBuffer),
            Some(b) => {
                if let Some(Ty::Prim(w)) = ty
                    && misaligned(b, w)
                {
                    out.push(E::MisalignedValuesBuffer { alignment: w });
                }
            }
            None => {}
        }
    }
    if sch.nullable && l.length >= 0 {
        match buffer(0) {
            Some(Buf::Null) if l.null_count != 0 && l.length > 0 => out.push(E::MissingValidityBuffer),
            Some(Buf::Null) | None => {}
            Some(b) => {
                let bit = |i: usize| match b {
                    Buf::Bytes(b, _) => b.get(i / 8).is_some_and(|b| b >> (i % 8) & 1 == 1),
                    _ => true,
                };
                let n = if matches!(b, Buf::Bytes(..)) { l.length as usize } else { 0 };
                let actual = (0..n).filter(|i| !bit(*i)).count();
                if l.null_count >= 0 && l.null_count as u64 != actual as u64 {
                    out.push(E::NullCountMismatch { declared: l.null_count, actual });
                }
            }
        }
    }
    let reached = l.kids == [Kids::Here; 2] && l.n_children[0] > 0 && l.n_children[1] > 0;
    if let (Some(c), Some(s), true) = (child, &sch.child, reached) {
        faults(s, c, out, may);
    }
}

/// The numbers in a text.
fn numbers(s: &str) -> Vec<i128> {
    let mut v: Vec<i128> = Vec::new();
    let mut rest = s;
    while let Some(at) = rest.find(|c: char| c.is_ascii_digit()) {
        let minus = rest[..at].ends_with('-');
        rest = &rest[at..];
        let end = rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len());
        let n: i128 = rest[..end].parse().unwrap_or(i128::MAX);
        v.push(if minus { -n } else { n });
        rest = &rest[end..];
    }
    v
}
/// The message for people carries the numbers too, and the cause is there.
fn describes(e: &E) -> Outcome {
    let shown = numbers(&e.to_string());
    for n in numbers(&format!("{e:?}")) {
        ensure!(shown.contains(&n), "the message {:?} of {e:?} does not mention {n}", e.to_string());
    }
    if let E::InvalidOffsets { error } = e {
        let source = std::error::Error::source(e).and_then(|s| s.downcast_ref::<OffsetsError>());
        ensure!(source == Some(error), "the cause of {e:?} is {source:?}");
    }
    Ok(())
}

/// What valid structures mean.
fn meaning(sch: &Sch, l: &Level) -> Vec<Val> {
    let n = l.length as usize;
    let b = |i: usize| match &l.buffers.as_ref().expect("buffers")[i] {
        Buf::Bytes(b, _) => b.as_slice(),
        _ => &[],
    };
    let bit = |b: &[u8], i: usize| b[i / 8] >> (i % 8) & 1 == 1;
    let kids = || meaning(sch.child.as_ref().expect("list"), l.child.as_ref().expect("child"));
    let mut v: Vec<Val> = match sch.base().expect("own format") {
        Ty::Bool => (0..n).map(|i| Val::B(bit(b(1), i))).collect(),
        Ty::Prim(w) => (0..n)
            .map(|i| Val::P(b(1)[i * w..][..w].iter().rev().fold(0, |a, x| a << 8 | u128::from(*x))))
            .collect(),
        Ty::List(..) => {
            let (o, c) = (offsets(b(1)), kids());
            o.windows(2).map(|w| Val::L(c[w[0] as usize..w[1] as usize].to_vec())).collect()
        }
        Ty::Arr(k, _) => {
            let c = kids();
            (0..n).map(|i| Val::L(c[i * k..][..k].to_vec())).collect()
        }
        _ => unreachable!(),
    };
    if sch.nullable && !b(0).is_empty() {
        for (i, x) in v.iter_mut().enumerate() {
            if !bit(b(0), i) {
                *x = Val::N;
            }
        }
    }
    v
}

struct P;
impl Prop for P {
    type Case = Case;
    const ID: &'static str = "P19";
    const RULE: &'static str = "valid foreign structures of a random type in which one to three fields at random levels are corrupted (released, format, flags, lengths, offsets, counts, dictionaries, null, misaligned or dangling pointers, list offsets), with buffers of exactly the declared size in read-only memory bordering on inaccessible pages, imported as their own or another type; an independent validator lists all faults present at all levels: the import must be refused with one of them exactly if there is any, and otherwise yield what the structures mean; non-trivial: at least one fault present";
    const ASSUMPTIONS: &'static [&'static str] =
        &["a read outside the given buffers shows as a crash of the check's worker where the buffer borders on the inaccessible page on that side"];
    fn cases(thorough: bool) -> u64 {
        if thorough { 160_000_000 } else { 8_000_000 }
    }
    fn generate(src: &mut Src) -> Case {
        let all = targets();
        let foreign_target = src.chance(1, 8);
        let source = src.usize(all.len());
        let target = if foreign_target { src.usize(all.len()) } else { source };
        let sch = &all[source].sch;
        let d = gen_dens(src);
        let n = if src.chance(1, 8) { src.range(31, 140) } else { src.range(0, 12) };
        let ty = all[source].row.map_or_else(|| sch.ty().expect("own format"), |r| items()[r].ty.clone());
        let offsets = src.chance(1, 2);
        let mut phys: Phys = gen_phys(src, &ty, n, d, RawOpts { offsets, omit: true });
        without_offsets(&mut phys);
        let mut level = gen_level(src, sch, &phys);
        let k = src.weighted(&[1, 8, 3, 2]);
        let mut names = Vec::new();
        for _ in 0..k {
            let (mut l, mut s, mut at) = (&mut level, sch, 0);
            let depth = src.usize(sch.depth());
            while at < depth {
                l = l.child.as_mut().expect("nested");
                s = s.child.as_ref().expect("nested");
                at += 1;
            }
            names.push(format!("{} at level {at}", corrupt(src, s, l, foreign_target)));
        }
        fit(src, sch, &mut level);
        Case { source, target, faults: names, level }
    }
    fn run(case: &Case, ctx: &mut Ctx) -> Outcome {
        let target = &targets()[case.target];
        let mut expect = Vec::new();
        let mut may = Vec::new();
        faults(&target.sch, &case.level, &mut expect, &mut may);
        if !expect.is_empty() {
            ctx.nontrivial();
        }
        let before = releases();
        let f = emit(&case.level);
        let r = guarded(|| target.import(&f)).map_err(|p| format!("the import {p}"))?;
        ctx.checks += 1;
        match r {
            Err(e) => {
                ctx.label(match e {
                    E::ReleasedArray => "ReleasedArray",
                    E::ReleasedSchema => "ReleasedSchema",
                    E::MissingFormat => "MissingFormat",
                    E::UnexpectedFormat => "UnexpectedFormat",
                    E::UnexpectedFlags { .. } => "UnexpectedFlags",
                    E::InvalidLength { .. } => "InvalidLength",
                    E::NonZeroOffset { .. } => "NonZeroOffset",
                    E::UnexpectedNullCount { .. } => "UnexpectedNullCount",
                    E::MissingValidityBuffer => "MissingValidityBuffer",
                    E::NullCountMismatch { .. } => "NullCountMismatch",
                    E::UnexpectedBufferCount { .. } => "UnexpectedBufferCount",
                    E::UnexpectedChildCount { .. } => "UnexpectedChildCount",
                    E::UnexpectedDictionary => "UnexpectedDictionary",
                    E::MissingBufferPointers => "MissingBufferPointers",
                    E::MissingArrayChildren => "MissingArrayChildren",
                    E::MissingSchemaChildren => "MissingSchemaChildren",
                    E::UnsupportedFixedSizeListSize { .. } => "UnsupportedFixedSizeListSize",
                    E::FixedSizeListLengthMismatch { .. } => "FixedSizeListLengthMismatch",
                    E::MissingOffsetsBuffer => "MissingOffsetsBuffer",
                    E::MisalignedOffsetsBuffer { .. } => "MisalignedOffsetsBuffer",
                    E::InvalidOffsets { .. } => "InvalidOffsets",
                    E::MissingValuesBuffer => "MissingValuesBuffer",
                    E::MisalignedValuesBuffer { .. } => "MisalignedValuesBuffer",
                    _ => "another error",
                });
                describes(&e)?;
                ensure!(expect.contains(&e) || may.contains(&e), "importing as {:?} is refused with {e:?}; faults present: {expect:?}", target.sch);
            }
            Ok(c) => {
                ctx.label("accepted");
                ensure!(expect.is_empty(), "accepted as {:?} in spite of {expect:?}", target.sch);
                if let Some(c) = c {
                    let model = meaning(&target.sch, &case.level);
                    ensure_eq!(c.len(), model.len(), "length of the imported array");
                    let ty = &items()[target.row.ok_or("harness: row")?].ty;
                    reads(&*c, &model, ctx)?;
                    nulls_match(&*c, ty, &model, ctx)?;
                    consumes(c, &model, ctx)?;
                }
            }
        }
        ensure!(releases() == before, "the import releases the producer's structures");
        Ok(())
    }
}

fn main() {
    // The types to import as must agree with what their memory means.
    debug_assert!(items().iter().all(|i| i.sch.ty().is_some()) && decode(&Ty::Bool, &Phys::Prim { bytes: vec![] }).is_err());
    main_for::<P>();
}

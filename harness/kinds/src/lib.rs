//! The same collection types over other storages.

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::{ArcBuffer, ArrayBuffer, BoxBuffer, RcBuffer, SliceBuffer, VecBuffer},
    collection::flatten::Flatten,
    fixed_size::FixedSizeArray as Fsa,
    layout::{fixed_size_list::FixedSizeList, variable_size_list::VariableSizeList},
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};

use std::{rc::Rc, sync::Arc};

use vharness::{
    arrays_in, makers, raws_in, with_few_items,
    coll::{Make, NoClone as _, Store},
};

/// One collection type in every storage kind.
pub struct Kinds {
    pub vec: &'static dyn Store,
    pub others: Vec<(&'static str, &'static dyn Store)>,
}

pub fn kinds() -> Vec<Kinds> {
    macro_rules! every {
        ($s:ty) => {{
            let mut v = with_few_items!(arrays_in!(&'static dyn Store; $s;));
            v.extend(raws_in!(&'static dyn Store; $s));
            v
        }};
    }
    /// Standard collections of any items.
    macro_rules! plain {
        ($v:ident, $s:ty; $b:ty, $a:ty, $o:ty, $l:ty, $n:ty, $p:ty, $q:ty) => {
            $v.extend(makers!(&'static dyn Store; $b, $a, $o, $l, $n,
                Validity<$b, $s>, Validity<$l, $s>, Offsets<$b, i32, $s>, Offsets<Validity<$l, $s>, i64, $s>,
                Flatten<$b, 3>, Flatten<$a, 2>,
                $p, $q, Offsets<$p, i32, $s>, Flatten<$q, 2>))
        };
    }
    type B3 = [bool; 3];
    type O1 = Option<i16>;
    type OV = Option<Vec<u8>>;
    type O2 = [Option<i16>; 2];
    let mut vec = every!(VecBuffer);
    plain!(vec, VecBuffer; Vec<bool>, Vec<B3>, Vec<O2>, Vec<Vec<u8>>, Vec<Vec<Vec<bool>>>, Vec<O1>, Vec<OV>);
    let mut boxed = every!(BoxBuffer);
    plain!(boxed, BoxBuffer; Box<[bool]>, Box<[B3]>, Box<[O2]>, Box<[Vec<u8>]>, Box<[Vec<Vec<bool>>]>, Box<[O1]>, Box<[OV]>);
    let mut rc = every!(RcBuffer);
    plain!(rc, RcBuffer; Rc<[bool]>, Rc<[B3]>, Rc<[O2]>, Rc<[Vec<u8>]>, Rc<[Vec<Vec<bool>>]>, Rc<[O1]>, Rc<[OV]>);
    let mut arc = every!(ArcBuffer);
    plain!(arc, ArcBuffer; Arc<[bool]>, Arc<[B3]>, Arc<[O2]>, Arc<[Vec<u8>]>, Arc<[Vec<Vec<bool>>]>, Arc<[O1]>, Arc<[OV]>);
    let mut slice = every!(SliceBuffer<'static>);
    plain!(slice, SliceBuffer<'static>; &'static [bool], &'static [B3], &'static [O2], &'static [Vec<u8>], &'static [Vec<Vec<bool>>], &'static [O1], &'static [OV]);
    let others = [("box", boxed), ("rc", rc), ("arc", arc), ("slice", slice)];
    vec.into_iter()
        .enumerate()
        .map(|(i, vec)| Kinds { vec, others: others.iter().map(|(n, o)| (*n, o[i])).collect() })
        .collect()
}

/// Collections over fixed arrays, with the number of elements.
pub fn fixed() -> Vec<(usize, &'static dyn Store)> {
    let mut v: Vec<(usize, &'static dyn Store)> = Vec::new();
    macro_rules! n {
        ($($n:literal),*) => {$({
            // Widths and nesting chosen so that every buffer has the same length.
            let l: Vec<&'static dyn Store> = makers!(&'static dyn Store;
                Array<bool, ArrayBuffer<$n>>, Array<Option<bool>, ArrayBuffer<$n>>,
                Array<u8, ArrayBuffer<$n>>, Array<i64, ArrayBuffer<$n>>, Array<Option<u16>, ArrayBuffer<$n>>,
                Array<f64, ArrayBuffer<$n>>, Array<Fsa<u8, 3>, ArrayBuffer<$n>>,
                Array<[bool; 3], ArrayBuffer<$n>>, Array<Option<[Option<bool>; 5]>, ArrayBuffer<$n>>,
                Array<[i32; 2], ArrayBuffer<$n>>, Array<Option<[u8; 4]>, ArrayBuffer<$n>>,
                Array<Vec<u8>, ArrayBuffer<$n>>, Array<Option<Vec<bool>>, ArrayBuffer<$n>>,
                Array<Vec<Option<u32>>, ArrayBuffer<$n>>, Array<Vec<Vec<u8>>, ArrayBuffer<$n>>,
                Array<Option<Vec<Option<[bool; 3]>>>, ArrayBuffer<$n>>,
                Bitmap<ArrayBuffer<$n>>, Validity<Bitmap<ArrayBuffer<$n>>, ArrayBuffer<$n>>,
                VariableSizeList<u8, Nullable, i64, ArrayBuffer<$n>>,
                Offsets<[u16; $n], i64, ArrayBuffer<$n>>,
                [bool; $n], [[bool; 3]; $n], [Vec<u8>; $n], [Vec<Vec<bool>>; $n], [Option<i16>; $n], [Option<Vec<u8>>; $n],
                Validity<[bool; $n], ArrayBuffer<$n>>, Validity<[Vec<u8>; $n], ArrayBuffer<$n>>,
                Offsets<[[Option<i16>; 2]; $n], i32, ArrayBuffer<$n>>,
            );
            v.extend(l.into_iter().map(|s| ($n, s)));
        })*};
    }
    n!(4, 8, 12, 64);
    v
}

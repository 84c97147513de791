//! Every growable collection type over vector storage.

use std::sync::OnceLock;

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::BoxBuffer,
    collection::flatten::Flatten,
    fixed_size::FixedSizeArray as Fsa,
    layout::{boolean::Boolean, fixed_size_list::FixedSizeList, fixed_size_primitive::FixedSizePrimitive},
    nullability::NonNullable,
};
use vharness::{
    coll::{Fixed, Make, Maker, NoClone as _},
    engine::Src,
    makers,
};

pub fn makers() -> &'static [&'static dyn Maker] {
    static M: OnceLock<Vec<&'static dyn Maker>> = OnceLock::new();
    M.get_or_init(|| [vt1::arrays(), vt2::arrays(), vt1::raws()].concat())
}

/// A maker, printed by name.
#[derive(Clone, Copy)]
pub struct Mk(pub &'static dyn Maker);
impl std::fmt::Debug for Mk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0.name())
    }
}
pub fn gen_maker(src: &mut Src) -> Mk {
    Mk(*src.pick(makers()))
}


/// Collections in boxed slices, which are only ever built.
pub fn boxed() -> &'static [&'static dyn Fixed] {
    static M: OnceLock<Vec<&'static dyn Fixed>> = OnceLock::new();
    M.get_or_init(|| {
        makers!(&'static dyn Fixed;
            Array<bool, BoxBuffer>, Array<u8, BoxBuffer>, Array<i16, BoxBuffer>, Array<u32, BoxBuffer>,
            Array<f64, BoxBuffer>, Array<u128, BoxBuffer>, Array<Fsa<u8, 3>, BoxBuffer>,
            Array<[bool; 3], BoxBuffer>, Array<[i32; 2], BoxBuffer>, Array<[[bool; 5]; 2], BoxBuffer>,
            Array<[[u16; 2]; 3], BoxBuffer>,
            Bitmap<BoxBuffer>, Boolean<NonNullable, BoxBuffer>, FixedSizePrimitive<u64, NonNullable, BoxBuffer>,
            FixedSizeList<bool, 4, NonNullable, BoxBuffer>, FixedSizeList<[u8; 2], 3, NonNullable, BoxBuffer>,
            Flatten<Bitmap<BoxBuffer>, 5>, Flatten<Box<[bool]>, 3>, Flatten<Box<[[bool; 3]]>, 2>,
            Box<[bool]>, Box<[u8]>, Box<[[bool; 3]]>, Box<[Vec<u8>]>, Box<[Vec<Vec<bool>>]>, Box<[Option<i16>]>, Box<[Option<Vec<u8>>]>,
        )
    })
}

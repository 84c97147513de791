//! Growable arrays of bits, primitives and fixed-size values, and collections
//! below the array level.

use narrow::{
    array::Array,
    bitmap::Bitmap,
    buffer::VecBuffer,
    collection::flatten::Flatten,
    fixed_size::FixedSizeArray as Fsa,
    layout::{
        boolean::Boolean, fixed_size_list::FixedSizeList,
        fixed_size_primitive::FixedSizePrimitive, variable_size_list::VariableSizeList,
    },
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};
use vharness::{coll::{Make, Maker, NoClone as _}, makers};

macro_rules! arrays {
    ($($t:ty),* $(,)?) => { makers!(&'static dyn Maker; $(Array<$t, VecBuffer>),*) };
}

pub fn arrays() -> Vec<&'static dyn Maker> {
    arrays! {
        bool, Option<bool>,
        u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64,
        Option<u8>, Option<u16>, Option<u32>, Option<u64>, Option<u128>, Option<usize>,
        Option<i8>, Option<i16>, Option<i32>, Option<i64>, Option<i128>, Option<isize>,
        Option<f32>, Option<f64>,
        Fsa<u8, 3>, Option<Fsa<u8, 3>>, Fsa<f64, 2>, Option<Fsa<i16, 5>>,
    }
}

pub fn raws() -> Vec<&'static dyn Maker> {
    makers!(&'static dyn Maker;
        Bitmap,
        Vec<i32>,
        Validity<Vec<u16>>,
        Validity<Bitmap>,
        Offsets<Vec<i32>, i64>,
        Offsets<Validity<Bitmap>, i32>,
        Flatten<Vec<u8>, 2>,
        Flatten<Bitmap, 5>,
        Flatten<Validity<Vec<u8>>, 3>,
        Flatten<Offsets<Bitmap>, 2>,
        Validity<Offsets<Flatten<Vec<u8>, 2>, i64>>,
        Validity<Flatten<Validity<Bitmap>, 3>>,
        Boolean<Nullable>,
        FixedSizePrimitive<u32, Nullable>,
        FixedSizeList<Option<bool>, 4, NonNullable>,
        VariableSizeList<u8, Nullable, i64>,
        VariableSizeList<Option<bool>, NonNullable, i64>,
        VariableSizeList<Vec<u8>, Nullable, i64>,
        VariableSizeList<[Option<bool>; 2], Nullable, i64>,
        Vec<bool>,
        Vec<[bool; 3]>,
        Vec<Vec<u8>>,
        Validity<Vec<bool>>,
        Validity<Vec<[Option<i16>; 2]>>,
        Validity<Vec<Vec<Vec<bool>>>>,
        Vec<Option<i16>>,
        Vec<Option<Vec<u8>>>,
        Offsets<Vec<bool>>,
        Offsets<Vec<Option<i16>>>,
        Flatten<Vec<Option<Vec<u8>>>, 2>,
        Offsets<Validity<Vec<Vec<u8>>>, i64>,
        Flatten<Vec<bool>, 3>,
        Flatten<Vec<[bool; 3]>, 2>,
    )
}

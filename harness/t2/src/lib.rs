//! Growable arrays of lists.

use narrow::{array::Array, buffer::VecBuffer, fixed_size::FixedSizeArray as Fsa};
use vharness::{coll::{Make, Maker, NoClone as _}, makers};

macro_rules! arrays {
    ($($t:ty),* $(,)?) => { makers!(&'static dyn Maker; $(Array<$t, VecBuffer>),*) };
}

pub fn arrays() -> Vec<&'static dyn Maker> {
    arrays! {
        [u8; 1], [i32; 3], [bool; 3], [bool; 8], [Option<bool>; 3], Option<[bool; 5]>,
        [Option<i16>; 2], Option<[Option<i64>; 2]>, [u16; 9], Option<[u128; 32]>, [u8; 300], [Option<bool>; 1030], [Vec<u8>; 40], Vec<[u16; 260]>, Fsa<u8, 32>,
        Vec<u8>, Vec<bool>, Option<Vec<i32>>, Vec<Option<bool>>, Option<Vec<Option<u16>>>,
        Vec<Option<i64>>, Option<Vec<bool>>, Vec<f32>,
        Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<i32>>>>>, Vec<Vec<Vec<bool>>>, Vec<Option<Vec<bool>>>,
        [Vec<i32>; 2], Option<[Option<Vec<bool>>; 2]>, Vec<[bool; 3]>, Vec<Option<[Option<u8>; 2]>>,
        [[bool; 3]; 2], Option<[[Option<bool>; 2]; 3]>, [Option<[Option<bool>; 3]>; 2],
        Vec<[Vec<u16>; 2]>, Option<Vec<[Option<Vec<Option<bool>>>; 2]>>,
        Vec<Fsa<u8, 3>>, [Option<Fsa<u8, 3>>; 2],
        [Option<bool>; 1], Option<[Option<i32>; 1]>, Option<[bool; 1]>, Option<[Vec<u8>; 1]>,
        [Option<Vec<bool>>; 1], Vec<[u8; 1]>, [[bool; 1]; 1], Option<Vec<Vec<u16>>>,
    }
}

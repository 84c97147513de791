//! Lists of collection types under test, expanded by the crates that use them.

/// Makers for concrete types, with their `Clone` where they have one.
#[macro_export]
macro_rules! makers {
    ($dy:ty; $($t:ty),* $(,)?) => {
        vec![$({
            // Inherent methods win over the blanket trait.
            let clone: Option<fn(&$t) -> $t> = (&$crate::coll::Cl::<$t>::new()).f();
            let m: &'static Make<$t> = Box::leak(Box::new(Make { name: $crate::coll::tidy(stringify!($t)), clone }));
            m as $dy
        }),*]
    };
}

/// Item types for which every storage is tried.
#[macro_export]
macro_rules! with_few_items {
    ($m:ident!($($pre:tt)*)) => {
        $m!{$($pre)*
            bool, Option<bool>, u8, i32, f64, u128, Option<i16>, Option<f32>, Option<u64>,
            Fsa<u8, 3>, Option<Fsa<i16, 5>>,
            [bool; 3], [i32; 2], Option<[bool; 5]>, [Option<i16>; 2], Option<[Option<bool>; 3]>,
            Vec<u8>, Vec<bool>, Option<Vec<i32>>, Vec<Option<bool>>, Option<Vec<Option<u16>>>,
            Vec<Vec<u8>>, Option<Vec<Option<Vec<Option<i32>>>>>, [Vec<i32>; 2],
            Option<[Option<Vec<bool>>; 2]>, Vec<[bool; 3]>, Vec<Option<[Option<u8>; 2]>>,
            [u8; 300], [Option<bool>; 70],
            [Option<bool>; 1], Option<[i32; 1]>, [Option<Vec<u8>>; 1], Option<Vec<bool>>,
        }
    };
}

/// Arrays of the listed items in one storage.
#[macro_export]
macro_rules! arrays_in {
    ($dy:ty; $s:ty; $($t:ty),* $(,)?) => {
        $crate::makers!($dy; $(narrow::array::Array<$t, $s>),*)
    };
}

/// Collections below the array level in one storage.
#[macro_export]
macro_rules! raws_in {
    ($dy:ty; $s:ty) => {
        $crate::makers!($dy;
            Bitmap<$s>,
            Validity<Bitmap<$s>, $s>,
            Validity<<$s as narrow::buffer::Buffer>::For<u16>, $s>,
            Offsets<<$s as narrow::buffer::Buffer>::For<i32>, i64, $s>,
            Offsets<Validity<Bitmap<$s>, $s>, i32, $s>,
            Flatten<Bitmap<$s>, 5>,
            Flatten<Validity<<$s as narrow::buffer::Buffer>::For<u8>, $s>, 3>,
            VariableSizeList<u8, Nullable, i64, $s>,
            VariableSizeList<Option<bool>, NonNullable, i64, $s>,
            FixedSizeList<Option<bool>, 4, NonNullable, $s>,
        )
    };
}


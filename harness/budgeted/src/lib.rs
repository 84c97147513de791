//! Growable collections over storage with a scheduled allocator.

use narrow::{
    bitmap::Bitmap,
    collection::flatten::Flatten,
    fixed_size::FixedSizeArray as Fsa,
    layout::{fixed_size_list::FixedSizeList, variable_size_list::VariableSizeList},
    nullability::{NonNullable, Nullable},
    offset::Offsets,
    validity::Validity,
};

use vharness::{
    arrays_in, raws_in, with_few_items,
    budget::BudgetBuffer,
    coll::{Make, Maker, NoClone as _},
};

pub fn budgeted() -> Vec<&'static dyn Maker> {
    let mut v = with_few_items!(arrays_in!(&'static dyn Maker; BudgetBuffer;));
    v.extend(raws_in!(&'static dyn Maker; BudgetBuffer));
    v
}


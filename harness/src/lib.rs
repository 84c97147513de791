//! Property-based checks of mbrobbel/narrow.

pub mod budget;
pub mod coll;
pub mod common;
pub mod engine;
pub mod feed;
pub mod lists;
pub mod mem;
pub mod phys;
pub mod quiet;
pub mod refuse;
pub mod val;

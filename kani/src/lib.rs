//! Solver harnesses over the real qlab code (Kani / CBMC).
extern crate alloc;
pub mod bonds;
pub mod bondvalue;
pub mod cal;
pub mod curve;
pub mod dates;
pub mod daycount;
pub mod field;
pub mod frac;
pub mod nanpath;
pub mod poly;
pub mod presence;
pub mod refcal;
pub mod ring;
pub mod rolling;
pub mod sym;
pub mod valuemac;

pub fn table() -> Vec<(&'static str, fn())> {
    [dates::TABLE, rolling::TABLE, daycount::TABLE, nanpath::TABLE, curve::TABLE, bonds::TABLE, bonds::ANCHORED, bondvalue::TABLE, cal::easter::TABLE, cal::europe::TABLE, cal::nordic::TABLE, cal::america::TABLE, cal::south::TABLE, cal::eastasia::TABLE, cal::southasia::TABLE].concat()
}

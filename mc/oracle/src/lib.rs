pub mod copy;
pub mod driver;
pub mod model;
pub mod pbf;
pub mod scratch;

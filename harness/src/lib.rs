//! Property-based checks of the pgdatetime crate.
#[macro_use]
pub mod engine;
pub mod gen;
pub mod guided;
pub mod model;
pub mod poison;
pub mod props;
pub mod san;
pub mod textgen;
pub mod val;
pub mod wire;

//! Shared machinery of the property checks: the generate/judge/shrink loop
//! (`frame`), plain-data cases with their generators, the library objects built from
//! them and an independent reference for each (`spec`, `market`), and numerical
//! references (`numeric`).
#![allow(clippy::all)]
#![allow(dead_code)]
pub mod docs;
pub mod frame;
pub mod market;
pub mod numeric;
pub mod paths;
pub mod portfolio;
pub mod reports;
pub mod spec;

pub use frame::*;
pub use market::*;
pub use numeric::*;
pub use paths::*;
pub use portfolio::*;
pub use reports::*;
pub use spec::*;
pub use proptest;
pub use quantmath;
pub use serde;
pub use serde_json;

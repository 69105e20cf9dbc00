//! Shared infrastructure of the runtime monitors: recording of observations and violations,
//! panic/hang monitors, an independent reference model of terms, truth values and inference rules,
//! and workload generators. Only small, stable parts of the library under test are used here.
#![allow(non_snake_case)]

pub mod clock;
pub mod ctx;
pub mod gen;
pub mod r;
pub mod rules;
pub mod sys;
pub mod tvr;

pub use ctx::*;
pub use gen::*;
pub use r::*;
pub use tvr::*;

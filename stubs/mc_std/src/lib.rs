//! Stands in for `std` in the code under test: everything is the standard library, except that
//! `std::sync` goes through the explorer's scheduler and `std::fs` through its fault plan.
pub use std::*;
pub mod fs;
pub mod sync;

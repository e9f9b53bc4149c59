//! The controlled environment shared by the instrumented standard library (`mc_std`), the
//! stand-in crates and the explorer: cooperative scheduler, file-system fault plan, hash seeds.
pub mod faults;
pub mod sched;
pub mod seed;

//! Observation support for the conformance drivers and the generated programs.
#![allow(static_mut_refs)]
pub mod guard;
pub mod log;
pub mod mem;
pub mod out;
pub mod probe;
pub mod run;
pub mod weave;

pub use laby;
pub use probe::*;
pub use raw_cpuid;

//! Engine of the bounded exhaustive checks: suites, workers, counters, violations, evidence.
pub mod bf;
mod bftab;
pub mod engine;
pub mod mixed;
pub mod probe;
pub mod rings;
pub use engine::*;
pub use rings::*;

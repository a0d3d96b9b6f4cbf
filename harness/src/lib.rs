//! Runtime-monitoring harness for hacspec: workload runner, oracles (independent reference
//! implementations) and generators.  Only the public API of the crates in /repo is used.
pub mod mi;
pub mod mon;
pub use hvo::{gen, oracle};

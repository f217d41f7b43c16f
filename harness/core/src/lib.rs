#![allow(static_mut_refs, dangerous_implicit_autorefs, dead_code, clippy::all)]
//! The simulator: scheduler, faults, allocator, user types, scenarios, reference model and oracles.
pub mod alloc;
pub mod coll;
pub mod props;
pub mod run;
pub mod scen;
pub mod sim;
pub mod types;

#![allow(static_mut_refs, dangerous_implicit_autorefs, dead_code, unused_variables, clippy::all)]
//! The library instantiated with usize hash values and usize flags.
pub use htcore::{run, scen, sim, types};
#[path = "../../coll.rs"]
pub mod coll;
pub type H = usize;
pub type F = usize;
pub fn std_hashers(seed: u64) -> Result<(), String> {
    let _ = seed; Ok(())
}
include!("../../body.rs");

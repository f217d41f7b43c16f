#![allow(static_mut_refs, dangerous_implicit_autorefs, dead_code, unused_variables, clippy::all)]
//! The library instantiated with u128 hash values and u128 flags.
pub use htcore::{run, scen, sim, types};
#[path = "../../coll.rs"]
pub mod coll;
pub type H = u128;
pub type F = u128;
pub fn std_hashers(seed: u64) -> Result<(), String> {
    let _ = seed; Ok(())
}
include!("../../body.rs");

#![allow(static_mut_refs, dangerous_implicit_autorefs, dead_code, unused_variables, clippy::all)]
//! The library instantiated with u64 hash values and u8 flags.
pub use htcore::{run, scen, sim, types};
#[path = "../../coll.rs"]
pub mod coll;
pub type H = u64;
pub type F = u8;
pub fn std_hashers(seed: u64) -> Result<(), String> {
    crate::types::stdh::<H, F>(seed)
}
include!("../../body.rs");

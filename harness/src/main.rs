#![allow(static_mut_refs, dangerous_implicit_autorefs, dead_code)]
//! htsim: deterministic simulation of hash-trie. See /verif/DESIGN.md.
use htcore::{alloc, coll, props, run, scen, sim};
mod parent;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub fn fns(world: u8) -> &'static run::Fns {
    [&htw0::FNS, &htw1::FNS, &htw2::FNS, &htw3::FNS, &htw4::FNS, &htw5::FNS, &htw6::FNS][(world % scen::NWORLD) as usize]
}

fn main() {
    unsafe {
        // best effort: identical addresses in every process
        let p = libc::personality(0xffffffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).exec();
            let _ = e;
        }
    }
    std::process::exit(parent::main());
}

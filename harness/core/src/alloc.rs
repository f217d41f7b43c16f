//! The simulator's allocator seam: every block the library allocates is tagged, counted, guarded by a
//! red zone, poisoned when freed and kept in quarantine, so that leaks, double frees, overruns and
//! accesses to freed or never initialised memory show up deterministically.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

const HDR: usize = 32;
const RZ: usize = 16;
const LIVE: u64 = 0x51_1b_a1_10_c8_ed_b1_0c;
const FREED: u64 = 0xde_ad_b1_0c_de_ad_b1_0c;
const POISON: u8 = 0xdb;
const FRESH: u8 = 0xa5;
const RZB: u8 = 0xc7;
const QCAP: usize = 4096;

#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: u32,
    tagged: u32,
    next: usize,
}

pub static mut IN_LIB: bool = false;
pub static mut LIVE_BLOCKS: i64 = 0;
pub static mut LIVE_BYTES: i64 = 0;
pub static mut TOTAL_BLOCKS: u64 = 0;
/// Bytes the current operation may still allocate inside the library.
pub static mut OP_BYTES: i64 = i64::MAX;
/// Freed blocks are handed out again at once, last in first out, so that addresses recur (ABA).
pub static mut REUSE: bool = false;
const FMAX: usize = 2048;
static mut FREE: [usize; FMAX + 1] = [0; FMAX + 1];
static mut QUAR: [(usize, usize, u32); QCAP] = [(0, 0, 0); QCAP];
static mut QPOS: usize = 0;

#[inline]
fn off(align: usize) -> usize {
    if align > HDR { align } else { HDR }
}

unsafe fn real_free(p: usize, size: usize, align: u32) {
    let o = off(align as usize);
    System.dealloc((p - o) as *mut u8, Layout::from_size_align_unchecked(o + size + RZ, (align as usize).max(16)));
}

unsafe fn check_poison(p: usize, size: usize) {
    let b = core::slice::from_raw_parts(p as *const u8, size);
    if b.iter().any(|x| *x != POISON) {
        crate::sim::viol(crate::sim::Class::Mem, "a freed block was written to");
    }
}

/// Gives the blocks kept for reuse back to the system.
pub fn flush_reuse() {
    unsafe {
        let f = &raw mut FREE;
        for i in 0..=FMAX {
            let mut p = (*f)[i];
            (*f)[i] = 0;
            while p != 0 {
                let h = &*((p - HDR) as *const Hdr);
                let (n, s, a) = (h.next, h.size, h.align);
                check_poison(p, s);
                real_free(p, s, a);
                p = n;
            }
        }
    }
}

/// Empties the quarantine, checking that nothing wrote to freed blocks.
pub fn flush_quarantine() {
    unsafe {
        let q = &raw mut QUAR;
        for i in 0..QCAP {
            let (p, s, a) = (*q)[i];
            if p != 0 {
                check_poison(p, s);
                (*q)[i] = (0, 0, 0);
                real_free(p, s, a);
            }
        }
        QPOS = 0;
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = off(l.align());
        let tagged = IN_LIB;
        if tagged {
            OP_BYTES -= l.size() as i64;
            if OP_BYTES < 0 {
                OP_BYTES = i64::MAX;
                IN_LIB = false;
                crate::sim::viol(crate::sim::Class::Hang, "memory budget of one operation exceeded");
                crate::sim::give_up("memory budget of one operation exceeded");
            }
        }
        if tagged && REUSE && l.size() <= FMAX && l.align() <= 16 && FREE[l.size()] != 0 {
            let f = &raw mut FREE;
            let u = (*f)[l.size()];
            let h = &mut *((u - HDR) as *mut Hdr);
            (*f)[l.size()] = h.next;
            check_poison(u, l.size());
            h.magic = LIVE;
            h.align = l.align() as u32;
            let u = u as *mut u8;
            core::ptr::write_bytes(u, FRESH, l.size());
            LIVE_BLOCKS += 1;
            LIVE_BYTES += l.size() as i64;
            TOTAL_BLOCKS += 1;
            crate::sim::mem_point();
            return u;
        }
        let p = System.alloc(Layout::from_size_align_unchecked(o + l.size() + RZ, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let u = p.add(o);
        let h = &mut *(u.sub(HDR) as *mut Hdr);
        h.magic = LIVE;
        h.size = l.size();
        h.align = l.align() as u32;
        h.tagged = tagged as u32;
        if tagged {
            core::ptr::write_bytes(u, FRESH, l.size());
            core::ptr::write_bytes(u.add(l.size()), RZB, RZ);
            LIVE_BLOCKS += 1;
            LIVE_BYTES += l.size() as i64;
            TOTAL_BLOCKS += 1;
            crate::sim::mem_point();
        }
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = &mut *(u.sub(HDR) as *mut Hdr);
        if h.magic != LIVE {
            let saved = IN_LIB;
            IN_LIB = false;
            crate::sim::viol(crate::sim::Class::Mem, if h.magic == FREED { "a block was freed twice" } else { "a pointer that is no block was freed" });
            IN_LIB = saved;
            return;
        }
        if h.tagged == 0 {
            h.magic = FREED;
            let o = off(h.align as usize);
            System.dealloc(u.sub(o), Layout::from_size_align_unchecked(o + h.size + RZ, (h.align as usize).max(16)));
            return;
        }
        if h.size != l.size() || h.align as usize != l.align() {
            crate::sim::viol(crate::sim::Class::Mem, "a block was freed with another layout than it was allocated with");
        }
        let rz = core::slice::from_raw_parts(u.add(h.size), RZ);
        if rz.iter().any(|x| *x != RZB) {
            crate::sim::viol(crate::sim::Class::Mem, "a block was written past its end");
        }
        LIVE_BLOCKS -= 1;
        LIVE_BYTES -= h.size as i64;
        h.magic = FREED;
        core::ptr::write_bytes(u, POISON, h.size);
        if REUSE && h.size <= FMAX && h.align <= 16 {
            let f = &raw mut FREE;
            h.next = (*f)[h.size];
            (*f)[h.size] = u as usize;
            if IN_LIB {
                crate::sim::mem_point();
            }
            return;
        }
        let q = &raw mut QUAR;
        let (p, s, a) = (*q)[QPOS];
        if p != 0 {
            check_poison(p, s);
            real_free(p, s, a);
        }
        (*q)[QPOS] = (u as usize, h.size, h.align);
        QPOS = (QPOS + 1) % QCAP;
        if IN_LIB {
            crate::sim::mem_point();
        }
    }
}

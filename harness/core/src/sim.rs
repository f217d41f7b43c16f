//! Simulator core: one PRNG, one scheduler, one fault injector. Everything a run does is a function of the
//! scenario and the recorded decisions.
use crate::alloc::{IN_LIB, OP_BYTES};
use corosensei::Yielder;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix1(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn chance(&mut self, per_mille: u32) -> bool {
        self.below(1000) < per_mille as u64
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }
}
pub fn mix1(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
pub fn mix(xs: &[u64]) -> u64 {
    let mut h = 0x243f_6a88_85a3_08d3u64;
    for x in xs {
        h = mix1(h ^ x.wrapping_mul(0x9e37_79b9_7f4a_7c15)).wrapping_add(0x1337);
    }
    mix1(h)
}

/// Seams: where the simulator gains control.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Seam { Hash, Eq, CloneK, CloneV, Drop, Op, Reduce, Into, Poll, Hold, Visit, RedClone, Start, Default_, Mem }
pub const NSEAM: usize = 15;

/// What an observed discrepancy is about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Class {
    Result,      // wrong return value or wrong contents of the version an operation produced
    Inconsistent,// size, traversal and lookup of one version disagree
    Isolation,   // an existing version changed
    Reduce,      // reduction or callback multiset wrong
    Mem,         // leak, double drop, use after free, overrun
    EqUnsound, // equality broken
    Share,       // needless copies
    Refs,        // pointer or reference wrong
    Hang,        // progress budget exceeded
    Panic,       // the library panicked by itself
    Strategy,    // differs from the sequential, uninterrupted run
    Retry,       // retry after a fault gives a wrong result
    Cost,        // more work than an operation of its kind may do
    Signal,      // the process died (segmentation fault, abort, stack overflow)
}

/// What kind of operation was in flight.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Cat { None, MapPoint, SetPoint, MapSingle, SetSingle, MapJoint, MapMixed, SetJoint, SetMixed, Read, Drop }

pub const FK_NONE: u8 = 0;
pub const FK_PANIC: u8 = 1;
pub const FK_CANCEL: u8 = 2;
pub const FK_CRASH: u8 = 3;

#[derive(Clone, Copy)]
pub struct Cli {
    pub in_lib: bool,
    pub cat: Cat,
    pub armed: u8,
    pub at: u32,
    pub cb: u64,
    pub budget: u64,
    pub bytes: i64,
    pub clones: u64,
    pub hashes: u64,
    pub eqs: u64,
    pub blocks: u64,
    pub last: [u64; 4],
    pub stalled: bool,
    pub pends: u32,
    pub opno: u32,
    pub cancel: bool,
    pub seen: u32,
}
pub const CLI0: Cli = Cli { in_lib: false, cat: Cat::None, armed: 0, at: 0, cb: 0, budget: u64::MAX, bytes: i64::MAX, clones: 0, hashes: 0, eqs: 0, blocks: 0, last: [0; 4], stalled: false, pends: 0, opno: 0, cancel: false, seen: 0 };

pub struct Injected;

pub const MAXC: usize = 6;

pub struct Sim {
    pub active: bool,
    pub quiet: u32,
    pub nopre: u32,
    pub replay: bool,
    pub rng: Rng,
    pub p_switch: u32,
    pub p_pend: u32,
    pub p_mem: u32,
    pub seam_idx: u64,
    pub yield_idx: u64,
    pub choice_idx: u64,
    pub sched: Vec<(u64, u8)>,
    pub pends: Vec<u64>,
    pub choices: Vec<(u64, u32)>,
    pub sp: usize,
    pub pp: usize,
    pub cp: usize,
    pub cur: usize,
    pub cli: [Cli; MAXC],
    pub runnable: [bool; MAXC],
    pub nclients: usize,
    pub yielder: [*const Yielder<(), usize>; MAXC],
    pub htab: Vec<u64>,
    pub world: u8,
    pub live: [i64; 5],
    pub evhash: u64,
    pub swhash: u64,
    pub nswitch: u64,
    pub npend: u64,
    pub faults_fired: u64,
    pub verify_every: u64,
    pub verify: Option<fn()>,
    pub prop: u32,
    pub run: u64,
    pub foreign: u64,
    pub st: Stats,
    pub steps: u64,
    pub log: Option<Vec<String>>,
    pub trace_fd: i32,
    pub step_cap: u64,
    pub overrun: bool,
    pub last_panic: [u8; 200],
    pub last_panic_len: usize,
    pub panic_cat: Cat,
}

#[derive(Clone, Default)]
pub struct Stats {
    pub seams: [u64; NSEAM],
    pub panics: [u64; NSEAM],
    pub cancels: u64,
    pub crashes: u64,
    pub pends: u64,
    pub switches: u64,
    pub ops: [u64; 24],
    pub refaulted: u64,
    pub armed_unfired: u64,
    pub runs: u64,
    pub max_cb_ratio: u64,
    pub vchecks: u64,
}

static mut SIM: *mut Sim = core::ptr::null_mut();

#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn have_sim() -> bool {
    unsafe { !SIM.is_null() }
}

pub fn init() {
    let s = Box::new(Sim {
        active: false, quiet: 0, nopre: 0, replay: false, rng: Rng(1), p_switch: 0, p_pend: 0, p_mem: 0, seam_idx: 0, yield_idx: 0, choice_idx: 0,
        sched: Vec::new(), pends: Vec::new(), choices: Vec::new(), sp: 0, pp: 0, cp: 0, cur: 0, cli: [CLI0; MAXC],
        runnable: [false; MAXC], nclients: 0, yielder: [core::ptr::null(); MAXC], htab: Vec::new(), world: 0, live: [0; 5], evhash: 0, swhash: 0, nswitch: 0, npend: 0,
        faults_fired: 0, verify_every: 0, verify: None, prop: 0, run: 0, foreign: 0, st: Stats::default(), steps: 0, log: None,
        trace_fd: -1, step_cap: u64::MAX, overrun: false, last_panic: [0; 200], last_panic_len: 0, panic_cat: Cat::None,
    });
    unsafe { SIM = Box::into_raw(s) };
    hash_trie::sim::set_yield_hook(yield_hook);
}

pub struct Outside(bool);
/// Marks code as not part of the library until the guard is dropped.
#[inline]
pub fn outside() -> Outside {
    unsafe {
        let s = IN_LIB;
        IN_LIB = false;
        Outside(s)
    }
}
impl Drop for Outside {
    #[inline]
    fn drop(&mut self) {
        unsafe { IN_LIB = self.0 }
    }
}

pub struct Quiet(bool);
/// No preemption, no faults and no budget until the guard is dropped (used by oracles).
pub fn quiet() -> Quiet {
    sim().quiet += 1;
    unsafe {
        let s = IN_LIB;
        IN_LIB = false;
        Quiet(s)
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        sim().quiet -= 1;
        unsafe { IN_LIB = self.0 }
    }
}

fn trace(kind: u8, a: u64, b: u64) {
    let s = sim();
    if s.trace_fd >= 0 {
        let t = format!("{} {} {}\n", kind as char, a, b);
        unsafe { libc::write(s.trace_fd, t.as_ptr() as *const _, t.len()) };
    }
}

/// Which keys (by number) and values (by payload) the library has cloned in the client's current operation.
static mut CLONED: [Vec<(bool, u64)>; MAXC] = [const { Vec::new() }; MAXC];
#[allow(static_mut_refs)]
pub fn cloned() -> &'static mut Vec<(bool, u64)> {
    unsafe { &mut CLONED[sim().cur] }
}
pub fn note_clone(key: bool, x: u64) {
    if !have_sim() { return }
    let s = sim();
    if !s.active || s.quiet > 0 || !s.cli[s.cur].in_lib { return }
    let _g = outside();
    if cloned().len() < 256 { cloned().push((key, x)) }
}

/// A point at which the simulator may inject a fault or hand control to another client.
pub fn seam(kind: Seam) {
    if !have_sim() {
        return;
    }
    let s = sim();
    if !s.active || s.quiet > 0 {
        return;
    }
    let _g = outside();
    s.seam_idx += 1;
    s.st.seams[kind as usize] += 1;
    s.evhash = mix1(s.evhash ^ ((kind as u64) << 8 | s.cur as u64)).wrapping_add(s.seam_idx);
    let panicking = std::thread::panicking();
    let c = &mut s.cli[s.cur];
    if c.in_lib {
        c.cb += 1;
        match kind {
            Seam::CloneK | Seam::CloneV => c.clones += 1,
            Seam::Hash => c.hashes += 1,
            Seam::Eq => c.eqs += 1,
            _ => {}
        }
        if c.cb > c.budget {
            c.budget = u64::MAX;
            viol(Class::Hang, "progress budget of one operation exceeded");
            give_up("progress budget of one operation exceeded");
        }
        if !panicking && kind != Seam::Drop && kind != Seam::Poll && (c.armed == FK_PANIC || c.armed == FK_CRASH) {
            if c.at == 0 {
                let crash = c.armed == FK_CRASH;
                c.armed = FK_NONE;
                s.faults_fired += 1;
                if crash { s.st.crashes += 1 } else { s.st.panics[kind as usize] += 1 }
                logline(|| format!("fault: panic injected in {:?}", kind));
                std::panic::panic_any(Injected);
            }
            c.at -= 1;
        }
    }
    if s.verify_every > 0 && s.seam_idx % s.verify_every == 0 && !panicking {
        if let Some(v) = s.verify {
            v();
        }
    }
    if !panicking {
        preempt(s.p_switch);
    }
}

/// The library takes or returns a block of memory: control may pass to another client here too, so that
/// interleavings between two callbacks of one operation occur. Nothing fails here.
pub fn mem_point() {
    if !have_sim() { return }
    let s = sim();
    s.cli[s.cur].blocks += 1;
    if s.p_mem == 0 || !s.active || s.quiet > 0 || s.nopre > 0 || s.nclients < 2 || std::thread::panicking() { return }
    let _g = outside();
    s.seam_idx += 1;
    s.st.seams[Seam::Mem as usize] += 1;
    s.evhash = mix1(s.evhash ^ ((Seam::Mem as u64) << 8 | s.cur as u64)).wrapping_add(s.seam_idx);
    if s.verify_every > 0 && s.seam_idx % s.verify_every == 0 {
        if let Some(v) = s.verify {
            v();
        }
    }
    preempt(s.p_mem);
}

fn preempt(p_switch: u32) {
    let s = sim();
    if s.nopre > 0 || s.nclients < 2 || s.yielder[s.cur].is_null() {
        return;
    }
    let mut target = s.cur;
    if s.replay {
        while s.sp < s.sched.len() && s.sched[s.sp].0 < s.seam_idx { s.sp += 1 }
        if s.sp < s.sched.len() && s.sched[s.sp].0 == s.seam_idx {
            let t = s.sched[s.sp].1 as usize;
            if t < s.nclients && s.runnable[t] { target = t }
        }
    } else if s.rng.chance(p_switch) {
        let n = (0..s.nclients).filter(|i| s.runnable[*i]).count() as u64;
        let k = s.rng.below(n);
        target = (0..s.nclients).filter(|i| s.runnable[*i]).nth(k as usize).unwrap();
        if target != s.cur {
            s.sched.push((s.seam_idx, target as u8));
            trace(b's', s.seam_idx, target as u64);
        }
    }
    if target != s.cur {
        s.nswitch += 1;
        s.st.switches += 1;
        s.swhash = mix1(s.swhash ^ s.seam_idx << 4 ^ target as u64);
        let me = s.cur;
        logline(|| format!("switch: client {} -> client {}", me, target));
        let y = s.yielder[me];
        unsafe {
            let b = OP_BYTES;
            OP_BYTES = i64::MAX;
            (*y).suspend(target);
            OP_BYTES = b;
        }
        // resumed: the main loop has set cur back to me
        debug_assert_eq!(sim().cur, me);
    }
}

/// Which runnable client goes next when the current one has finished.
pub fn next_client() -> Option<usize> {
    let s = sim();
    s.seam_idx += 1;
    let r: Vec<usize> = (0..s.nclients).filter(|i| s.runnable[*i]).collect();
    if r.is_empty() { return None }
    let mut t = r[0];
    if s.replay {
        while s.sp < s.sched.len() && s.sched[s.sp].0 < s.seam_idx { s.sp += 1 }
        if s.sp < s.sched.len() && s.sched[s.sp].0 == s.seam_idx && s.runnable[s.sched[s.sp].1 as usize] { t = s.sched[s.sp].1 as usize }
    } else {
        t = r[s.rng.below(r.len() as u64) as usize];
        if t != r[0] {
            s.sched.push((s.seam_idx, t as u8));
            trace(b's', s.seam_idx, t as u64);
        }
    }
    s.swhash = mix1(s.swhash ^ s.seam_idx << 4 ^ t as u64);
    Some(t)
}

/// A scheduling decision among `n` alternatives inside one client (for example which future to poll).
pub fn choose(n: u32) -> u32 {
    let s = sim();
    if n <= 1 || s.quiet > 0 { return 0 }
    s.choice_idx += 1;
    if s.replay {
        while s.cp < s.choices.len() && s.choices[s.cp].0 < s.choice_idx { s.cp += 1 }
        if s.cp < s.choices.len() && s.choices[s.cp].0 == s.choice_idx { s.choices[s.cp].1 % n } else { 0 }
    } else {
        let c = s.rng.below(n as u64) as u32;
        if c != 0 {
            s.choices.push((s.choice_idx, c));
            trace(b'c', s.choice_idx, c as u64);
        }
        s.swhash = mix1(s.swhash ^ (s.choice_idx << 20) ^ c as u64);
        c
    }
}

/// Called by the library's guarded yield points: stay pending or go on?
fn yield_hook() -> bool {
    if !have_sim() { return false }
    let s = sim();
    if !s.active || s.quiet > 0 || std::thread::panicking() { return false }
    let _g = outside();
    s.yield_idx += 1;
    let c = &mut s.cli[s.cur];
    if c.armed == FK_CANCEL {
        if c.at == 0 {
            c.armed = FK_NONE;
            c.cancel = true;
            s.faults_fired += 1;
            s.st.cancels += 1;
            logline(|| "fault: asynchronous operation cancelled".to_string());
            c.stalled = true;
            return true;
        }
        c.at -= 1;
    }
    if c.pends > 400 { return false }
    let p = if s.replay {
        while s.pp < s.pends.len() && s.pends[s.pp] < s.yield_idx { s.pp += 1 }
        s.pp < s.pends.len() && s.pends[s.pp] == s.yield_idx
    } else {
        let p = s.rng.chance(s.p_pend);
        if p {
            s.pends.push(s.yield_idx);
            trace(b'p', s.yield_idx, 0);
        }
        p
    };
    if p {
        c.pends += 1;
        c.stalled = true;
        s.st.pends += 1;
        s.npend += 1;
        s.swhash = mix1(s.swhash ^ (s.yield_idx << 32));
        s.evhash = mix1(s.evhash ^ s.yield_idx);
    }
    p
}

pub fn logline(f: impl FnOnce() -> String) {
    let s = sim();
    if s.log.is_some() {
        let _g = outside();
        let t = f();
        if let Some(l) = &mut s.log { l.push(t) }
    }
}

pub fn event(x: u64) {
    let s = sim();
    s.evhash = mix1(s.evhash ^ x);
}

pub fn out(t: &str) {
    unsafe { libc::write(1, t.as_ptr() as *const _, t.len()) };
}

/// Reports a discrepancy. If the property being checked owns it, the process ends here.
pub fn viol(class: Class, msg: &str) {
    let _g = outside();
    let s = sim();
    let cat = s.cli[s.cur].cat;
    viol_cat(class, cat, msg)
}
pub fn viol_cat(class: Class, cat: Cat, msg: &str) {
    let _g = outside();
    let s = sim();
    s.active = false;
    if crate::props::owns(s.prop, class, cat, s.faults_fired > 0) {
        out(&format!("VIOL {} {:?} {:?} client {} op {}: {}\n", s.run, class, cat, s.cur, s.cli[s.cur].opno, msg));
        if let Some(l) = &s.log {
            for x in l { out(&format!("LOG {}\n", x)) }
        }
        unsafe { libc::_exit(1) };
    }
    s.foreign += 1;
    if s.foreign <= 3 {
        out(&format!("FOREIGN {} {:?} {:?} {}\n", s.run, class, cat, msg));
    }
    s.active = true;
}

/// The run cannot go on (and the discrepancy belongs to another property): end this process.
pub fn give_up(msg: &str) -> ! {
    let _g = outside();
    out(&format!("GIVEUP {} {}\n", sim().run, msg));
    unsafe { libc::_exit(5) }
}

extern "C" fn on_signal(sig: i32) {
    unsafe {
        IN_LIB = false;
        OP_BYTES = i64::MAX;
    }
    if have_sim() {
        let s = sim();
        let cat = s.cli[s.cur].cat;
        if sig == libc::SIGVTALRM || sig == libc::SIGALRM {
            viol_cat(Class::Hang, cat, "an operation makes no progress (processor time limit)");
        } else {
            let m = format!("signal {} (memory error, abort or stack overflow)", sig);
            viol_cat(Class::Signal, cat, &m);
        }
        give_up("signal");
    }
    unsafe { libc::_exit(6) }
}

pub fn install_signals() {
    unsafe {
        let sz = 256 * 1024;
        let st = libc::mmap(core::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        let ss = libc::stack_t { ss_sp: st, ss_flags: 0, ss_size: sz };
        libc::sigaltstack(&ss, core::ptr::null_mut());
        let mut sa: libc::sigaction = core::mem::zeroed();
        sa.sa_sigaction = on_signal as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE, libc::SIGVTALRM, libc::SIGTRAP] {
            libc::sigaction(sig, &sa, core::ptr::null_mut());
        }
        let rl = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &rl);
    }
}

pub fn cpu_limit(secs: i64) {
    unsafe {
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: secs, tv_usec: 0 } };
        libc::setitimer(libc::ITIMER_VIRTUAL, &t, core::ptr::null_mut());
    }
}

/// Silences panic messages but remembers the last one.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let _g = outside();
        if i.payload().downcast_ref::<Injected>().is_some() || !have_sim() { return }
        let s = sim();
        let t = format!("{}", i).replace('\n', " ");
        let b = t.as_bytes();
        let n = b.len().min(200);
        s.last_panic[..n].copy_from_slice(&b[..n]);
        s.last_panic_len = n;
        s.panic_cat = s.cli[s.cur].cat;
    }));
}
pub fn last_panic() -> String {
    let s = sim();
    String::from_utf8_lossy(&s.last_panic[..s.last_panic_len]).to_string()
}

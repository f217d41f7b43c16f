//! Entering library code, the reference semantics of bulk operations, held references.
use crate::alloc::{IN_LIB, OP_BYTES};
use crate::scen::*;
use crate::sim::*;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ent {
    pub id: u32,
    pub tag: u32,
    pub p: u64,
    pub ka: usize,
    pub va: usize,
}
pub type Model = BTreeMap<u32, (u32, u64)>;
pub type Addrs = BTreeMap<u32, (usize, usize)>;

/// One admissible entry for a key.
#[derive(Clone, Copy, Debug)]
pub struct Alt {
    pub tags: [u32; 2],
    pub p: u64,
    pub addr: Option<(usize, usize)>,
}
pub type Exp = BTreeMap<u32, Vec<Alt>>;

static mut SERIAL: u64 = 0;
pub static mut GH: Vec<u64> = Vec::new();
pub fn next_serial() -> u64 {
    unsafe {
        SERIAL += 1;
        SERIAL
    }
}
/// The hash group of a key, as the library sees it.
pub fn ghash(id: u32) -> u64 {
    unsafe {
        let g = &raw const GH;
        (*g)[id as usize]
    }
}
pub fn situ() -> &'static mut HashSet<u64> {
    static mut S: Option<HashSet<u64>> = None;
    unsafe {
        let s = &raw mut S;
        if (*s).is_none() {
            *s = Some(HashSet::new());
        }
        (*s).as_mut().unwrap()
    }
}

// ---------------------------------------------------------------- running library code

/// Bits of the world's hash type (`WORLDS` says how many a scenario's table decides).
pub fn full_bits() -> u32 {
    let (bits, _, name) = WORLDS[sim().world as usize];
    if name.starts_with("u128") { 128 } else { bits }
}
/// How many nodes the longest path can have.
pub fn full_levels() -> u64 {
    full_bits().div_ceil(WORLDS[sim().world as usize].1) as u64
}

pub struct LibGuard {
    old: [u64; 4],
    flag: bool,
    cat: Cat,
    inner: bool,
}
/// Enters library code synchronously with budgets.
pub fn enter(cat: Cat, cbs: u64, bytes: i64) -> LibGuard {
    let s = sim();
    let c = &mut s.cli[s.cur];
    let g = LibGuard { old: [c.hashes, c.eqs, c.blocks, c.clones], flag: unsafe { IN_LIB }, cat: c.cat, inner: c.in_lib };
    c.cat = cat;
    c.in_lib = true;
    c.cb = 0;
    c.budget = cbs;
    c.clones = 0;
    cloned().clear();
    c.hashes = 0;
    c.eqs = 0;
    c.blocks = 0;
    unsafe {
        OP_BYTES = bytes;
        IN_LIB = true;
    }
    g
}
impl Drop for LibGuard {
    fn drop(&mut self) {
        let s = sim();
        let c = &mut s.cli[s.cur];
        c.in_lib = self.inner;
        c.cat = self.cat;
        c.budget = u64::MAX;
        [c.hashes, c.eqs, c.blocks, c.clones] = self.old;
        cloned().clear();
        unsafe {
            OP_BYTES = i64::MAX;
            IN_LIB = self.flag;
        }
    }
}
pub fn cb_budget(n: usize, m: usize, g: usize) -> u64 {
    2000 + 300 * (n as u64 + m as u64 + 1) * (g as u64 + 1)
}
pub const BYTES0: i64 = 96 << 20;
/// Memory one operation may take at this run's number of keys.
pub fn bytes() -> i64 {
    BYTES0 + 16384 * sim().htab.len() as i64
}

/// Library future: polls are library code, everything between polls is not.
pub struct InLib<'a, T> {
    fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    cat: Cat,
    opno: u32,
    cb: u64,
    budget: u64,
    bytes: i64,
    cost: [u64; 4],
    own: u64,
    pub polls: u32,
}
impl<'a, T> InLib<'a, T> {
    pub fn new(cat: Cat, budget: u64, fut: Pin<Box<dyn Future<Output = T> + 'a>>) -> Self {
        let s = sim();
        InLib { fut: Some(fut), cat, opno: s.cli[s.cur].opno, cb: 0, budget, bytes: bytes(), cost: [0; 4], own: 0, polls: 0 }
    }
}
impl<'a, T> Future for InLib<'a, T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<T> {
        let me = self.get_mut();
        me.polls += 1;
        let s = sim();
        let cur = s.cur;
        let g = enter(me.cat, me.budget, me.bytes);
        s.cli[cur].cb = me.cb;
        s.cli[cur].opno = me.opno;
        s.cli[cur].stalled = false;
        // every poll comes with a waker of its own; only the latest counts
        let serial = unsafe { POLLS += 1; POLLS * MAXC + cur };
        let w = poll_waker(serial);
        let r = me.fut.as_mut().unwrap().as_mut().poll(&mut Context::from_waker(&w));
        me.cb = sim().cli[cur].cb;
        me.bytes = unsafe { OP_BYTES };
        let c = &mut sim().cli[cur];
        for (a, b) in me.cost.iter_mut().zip([c.hashes, c.eqs, c.blocks, c.clones]) { *a += b }
        c.last = me.cost;
        if r.is_ready() {
            me.fut = None;
        } else if s.active && s.quiet == 0 {
            if unsafe { WOKEN[cur] } != serial {
                viol(Class::Hang, "a bulk operation's future stays pending and its waker was not called: nobody would poll it again");
            } else if !sim().cli[cur].stalled {
                // the library may give way on its own, but not for ever
                me.own += 1;
                if me.own > 10 * me.budget {
                    viol(Class::Hang, &format!("a bulk operation's future stayed pending {} times without anything inside it being suspended", me.own));
                }
            }
        }
        drop(g);
        r
    }
}

static mut POLLS: usize = 0;
static mut WOKEN: [usize; MAXC] = [0; MAXC];
/// A waker that remembers which one was called last.
fn poll_waker(serial: usize) -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    unsafe fn wake(w: *const ()) {
        WOKEN[w as usize % MAXC] = w as usize
    }
    static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), wake, wake, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(serial as *const (), &VT)) }
}
pub fn noop_waker() -> std::task::Waker {
    poll_waker(0)
}

/// Runs a future alone to completion, without yields, faults or preemption.
pub fn run_quiet<T>(mut f: Pin<Box<dyn Future<Output = T> + '_>>) -> Option<T> {
    let _q = quiet();
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    for _ in 0..10_000_000 {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return Some(x);
        }
    }
    None
}

/// Drops a handle as library code (other clients may run meanwhile).
pub fn discard<T>(x: T) {
    let _g = enter(Cat::Drop, u64::MAX, bytes());
    drop(x);
}

// ---------------------------------------------------------------- held references

pub trait HeldT {
    fn check(&self);
}
pub static mut HELD: Vec<Vec<Box<dyn HeldT>>> = Vec::new();
pub fn held() -> &'static mut Vec<Box<dyn HeldT>> {
    unsafe {
        let h = &raw mut HELD;
        let c = sim().cur;
        while (*h).len() <= c {
            (*h).push(Vec::new());
        }
        &mut (*h)[c]
    }
}
pub fn check_held() {
    let _q = quiet();
    unsafe {
        let h = &raw const HELD;
        for v in &*h {
            for x in v {
                x.check();
            }
        }
    }
}

// ---------------------------------------------------------------- bulk operations: reference semantics

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Transform,
    Transmute,
    Joint,
    KeepL,  // left transformed, right transmuted
    KeepLF, // left transformed, right transfuted (key kept)
    KeepR,
    KeepRF,
    Tm,     // both transmuted
}
pub const BOTH: u8 = 0;
pub const LEFT: u8 = 1;
pub const RIGHT: u8 = 2;
pub const O_LR: u8 = 0;
pub const O_L: u8 = 1;
pub const O_R: u8 = 2;
pub const O_U: u8 = 0;
pub const O_T: u8 = 3;
pub const O_X: u8 = 4;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Call {
    pub side: u8,
    pub id: u32,
    pub tl: u32,
    pub pl: u64,
    pub tr: u32,
    pub pr: u64,
}

pub fn contribution(c: &Call) -> u64 {
    mix(&[c.side as u64, c.id as u64, c.tl as u64, c.pl, c.tr as u64, c.pr])
}
pub fn newp(seed: u64, c: &Call) -> u64 {
    mix(&[seed, contribution(c), 11])
}
pub fn newtag(seed: u64, c: &Call) -> u32 {
    mix(&[seed, contribution(c), 12]) as u32
}

/// What a user operation decides for an entry: a function of the operation's seed, the side and the key.
pub fn outcome(op: &Op, kind: Kind, set: bool, side: u8, id: u32) -> u8 {
    let x = match op.prof {
        9 => mix(&[op.seed, 31, side as u64, ghash(id)]),
        _ => mix(&[op.seed, 32, side as u64, id as u64]),
    } % 1000;
    // weights in per mille of: unchanged, transformed, removed
    let (u, t) = match op.prof {
        1 | 6 | 7 | 8 => (1000, 0),
        2 => (0, 0),
        3 => (850, 75),
        4 => (100, 800),
        5 => (100, 100),
        10 => (500, 0),
        12 => (500, 500),
        13 => (0, 1000),
        // each side of each hash group in its own style
        11 => [(1000, 0), (0, 1000), (0, 0), (400, 300), (200, 200), (250, 0)][(mix(&[op.seed, 34, side as u64, ghash(id)]) % 6) as usize],
        _ => (400, 300),
    };
    let base = if x < u { O_U } else if x < u + t { O_T } else { O_X };
    let transmuting = matches!((kind, side), (Kind::Transmute, _) | (Kind::Tm, _) | (Kind::KeepL, RIGHT) | (Kind::KeepLF, RIGHT) | (Kind::KeepR, LEFT) | (Kind::KeepRF, LEFT));
    if transmuting {
        return if base == O_X { O_X } else { O_T };
    }
    if kind == Kind::Joint && side == BOTH {
        if base == O_X { return O_X }
        if base == O_T && !set { return O_T }
        return match op.prof {
            6 => O_L,
            7 => O_R,
            8 => O_LR,
            _ => [O_LR, O_L, O_R][(mix(&[op.seed, 33, if op.prof == 9 { ghash(id) } else { id as u64 }]) % 3) as usize],
        };
    }
    if set && base == O_T { O_U } else { base }
}

/// Constant outcome of a side, if the operation uses a constant there.
pub fn constant(op: &Op, kind: Kind, side: u8) -> Option<u8> {
    let c = match side { BOTH => op.cb, LEFT => op.cl, _ => op.cr };
    if c == 0 { return None }
    let transmuting = matches!((kind, side), (Kind::Transmute, _) | (Kind::Tm, _) | (Kind::KeepL, RIGHT) | (Kind::KeepLF, RIGHT) | (Kind::KeepR, LEFT) | (Kind::KeepRF, LEFT));
    if transmuting {
        return if c % 2 == 0 { Some(O_X) } else { None };
    }
    if kind == Kind::Joint && side == BOTH {
        return Some(match c { 1 => O_LR, 2 => O_L, 3 => O_R, _ => O_X });
    }
    Some(if c % 2 == 1 { O_U } else { O_X })
}

/// Whether the operation's constants are handed over inside a generic operation that calls them.
pub fn wrapped(op: &Op) -> bool {
    op.seed >> 19 & 7 == 0
}
/// Whether two-sided operations are handed over flipped twice.
pub fn turned(op: &Op) -> bool {
    op.seed >> 22 & 1 == 1
}

pub struct Want {
    pub exp: Exp,
    pub calls: Vec<Call>,
    pub red: (u64, u64),
    pub noop: bool,
    pub ambiguous: bool,
    pub gmax: usize,
}

pub fn want(op: &Op, kind: Kind, set: bool, ml: &Model, al: &Addrs, mr: &Model, ar: &Addrs) -> Want {
    let mut w = Want { exp: Exp::new(), calls: Vec::new(), red: (0, 0), noop: true, ambiguous: false, gmax: 0 };
    let mut groups: BTreeMap<u64, (usize, usize, usize)> = BTreeMap::new();
    let ids: std::collections::BTreeSet<u32> = ml.keys().chain(mr.keys()).copied().collect();
    for id in &ids {
        let e = groups.entry(ghash(*id)).or_default();
        e.0 += ml.contains_key(id) as usize;
        e.1 += mr.contains_key(id) as usize;
        e.2 += 1;
    }
    let cfg = mix(&[kind as u64, set as u64, (op.f & F_PAR) as u64, op.cb as u64, op.cl as u64, op.cr as u64, op.fk as u64, op.prof as u64]);
    for g in groups.values() {
        w.gmax = w.gmax.max(g.2);
        if situ().len() < 200_000 {
            situ().insert(mix(&[cfg, g.0.min(4) as u64, g.1.min(4) as u64, g.2.min(5) as u64]));
        }
    }
    for id in ids {
        let l = ml.get(&id).copied();
        let r = mr.get(&id).copied();
        let side = if l.is_some() && r.is_some() { BOTH } else if l.is_some() { LEFT } else { RIGHT };
        let (tl, pl) = l.unwrap_or((0, 0));
        let (tr, pr) = r.unwrap_or((0, 0));
        let call = Call { side, id, tl, pl, tr, pr };
        let o = match constant(op, kind, side) {
            Some(o) => o,
            None => {
                w.calls.push(call);
                w.red.0 = w.red.0.wrapping_add(1);
                w.red.1 = w.red.1.wrapping_add(contribution(&call));
                outcome(op, kind, set, side, id)
            }
        };
        let single = groups[&ghash(id)].2 == 1;
        let la = if single { al.get(&id).copied() } else { None };
        let ra = if single { ar.get(&id).copied() } else { None };
        let np = if set { 0 } else { newp(op.seed, &call) };
        let nt = newtag(op.seed, &call);
        let one = |t: u32, p: u64, a: Option<(usize, usize)>| vec![Alt { tags: [t, t], p, addr: a }];
        // an entry kept is one side's entry, key and value; a new value may be stored under either side's key
        let both_l = |p: u64, a: Option<(usize, usize)>, tag: u32| vec![Alt { tags: if set || o != O_T { [tag, tag] } else { [tl, tr] }, p, addr: a }];
        if o != O_U { w.noop = false }
        let alts: Option<Vec<Alt>> = match (kind, side, o) {
            (_, _, O_X) => None,
            (Kind::Transform, _, O_U) => Some(one(tl, pl, la)),
            (Kind::Transform, _, _) => Some(one(tl, np, None)),
            (Kind::Transmute, _, _) | (Kind::Tm, _, _) => Some(one(nt, np, None)),
            (Kind::Joint, BOTH, O_LR) => {
                w.ambiguous = true;
                let mut x = both_l(pl, la, tl);
                x.extend(both_l(pr, ra, tr));
                Some(x)
            }
            (Kind::Joint, BOTH, O_L) => Some(both_l(pl, la, tl)),
            (Kind::Joint, BOTH, O_R) => Some(both_l(pr, ra, tr)),
            (Kind::Joint, BOTH, _) => Some(both_l(np, None, tl)),
            (Kind::Joint, LEFT, O_U) | (Kind::KeepL, LEFT, O_U) | (Kind::KeepLF, LEFT, O_U) | (Kind::KeepL, BOTH, O_U) | (Kind::KeepLF, BOTH, O_U) => Some(one(tl, pl, la)),
            (Kind::Joint, LEFT, _) | (Kind::KeepL, LEFT, _) | (Kind::KeepLF, LEFT, _) | (Kind::KeepL, BOTH, _) | (Kind::KeepLF, BOTH, _) => Some(one(tl, np, None)),
            (Kind::Joint, _, O_U) | (Kind::KeepR, RIGHT, O_U) | (Kind::KeepRF, RIGHT, O_U) | (Kind::KeepR, BOTH, O_U) | (Kind::KeepRF, BOTH, O_U) => Some(one(tr, pr, ra)),
            (Kind::Joint, _, _) | (Kind::KeepR, RIGHT, _) | (Kind::KeepRF, RIGHT, _) | (Kind::KeepR, BOTH, _) | (Kind::KeepRF, BOTH, _) => Some(one(tr, np, None)),
            (Kind::KeepL, _, _) | (Kind::KeepR, _, _) => Some(one(nt, np, None)),
            (Kind::KeepLF, _, _) => Some(one(tr, np, None)),
            (Kind::KeepRF, _, _) => Some(one(tl, np, None)),
        };
        if let Some(a) = alts {
            w.exp.insert(id, a);
        }
    }
    // whether an operation on nothing counts as a no-op is left open
    if ml.is_empty() { w.noop = false }
    w.calls.sort();
    w
}

/// The state of one running bulk operation, shared with its callbacks.
pub struct OpCtx {
    pub op: Op,
    pub kind: Kind,
    pub set: bool,
    pub calls: Vec<Call>,
    pub mute: bool,
}
#[derive(Clone, Copy)]
pub struct Cx(pub *mut OpCtx);
unsafe impl Send for Cx {}
unsafe impl Sync for Cx {}

impl Cx {
    /// One call of a user-supplied operation.
    pub fn call(self, side: u8, id: u32, tl: u32, pl: u64, tr: u32, pr: u64) -> (u8, u64, u32, crate::types::Red) {
        seam(Seam::Op);
        let _o = outside();
        let c = unsafe { &mut *self.0 };
        let call = Call { side, id, tl, pl, tr, pr };
        if !c.mute {
            event(contribution(&call));
        }
        c.calls.push(call);
        let o = outcome(&c.op, c.kind, c.set, side, id);
        (o, newp(c.op.seed, &call), newtag(c.op.seed, &call), crate::types::Red::new(1, contribution(&call)))
    }
}


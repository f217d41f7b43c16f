//! One simulated run: clients as coroutines, one scheduler, faults, oracles.
use crate::alloc;
use crate::coll;
use crate::scen::*;
use crate::sim::*;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Clone, Copy)]
pub struct Fns {
    pub open: fn(),
    pub close: fn(),
    pub verify: fn(),
    pub verify_all: fn(&str),
    pub init_reg: fn(&Init),
    pub simple: fn(&Op, bool),
    pub make_bulk: fn(&Op, bool) -> Pin<Box<dyn Future<Output = ()>>>,
    pub state_digest: fn() -> u64,
    pub lib_hash: fn(u32) -> u64,
    pub std_hashers: fn(u64) -> Result<(), String>,
}

static mut STACKS: Vec<DefaultStack> = Vec::new();
fn stack() -> DefaultStack {
    unsafe {
        let s = &raw mut STACKS;
        (*s).pop().unwrap_or_else(|| DefaultStack::new(8 << 20).expect("stack"))
    }
}
fn give_stack(x: DefaultStack) {
    unsafe {
        let s = &raw mut STACKS;
        (*s).push(x)
    }
}

fn is_bulk(o: &Op) -> bool {
    o.k >= K_TRANSFORM && o.k < K_MULTI
}

enum End {
    Done,
    Injected,
    Bug,
}
fn judge<T>(r: Result<T, Box<dyn std::any::Any + Send>>) -> (End, Option<T>) {
    match r {
        Ok(x) => (End::Done, Some(x)),
        Err(p) => {
            let inj = p.downcast_ref::<Injected>().is_some();
            drop(p);
            if inj {
                (End::Injected, None)
            } else {
                let c = sim().panic_cat;
                viol_cat(Class::Panic, c, &format!("the library panicked: {}", last_panic()));
                (End::Bug, None)
            }
        }
    }
}

fn arm(fk: u8, fat: u32) {
    let s = sim();
    let c = &mut s.cli[s.cur];
    c.armed = fk;
    c.at = fat;
}
fn disarm() {
    let s = sim();
    let c = &mut s.cli[s.cur];
    if c.armed != FK_NONE {
        s.st.armed_unfired += 1;
    }
    c.armed = FK_NONE;
    c.cancel = false;
}

/// false: the client crashed
fn exec_simple(f: &Fns, op: &Op) -> bool {
    arm(if op.fk == FK_CANCEL { FK_PANIC } else { op.fk }, op.fat);
    let (e, _) = judge(catch_unwind(AssertUnwindSafe(|| (f.simple)(op, false))));
    disarm();
    if let End::Injected = e {
        (f.verify_all)("after an injected panic");
        if op.fk == FK_CRASH {
            return false;
        }
        judge(catch_unwind(AssertUnwindSafe(|| (f.simple)(op, true))));
    }
    true
}

struct Task {
    op: Op,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    armed: u8,
    at: u32,
    pends: u32,
    opno: u32,
}

fn drop_future(t: &mut Task) {
    if let Some(x) = t.fut.take() {
        coll::discard(x);
    }
}

fn exec_group(f: &Fns, ops: &[Op], first: u32) -> bool {
    let mut ts: Vec<Task> = ops
        .iter()
        .enumerate()
        .map(|(i, op)| Task { op: op.clone(), fut: Some((f.make_bulk)(op, false)), armed: op.fk, at: op.fat, pends: 0, opno: first + i as u32 })
        .collect();
    let waker = coll::noop_waker();
    let mut cx = Context::from_waker(&waker);
    loop {
        let alive: Vec<usize> = (0..ts.len()).filter(|i| ts[*i].fut.is_some()).collect();
        if alive.is_empty() {
            return true;
        }
        let t = &mut ts[alive[choose(alive.len() as u32) as usize]];
        let cur = sim().cur;
        {
            let c = &mut sim().cli[cur];
            c.armed = t.armed;
            c.at = t.at;
            c.pends = t.pends;
            c.opno = t.opno;
            c.cancel = false;
        }
        let fut = t.fut.as_mut().unwrap();
        let (e, p) = judge(catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx))));
        let cancel;
        {
            let c = &mut sim().cli[cur];
            cancel = c.cancel;
            t.armed = c.armed;
            t.at = c.at;
            t.pends = c.pends;
            c.armed = FK_NONE;
            c.cancel = false;
        }
        match (e, p) {
            (End::Done, Some(Poll::Ready(()))) => {
                if t.armed != FK_NONE {
                    sim().st.armed_unfired += 1;
                }
                drop_future(t);
            }
            (End::Done, _) => {
                if cancel {
                    drop_future(t);
                    (f.verify_all)("after a cancellation");
                    let op = t.op.clone();
                    t.fut = Some((f.make_bulk)(&op, true));
                    t.armed = FK_NONE;
                    // the retry may be cancelled once more
                    if mix1(op.seed ^ 77) % 4 == 0 && t.op.fk == FK_CANCEL && t.opno < 1000 {
                        t.armed = FK_CANCEL;
                        t.at = (mix1(op.seed ^ 78) % 4) as u32;
                        t.opno += 1000;
                        sim().st.refaulted += 1;
                    }
                } else {
                    seam(Seam::Poll);
                }
            }
            (End::Injected, _) => {
                drop_future(t);
                (f.verify_all)("after an injected panic");
                if t.op.fk == FK_CRASH {
                    // the whole client dies: every operation it had in flight is abandoned
                    for t in ts.iter_mut() {
                        drop_future(t);
                    }
                    (f.verify_all)("after a client crash");
                    return false;
                }
                let op = t.op.clone();
                t.fut = Some((f.make_bulk)(&op, true));
                t.armed = FK_NONE;
            }
            (End::Bug, _) => drop_future(t),
        }
    }
}

fn client(f: &Fns, ops: &[Op], prop: u32) {
    let mut j = 0;
    while j < ops.len() {
        let (a, b) = if ops[j].k == K_MULTI { (j + 1, (j + 1 + ops[j].n as usize).min(ops.len())) } else { (j, j + 1) };
        {
            let s = sim();
            let c = &mut s.cli[s.cur];
            c.opno = a as u32;
            c.pends = 0;
            for o in &ops[a..b] {
                s.st.ops[o.k as usize % 24] += 1;
            }
        }
        seam(Seam::Start);
        let alive = if ops[a..b].iter().all(is_bulk) && a < b { exec_group(f, &ops[a..b], a as u32) } else { ops[a..b].iter().all(|o| exec_simple(f, o)) };
        if !alive {
            logline(|| format!("client {} crashed", sim().cur));
            break;
        }
        if prop == 13 {
            coll::check_held();
        }
        j = b;
    }
    while !coll::held().is_empty() {
        let x = coll::held().remove(0);
        x.check();
        coll::discard(x);
    }
    seam(Seam::Hold);
}

pub struct Outcome {
    pub digest: u64,
    pub swhash: u64,
    pub seams: u64,
    pub switches: u64,
    pub faults: u64,
    pub pends: u64,
}

pub fn run(sc: &Scenario, f: &Fns) -> Outcome {
    let s = sim();
    s.active = false;
    s.quiet = 0;
    s.nopre = 0;
    s.prop = sc.prop;
    s.run = sc.run;
    s.replay = sc.replay;
    s.rng = Rng(sc.rng);
    s.p_switch = sc.p_switch;
    s.p_pend = sc.p_pend;
    s.p_mem = sc.p_mem;
    s.seam_idx = 0;
    s.yield_idx = 0;
    s.choice_idx = 0;
    s.sp = 0;
    s.pp = 0;
    s.cp = 0;
    s.sched = if sc.replay { sc.sched.clone() } else { Vec::new() };
    s.pends = if sc.replay { sc.pends.clone() } else { Vec::new() };
    s.choices = if sc.replay { sc.choices.clone() } else { Vec::new() };
    s.cur = 0;
    s.cli = [CLI0; MAXC];
    s.runnable = [false; MAXC];
    s.yielder = [core::ptr::null(); MAXC];
    s.nclients = sc.clients.len().min(MAXC);
    s.htab = htab(sc);
    s.world = sc.world;
    s.live = [0; 5];
    s.evhash = sc.seed;
    s.swhash = 0;
    s.nswitch = 0;
    s.npend = 0;
    s.faults_fired = 0;
    s.foreign = 0;
    s.verify_every = 0;
    s.verify = None;
    unsafe {
        alloc::IN_LIB = false;
        alloc::LIVE_BLOCKS = 0;
        alloc::LIVE_BYTES = 0;
        alloc::OP_BYTES = i64::MAX;
        alloc::REUSE = sc.reuse;
    }
    cpu_limit(10 + sc.dom as i64 / 500);
    {
        let _q = quiet();
        let g: Vec<u64> = (0..sc.dom).map(|i| (f.lib_hash)(i)).collect();
        unsafe { coll::GH = g };
    }
    s.active = true;
    (f.open)();
    s.nopre += 1;
    for i in &sc.init {
        s.cli[0].opno = 900;
        judge(catch_unwind(AssertUnwindSafe(|| (f.init_reg)(i))));
    }
    s.nopre -= 1;
    if sc.prop == 14 {
        let r = catch_unwind(AssertUnwindSafe(|| (f.std_hashers)(sc.hseed)));
        s.panic_cat = Cat::MapPoint;
        if let (End::Done, Some(Err(t))) = judge(r) {
            viol_cat(Class::Panic, Cat::None, &format!("an ordinary hasher is unusable: {}", t));
        }
    }
    s.verify_every = sc.verify_every;
    s.verify = if sc.verify_every > 0 { Some(f.verify) } else { None };

    let n = s.nclients;
    let mut cos: Vec<Option<Coroutine<(), usize, ()>>> = Vec::new();
    for i in 0..n {
        let f2 = *f;
        let ops = sc.clients[i].clone();
        let prop = sc.prop;
        s.runnable[i] = true;
        cos.push(Some(Coroutine::with_stack(stack(), move |y: &Yielder<(), usize>, ()| {
            sim().yielder[i] = y as *const _;
            client(&f2, &ops, prop);
            sim().yielder[i] = core::ptr::null();
        })));
    }
    let mut cur = next_client();
    while let Some(c) = cur {
        s.cur = c;
        match cos[c].as_mut().unwrap().resume(()) {
            CoroutineResult::Yield(t) => cur = Some(t),
            CoroutineResult::Return(()) => {
                s.runnable[c] = false;
                give_stack(cos[c].take().unwrap().into_stack());
                cur = next_client();
            }
        }
    }
    s.cur = 0;
    s.nclients = 0;
    (f.verify_all)("at the end");
    let d = (f.state_digest)();
    s.verify_every = 0;
    s.verify = None;
    (f.close)();
    let names = ["KeyA", "KeyB", "ValA", "ValB", "reduction"];
    for k in 0..5 {
        if s.live[k] != 0 {
            let n = s.live[k];
            viol_cat(Class::Mem, Cat::Drop, &format!("{} {} objects {} after the last handle was dropped", n.abs(), names[k], if n > 0 { "were never dropped" } else { "were dropped too often" }));
        }
    }
    unsafe {
        let (b, y) = (alloc::LIVE_BLOCKS, alloc::LIVE_BYTES);
        if b != 0 {
            viol_cat(Class::Mem, Cat::Drop, &format!("{} blocks ({} bytes) allocated by the library were not returned after the last handle was dropped", b, y));
        }
    }
    if sc.reuse {
        unsafe { alloc::REUSE = false };
        alloc::flush_reuse();
    }
    if sc.run % 32 == 0 || sc.replay {
        alloc::flush_quarantine();
    }
    s.active = false;
    s.st.runs += 1;
    cpu_limit(0);
    Outcome { digest: mix(&[s.evhash, s.swhash, d, s.seam_idx, s.faults_fired, s.yield_idx]), swhash: s.swhash, seams: s.seam_idx, switches: s.nswitch, faults: s.faults_fired, pends: s.npend }
}

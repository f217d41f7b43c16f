// Version store, reference model and oracles, generic over the collection type. Included once per world.
pub use htcore::coll::*;
use crate::scen::*;
use crate::sim::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::rc::{Rc, Weak};

pub trait Coll: Clone + PartialEq + Sized + 'static {
    const SET: bool;
    const NAME: &'static str;
    fn store() -> &'static mut Store<Self>;
    fn new(alt: bool) -> Self;
    fn size(&self) -> usize;
    fn visit_raw(&self, f: &mut dyn FnMut(Ent));
    fn find_raw(&self, id: u32, alt: bool) -> Option<Ent>;
    fn insert_raw(&self, id: u32, tag: u32, p: u64, alt: bool, replace: bool) -> Result<(Self, Ent, Option<Ent>), Ent>;
    fn remove_raw(&self, id: u32, alt: bool) -> Option<(Self, Ent)>;
    /// Reads through remembered pointers without trusting them.
    unsafe fn peek(ka: usize, va: usize) -> Option<(u32, u32, u64)>;
}

pub struct Ver<C: Coll> {
    pub c: C,
    pub m: Rc<Model>,
    pub a: Rc<Addrs>,
    pub serial: u64,
    /// Built from an empty collection by insertions alone.
    pub pure: Cell<bool>,
}

pub struct Store<C: Coll> {
    pub regs: Vec<Rc<Ver<C>>>,
    pub vers: Vec<Weak<Ver<C>>>,
    pub answers: BTreeMap<(u64, u64), bool>,
}

impl<C: Coll> Store<C> {
    pub fn fresh() -> Self {
        let mut s = Store { regs: Vec::new(), vers: Vec::new(), answers: BTreeMap::new() };
        for _ in 0..NREG {
            let v = Rc::new(Ver { c: C::new(false), m: Rc::new(Model::new()), a: Rc::new(Addrs::new()), serial: next_serial(), pure: Cell::new(true) });
            s.vers.push(Rc::downgrade(&v));
            s.regs.push(v);
        }
        s
    }
}


// ---------------------------------------------------------------- oracles

pub fn readout<C: Coll>(c: &C) -> (usize, Vec<Ent>) {
    let _q = quiet();
    let mut v = Vec::new();
    c.visit_raw(&mut |e| v.push(e));
    v.sort_by_key(|e| e.id);
    (c.size(), v)
}

fn sample_ids(m: &Model, salt: u64) -> Vec<u32> {
    let dom = sim().htab.len() as u32;
    if dom <= 16 {
        return (0..dom).collect();
    }
    let mut v: Vec<u32> = Vec::new();
    let n = m.len().max(1) as u64;
    for i in 0..6 {
        v.push((mix(&[salt, i]) % dom as u64) as u32);
        if let Some(k) = m.keys().nth((mix(&[salt, i, 1]) % n) as usize) { v.push(*k) }
    }
    v
}

/// Lookups against what traversal said.
fn check_finds<C: Coll>(c: &C, ents: &[Ent], all: bool) -> Option<String> {
    let _q = quiet();
    let m: Model = ents.iter().map(|e| (e.id, (e.tag, e.p))).collect();
    let ids: Vec<u32> = if all { (0..sim().htab.len() as u32).collect() } else { sample_ids(&m, sim().seam_idx) };
    for id in ids {
        let f = c.find_raw(id, false);
        let e = ents.binary_search_by_key(&id, |e| e.id).ok().map(|i| ents[i]);
        if f != e {
            return Some(format!("{}: lookup of key {} says {:?}, traversal says {:?}", C::NAME, id, f, e));
        }
    }
    None
}

/// A version whose readings disagree with each other: they must at least stay the same when it is read again.
fn check_stable<C: Coll>(c: &C, what: &str) {
    let moved = {
        let _q = quiet();
        let ids: Vec<u32> = (0..sim().htab.len().min(512) as u32).collect();
        let ask = |id: &u32| (*id, c.find_raw(*id, false), c.find_raw(*id, true));
        let one: Vec<_> = ids.iter().map(ask).collect();
        let mut two: Vec<_> = ids.iter().rev().map(ask).collect();
        two.reverse();
        one.iter().zip(two.iter()).find(|(a, b)| a != b).map(|(a, b)| (a.0, a.1, b.1))
    };
    if let Some((id, a, b)) = moved {
        viol(Class::Isolation, &format!("{}: a held {} version answers differently when asked again for key {}: {:?}, then {:?}", what, C::NAME, id, a, b));
    }
}

/// An existing version must still be exactly what it was.
pub fn check_ver<C: Coll>(v: &Ver<C>, what: &str) {
    sim().st.vchecks += 1;
    let (n, ents) = readout(&v.c);
    let now: Vec<(u32, u32, u64, usize, usize)> = ents.iter().map(|e| (e.id, e.tag, e.p, e.ka, e.va)).collect();
    let was: Vec<(u32, u32, u64, usize, usize)> = v.m.iter().zip(v.a.iter()).map(|((id, (t, p)), (_, (ka, va)))| (*id, *t, *p, *ka, *va)).collect();
    if now != was {
        let d: Vec<String> = was.iter().filter(|x| !now.contains(x)).take(3).map(|x| format!("-{:?}", (x.0, x.1, x.2))).chain(now.iter().filter(|x| !was.contains(x)).take(3).map(|x| format!("+{:?}", (x.0, x.1, x.2)))).collect();
        viol(Class::Isolation, &format!("a held {} version changed ({}): {}", C::NAME, what, d.join(" ")));
        return;
    }
    if n != v.m.len() {
        viol(Class::Isolation, &format!("the size of a held {} version changed from {} to {} ({})", C::NAME, v.m.len(), n, what));
        return;
    }
    if let Some(t) = check_finds(&v.c, &ents, false) {
        viol(Class::Isolation, &format!("{} ({})", t, what));
    }
}

pub fn verify_store<C: Coll>(what: &str) {
    let st = C::store();
    st.vers.retain(|w| w.strong_count() > 0);
    let vs: Vec<Rc<Ver<C>>> = st.vers.iter().filter_map(|w| w.upgrade()).collect();
    for v in &vs {
        check_ver(v, what);
    }
    // dropping the temporary handles cannot be the last drop: whoever owned them still does
}

pub fn tick_regs<C: Coll>(h: &mut u64) {
    for v in &C::store().regs {
        for (id, (t, p)) in v.m.iter() {
            *h = mix1(*h ^ mix(&[*id as u64, *t as u64, *p]));
        }
        *h = mix1(*h ^ 0x77);
    }
}

/// Takes a handle of its own on the version in a register.
pub fn take<C: Coll>(r: u8) -> (Rc<Ver<C>>, C) {
    let v = C::store().regs[r as usize % NREG].clone();
    let h = {
        let _g = enter(Cat::Read, 1000, bytes());
        let h = v.c.clone();
        check_handle::<C>(v.m.len());
        h
    };
    let same = {
        let _q = quiet();
        h == v.c && v.c == h
    };
    if !same {
        viol_cat(Class::EqUnsound, Cat::Read, &format!("a cloned {} handle does not equal the handle it was cloned from", C::NAME));
    }
    (v, h)
}


pub fn set_reg<C: Coll>(r: u8, v: Rc<Ver<C>>) {
    let old = std::mem::replace(&mut C::store().regs[r as usize % NREG], v);
    discard(old);
}

/// Checks a new version against what it must contain. `None`: it is wrong and must not be used.
pub fn admit<C: Coll>(c: C, exp: &Exp, cat: Cat, retry: bool, what: &str) -> Option<Rc<Ver<C>>> {
    let (n, ents) = readout(&c);
    let mut bad: Option<String> = None;
    let mut inc: Option<String> = None;
    for w in ents.windows(2) {
        if w[0].id == w[1].id {
            inc = Some(format!("{}: traversal presents key {} more than once", what, w[0].id));
        }
    }
    if n != ents.len() && inc.is_none() {
        inc = Some(format!("{}: size is {} but traversal presents {} entries", what, n, ents.len()));
    }
    let mut i = 0;
    for (id, alts) in exp {
        while i < ents.len() && ents[i].id < *id {
            bad.get_or_insert(format!("{}: unexpected entry {:?}", what, (ents[i].id, ents[i].tag, ents[i].p)));
            i += 1;
        }
        if i >= ents.len() || ents[i].id != *id {
            bad.get_or_insert(format!("{}: key {} is missing, expected {:?}", what, id, alts.iter().map(|a| (a.tags, a.p)).collect::<Vec<_>>()));
            continue;
        }
        let e = ents[i];
        if !alts.iter().any(|a| (a.tags[0] == e.tag || a.tags[1] == e.tag) && a.p == e.p) {
            bad.get_or_insert(format!("{}: key {} holds (key tag {}, value {}), expected one of {:?}", what, id, e.tag, e.p, alts.iter().map(|a| (a.tags, a.p)).collect::<Vec<_>>()));
        }
        while i < ents.len() && ents[i].id == *id {
            i += 1;
        }
    }
    if i < ents.len() {
        bad.get_or_insert(format!("{}: unexpected entry {:?}", what, (ents[i].id, ents[i].tag, ents[i].p)));
    }
    if inc.is_none() {
        inc = check_finds(&c, &ents, true).map(|t| format!("{}: {}", what, t));
    }
    if let Some(t) = inc.as_ref().or(bad.as_ref()) {
        if retry {
            viol_cat(Class::Retry, cat, &format!("retry after a fault: {}", t));
        }
    }
    if let Some(t) = &inc {
        viol_cat(Class::Inconsistent, cat, t);
    }
    if let Some(t) = &bad {
        viol_cat(Class::Result, cat, t);
    }
    if inc.is_some() || bad.is_some() {
        check_stable(&c, what);
        discard(c);
        return None;
    }
    // sharing
    for e in &ents {
        let alts = &exp[&e.id];
        let m: Vec<&Alt> = alts.iter().filter(|a| a.p == e.p && (a.tags[0] == e.tag || a.tags[1] == e.tag)).collect();
        if m.iter().all(|a| a.addr.is_some()) && !m.iter().any(|a| a.addr == Some((e.ka, e.va))) {
            viol_cat(Class::Share, cat, &format!("{}: key {} was left alone but its entry is not the source's (it was copied)", what, e.id));
        }
    }
    let m: Model = ents.iter().map(|e| (e.id, (e.tag, e.p))).collect();
    let a: Addrs = ents.iter().map(|e| (e.id, (e.ka, e.va))).collect();
    let v = Rc::new(Ver { c, m: Rc::new(m), a: Rc::new(a), serial: next_serial(), pure: Cell::new(false) });
    C::store().vers.push(Rc::downgrade(&v));
    Some(v)
}

/// Equality between two live versions.
pub fn check_eq<C: Coll>(a: &Ver<C>, b: &Ver<C>) -> bool {
    let (r, r2) = {
        let _q = quiet();
        (a.c == b.c, b.c == a.c)
    };
    let cat = Cat::Read;
    if r != r2 {
        viol_cat(Class::EqUnsound, cat, &format!("equality of {} versions is not symmetric", C::NAME));
    }
    if r && a.m != b.m {
        viol_cat(Class::EqUnsound, cat, &format!("{} versions with different entries compare equal", C::NAME));
    }
    if a.serial == b.serial && !r {
        viol_cat(Class::EqUnsound, cat, &format!("a {} version does not equal itself", C::NAME));
    }
    let k = (a.serial.min(b.serial), a.serial.max(b.serial));
    let st = C::store();
    if let Some(old) = st.answers.insert(k, r) {
        if old != r {
            viol_cat(Class::EqUnsound, cat, &format!("comparing the same two {} versions gave {} before and {} now", C::NAME, old, r));
        }
    }
    r
}

pub fn eq_matrix<C: Coll>(v: &Ver<C>) {
    let st = C::store();
    let vs: Vec<Rc<Ver<C>>> = st.vers.iter().rev().filter_map(|w| w.upgrade()).take(8).collect();
    let r: Vec<bool> = vs.iter().map(|w| check_eq(v, w)).collect();
    for i in 0..vs.len() {
        for j in 0..i {
            if r[i] && r[j] && !check_eq(&vs[i], &vs[j]) {
                viol_cat(Class::EqUnsound, Cat::Read, &format!("equality of {} versions is not transitive", C::NAME));
            }
            if r[i] != r[j] && check_eq(&vs[i], &vs[j]) {
                viol_cat(Class::EqUnsound, Cat::Read, &format!("equality of {} versions is not transitive", C::NAME));
            }
        }
    }
}


pub struct Held<C: Coll> {
    pub h: C,
    pub v: Rc<Ver<C>>,
    pub e: Ent,
    pub what: &'static str,
}
impl<C: Coll> HeldT for Held<C> {
    fn check(&self) {
        let _ = (&self.h, &self.v);
        match unsafe { C::peek(self.e.ka, self.e.va) } {
            Some(x) if x == (self.e.id, self.e.tag, self.e.p) => {}
            x => viol_cat(Class::Refs, Cat::Read, &format!("{}: a reference into a held {} version now reads {:?} instead of {:?}", self.what, C::NAME, x, (self.e.id, self.e.tag, self.e.p))),
        }
    }
}

pub fn hold<C: Coll>(h: C, v: Rc<Ver<C>>, e: Ent, what: &'static str) {
    let b: Box<dyn HeldT> = Box::new(Held { h, v, e, what });
    b.check();
    held().push(b);
    if held().len() > 6 {
        let x = held().remove(0);
        x.check();
        discard(x);
    }
}

// ---------------------------------------------------------------- point operations

pub fn pcat<C: Coll>() -> Cat {
    if C::SET { Cat::SetPoint } else { Cat::MapPoint }
}

fn group_size(m: &Model, id: u32) -> usize {
    let g = ghash(id);
    m.keys().filter(|k| ghash(**k) == g).count()
}

fn keep_alts(m: &Model, a: &Addrs, except: u32) -> Exp {
    let g = ghash(except);
    m.iter()
        .filter(|(id, _)| **id != except)
        .map(|(id, (t, p))| (*id, vec![Alt { tags: [*t, *t], p: *p, addr: if ghash(*id) != g { Some(a[id]) } else { None } }]))
        .collect()
}

fn ent_of<C: Coll>(v: &Ver<C>, id: u32) -> Option<Ent> {
    v.m.get(&id).map(|(t, p)| {
        let (ka, va) = v.a[&id];
        Ent { id, tag: *t, p: *p, ka, va }
    })
}

/// Compares what the library returned about one entry with the version's entry.
fn check_ent<C: Coll>(got: Option<Ent>, want: Option<Ent>, retry: bool, what: &str) -> bool {
    let key = |e: Option<Ent>| e.map(|e| (e.id, e.tag, e.p));
    if key(got) != key(want) {
        let t = format!("{} {} returned {:?}, expected {:?}", C::NAME, what, key(got), key(want));
        // a reference to a wrong entry is also a wrong reference
        viol_cat(Class::Refs, pcat::<C>(), &t);
        wrong::<C>(retry, t);
        return false;
    }
    if got != want {
        viol_cat(Class::Refs, pcat::<C>(), &format!("{} {} returned references that do not point into the version it was asked of", C::NAME, what));
        return false;
    }
    true
}

pub fn point_op<C: Coll>(op: &Op, retry: bool) {
    let (v, h) = take::<C>(op.s1);
    let id = op.n;
    let alt = op.f & F_ALT != 0;
    let replace = op.f & F_REPLACE != 0;
    let g = group_size(&v.m, id);
    let budget = cb_budget(0, 0, g + 4);
    let have = ent_of(&v, id);
    logline(|| format!("client {} op {}: {} {} key {} (register {}, {} entries, hash group {}){}", sim().cur, sim().cli[sim().cur].opno, KNAMES[op.k as usize], C::NAME, id, op.s1, v.m.len(), g, if retry { " [retry]" } else { "" }));
    let cur = sim().cur;
    match op.k {
        K_FIND if op.f & F_FLICK != 0 => flicker(op, &v, &h),
        K_FIND => {
            let r = {
                let _g = enter(pcat::<C>(), budget, bytes());
                let r = h.find_raw(id, alt);
                check_cost::<C>("lookup", &v.m, id, v.pure.get());
                r
            };
            if check_ent::<C>(r, have, retry, "lookup") && op.f & F_HOLD != 0 {
                if let Some(e) = r {
                    hold(h, v, e, "lookup");
                    return;
                }
            }
        }
        K_INSERT => {
            let tag = mix(&[op.seed, 1]) as u32;
            let p = if C::SET { 0 } else { mix(&[op.seed, 2]) };
            let r = {
                let _g = enter(pcat::<C>(), budget, bytes());
                let r = h.insert_raw(id, tag, p, alt, replace);
                check_cost::<C>("insertion", &v.m, id, v.pure.get());
                check_clones::<C>(sim().cli[cur].clones, &v.m, id, g, Some(p), "insertion");
                r
            };
            match r {
                Err(e) => {
                    if have.is_none() || replace {
                        wrong::<C>(retry, format!("{} insertion of key {} was refused although the key is {}", C::NAME, id, if have.is_none() { "absent" } else { "to be replaced" }));
                    } else if check_ent::<C>(Some(e), have, retry, "failed insertion") && op.f & F_HOLD != 0 {
                        hold(h, v, e, "failed insertion");
                        return;
                    }
                }
                Ok((c, pe, prev)) => {
                    if have.is_some() && !replace {
                        wrong::<C>(retry, format!("{} insertion of present key {} without replacement was not refused", C::NAME, id));
                        discard(c);
                    } else {
                        let ok = check_ent::<C>(prev, have, retry, "replacing insertion");
                        let mut exp = keep_alts(&v.m, &v.a, id);
                        exp.insert(id, vec![Alt { tags: [tag, tag], p, addr: None }]);
                        if let Some(n) = admit(c, &exp, pcat::<C>(), retry, "insertion") {
                            n.pure.set(v.pure.get());
                            let e2 = ent_of(&n, id).unwrap();
                            if pe != e2 {
                                viol_cat(Class::Refs, pcat::<C>(), &format!("{} insertion returned pointers to {:?}, the new version holds {:?}", C::NAME, (pe.id, pe.tag, pe.p), (e2.id, e2.tag, e2.p)));
                            } else if op.f & F_HOLD != 0 {
                                let h2 = { let _g = enter(Cat::Read, 1000, bytes()); n.c.clone() };
                                hold(h2, n.clone(), pe, "insertion pointer");
                            }
                            after::<C>(op, &[&v], n);
                            if let (true, Some(e), true) = (ok, prev, op.f & F_HOLD != 0) {
                                hold(h, v, e, "replaced entry");
                                return;
                            }
                        }
                    }
                }
            }
        }
        _ => {
            let r = {
                let _g = enter(pcat::<C>(), budget, bytes());
                let r = h.remove_raw(id, alt);
                check_cost::<C>("removal", &v.m, id, v.pure.get());
                check_clones::<C>(sim().cli[cur].clones, &v.m, id, g, None, "removal");
                r
            };
            match r {
                None => {
                    if have.is_some() {
                        wrong::<C>(retry, format!("{} removal of present key {} says it is absent", C::NAME, id));
                    }
                }
                Some((c, e)) => {
                    if have.is_none() {
                        wrong::<C>(retry, format!("{} removal of absent key {} says it was removed", C::NAME, id));
                        discard(c);
                    } else {
                        let ok = check_ent::<C>(Some(e), have, retry, "removal");
                        let exp = keep_alts(&v.m, &v.a, id);
                        if let Some(n) = admit(c, &exp, pcat::<C>(), retry, "removal") {
                            after::<C>(op, &[&v], n);
                            if ok && op.f & F_HOLD != 0 {
                                hold(h, v, e, "removed entry");
                                return;
                            }
                        }
                    }
                }
            }
        }
    }
    discard(h);
    discard(v);
}

/// Versions that live for a moment only, so that nodes of one come to lie where those of the last one lay.
fn flicker<C: Coll>(op: &Op, v: &Rc<Ver<C>>, h: &C) {
    let dom = sim().htab.len() as u64;
    let pick = |i: u64| -> u32 {
        let s = mix(&[op.seed, 31, i]);
        if s % 3 == 0 || v.m.is_empty() { return (s / 3 % dom) as u32 }
        *v.m.keys().nth((s / 3 % v.m.len() as u64) as usize).unwrap()
    };
    let (x, y) = (op.n, pick(0));
    let n = v.m.len();
    let g = group_size(&v.m, x).max(group_size(&v.m, y));
    let budget = cb_budget(0, 0, g + 4);
    for i in 1..7u64 {
        let k = [x, y, pick(i)][(mix(&[op.seed, 32, i]) % 3) as usize];
        let tag = mix(&[op.seed, 33, i]) as u32;
        let p = if C::SET { 0 } else { mix(&[op.seed, 34, i]) };
        let put = mix(&[op.seed, 35, i]) % 3 == 0;
        let c = {
            let _g = enter(pcat::<C>(), budget.max(cb_budget(0, 0, group_size(&v.m, k) + 4)), bytes());
            if put { h.insert_raw(k, tag, p, false, true).ok().map(|r| r.0) } else { h.remove_raw(k, false).map(|r| r.0) }
        };
        let had = v.m.get(&k).copied();
        let c = match c {
            None => {
                if put || had.is_some() { wrong::<C>(false, format!("{} {} of key {} had no effect", C::NAME, if put { "insertion" } else { "removal" }, k)) }
                continue;
            }
            Some(_) if !put && had.is_none() => {
                wrong::<C>(false, format!("{} removal of absent key {} says it was removed", C::NAME, k));
                discard(c);
                continue;
            }
            Some(c) => c,
        };
        let mut bad = None;
        for q in [x, y, k] {
            let f = {
                let _g = enter(pcat::<C>(), budget.max(cb_budget(0, 0, group_size(&v.m, q) + 4)), bytes());
                c.find_raw(q, false)
            };
            let want = if q == k { put.then_some((tag, p)) } else { v.m.get(&q).copied() };
            if f.map(|e| (e.tag, e.p)) != want {
                bad = Some(format!("{} version after {} of key {}: lookup of key {} gives {:?} instead of {:?}", C::NAME, if put { "insertion" } else { "removal" }, k, q, f, want));
                break;
            }
        }
        let size = if put { n + had.is_none() as usize } else { n - 1 };
        let (m, same) = { let _q = quiet(); (c.size(), c == *h) };
        if m != size {
            viol_cat(Class::Inconsistent, pcat::<C>(), &format!("{} version after {} of key {}: size {} instead of {}", C::NAME, if put { "insertion" } else { "removal" }, k, m, size));
        }
        if same && !(C::SET && had.is_some() && put) {
            viol_cat(Class::EqUnsound, pcat::<C>(), &format!("{} version after {} of key {} equals its source", C::NAME, if put { "insertion" } else { "removal" }, k));
        }
        if let Some(t) = bad {
            viol_cat(Class::Inconsistent, pcat::<C>(), &t);
            check_stable(&c, "flicker");
        }
        discard(c);
        let f = {
            let _g = enter(pcat::<C>(), budget, bytes());
            h.find_raw(x, false)
        };
        check_ent::<C>(f, ent_of(v, x), false, "lookup");
    }
}

fn wrong<C: Coll>(retry: bool, t: String) {
    if retry {
        viol_cat(Class::Retry, pcat::<C>(), &format!("retry after a fault: {}", t));
    }
    viol_cat(Class::Result, pcat::<C>(), &t);
}

fn check_handle<C: Coll>(n: usize) {
    let _o = outside();
    let c = sim().cli[sim().cur];
    if c.blocks > 0 || c.cb > 0 {
        viol_cat(Class::Cost, pcat::<C>(), &format!("cloning a {} handle on {} entries allocated {} blocks and called user code {} times", C::NAME, n, c.blocks, c.cb));
    }
}

/// What a point operation may cost: its path and the keys with equal hashes, never the size of the collection.
fn check_cost<C: Coll>(what: &str, m: &Model, id: u32, pure: bool) {
    let used = bytes() - unsafe { htcore::alloc::OP_BYTES };
    let _o = outside();
    if sim().quiet > 0 { return }
    let c = sim().cli[sim().cur];
    let w = WORLDS[sim().world as usize];
    let all = full_levels();
    let h = ghash(id);
    let (mut lv, mut g) = (1, 0);
    for k in m.keys() {
        let x = ghash(*k);
        if x == h { g += 1 }
        if *k != id { lv = lv.max(if x == h { all + 1 } else { ((x ^ h).trailing_zeros() / w.1) as u64 + 2 }) }
    }
    // removals and bulk operations may leave a longer path behind
    if !pure || w.0 < full_bits() { lv = all + 1 }
    let mut groups: BTreeMap<u64, u64> = BTreeMap::new();
    if c.eqs > 8 || c.hashes > 4 {
        for k in m.keys() { *groups.entry(ghash(*k)).or_default() += 1 }
    }
    let gm = groups.values().max().copied().unwrap_or(0);
    let bad = |t: String| viol_cat(Class::Cost, pcat::<C>(), &format!("{} {} of key {} among {} entries ({} with its hash): {}", C::NAME, what, id, m.len(), g, t));
    let find = what == "lookup";
    let (hs, es) = if find { (4 + gm, 2 * gm + 8) } else { (8 + 2 * gm, 4 * gm + 8) };
    if c.hashes > hs { bad(format!("{} keys were hashed", c.hashes)) }
    if c.eqs > es { bad(format!("{} keys were compared, but no more than {} have the same hash", c.eqs, gm)) }
    let (bl, by) = if find { (0, 0) } else { (6 * (lv + 2) + 4 * g + 8, ((lv + 2) * (256 << w.1) + 1024 * (g + 2)) as i64) };
    if c.blocks > bl { bad(format!("{} blocks of memory were allocated on a path of at most {} nodes", c.blocks, lv)) }
    if used > by { bad(format!("{} bytes of memory were allocated on a path of at most {} nodes", used, lv)) }
}

/// The clones of an insertion or removal (called before leaving the library's guard): all of entries with the key's hash.
fn check_clones<C: Coll>(clones: u64, m: &Model, id: u32, g: usize, p: Option<u64>, what: &str) {
    let _o = outside();
    let bad = |t: String| viol_cat(Class::Share, pcat::<C>(), &format!("{} {} of key {} {}", C::NAME, what, id, t));
    if clones > 4 * g as u64 + 2 {
        bad(format!("cloned {} keys and values although only {} entries have that hash", clones, g));
    }
    if cloned().is_empty() { return }
    let h = ghash(id);
    for (i, &(key, x)) in cloned().iter().enumerate() {
        if key {
            if (x as usize) < sim().htab.len() && ghash(x as u32) != h { bad(format!("cloned key {}, which has another hash", x)) }
        } else if (i < 16 || m.len() < 500) && p != Some(x) && m.iter().any(|(k, (_, q))| *q == x && ghash(*k) != h) && !m.iter().any(|(k, (_, q))| *q == x && ghash(*k) == h) {
            bad("cloned the value of an entry whose key has another hash".to_string());
        }
    }
}

/// Publishes an admitted version and compares it with its sources.
pub fn after<C: Coll>(op: &Op, srcs: &[&Rc<Ver<C>>], n: Rc<Ver<C>>) {
    for s in srcs {
        check_eq::<C>(&n, s);
    }
    let s = sim();
    if s.prop == 11 || mix1(op.seed ^ 5) % 16 == 0 {
        eq_matrix::<C>(&n);
    }
    set_reg(op.d, n);
}

pub fn simple_op<C: Coll>(op: &Op, retry: bool) {
    let cur = sim().cur;
    match op.k {
        K_INSERT | K_REMOVE | K_FIND => point_op::<C>(op, retry),
        K_VISIT => {
            let (v, h) = take::<C>(op.s1);
            logline(|| format!("client {} op {}: visit {} ({} entries)", cur, sim().cli[cur].opno, C::NAME, v.m.len()));
            let mut seen = Vec::new();
            {
                let _g = enter(Cat::Read, cb_budget(v.m.len(), 0, 0), bytes());
                h.visit_raw(&mut |e| {
                    seam(Seam::Visit);
                    let _o = outside();
                    seen.push(e)
                });
            }
            seen.sort_by_key(|e| e.id);
            let want: Vec<Ent> = v.m.keys().map(|id| ent_of(&v, *id).unwrap()).collect();
            if seen != want {
                if retry { viol_cat(Class::Retry, Cat::Read, "retried traversal is wrong") }
                viol_cat(Class::Inconsistent, Cat::Read, &format!("{} traversal presented {} entries that are not exactly the version's {}", C::NAME, seen.len(), want.len()));
            }
            discard(h);
            discard(v);
        }
        K_CLONE => {
            let v = C::store().regs[op.s1 as usize % NREG].clone();
            logline(|| format!("client {} op {}: copy {} register {} to {}", cur, sim().cli[cur].opno, C::NAME, op.s1, op.d));
            let c = {
                let _g = enter(Cat::Read, 1000, bytes());
                let h = v.c.clone();
                check_handle::<C>(v.m.len());
                h
            };
            let n = Rc::new(Ver { c, m: v.m.clone(), a: v.a.clone(), serial: v.serial, pure: v.pure.clone() });
            C::store().vers.push(Rc::downgrade(&n));
            check_eq(&n, &v);
            set_reg(op.d, n);
            discard(v);
        }
        K_CLEAR => {
            logline(|| format!("client {} op {}: clear {} register {}", cur, sim().cli[cur].opno, C::NAME, op.d));
            let c = {
                let _g = enter(Cat::Read, 1000, bytes());
                C::new(op.f & F_ALT != 0)
            };
            if let Some(n) = admit(c, &Exp::new(), Cat::Read, retry, "new") {
                set_reg(op.d, n);
            }
        }
        K_FILL => fill::<C>(op.s1, op.d, op.seed, op.n),
        K_DRAIN => drain::<C>(op.s1, op.d, op.seed, op.n),
        K_EQ => {
            let (v, h) = take::<C>(op.s1);
            let w = C::store().regs[op.s2 as usize % NREG].clone();
            check_eq(&v, &w);
            eq_matrix::<C>(&v);
            discard(h);
            discard(w);
            discard(v);
        }
        K_HOLD => {
            let (v, h) = take::<C>(op.s1);
            if v.m.is_empty() {
                discard(h);
                discard(v);
                return;
            }
            let id = *v.m.keys().nth((op.seed % v.m.len() as u64) as usize).unwrap();
            let r = {
                let _g = enter(pcat::<C>(), 10_000_000, bytes());
                h.find_raw(id, false)
            };
            if check_ent::<C>(r, ent_of(&v, id), retry, "lookup") {
                hold(h, v, r.unwrap(), "lookup");
            }
        }
        _ => {
            if !held().is_empty() {
                let x = held().remove(0);
                x.check();
                discard(x);
            }
        }
    }
}

/// Which keys a series of insertions or removals draws from: any, some hash groups, one hash group, all but one.
fn eligible(mode: u32, seed: u64, ids: Vec<u32>) -> Vec<u32> {
    if ids.is_empty() { return ids }
    let g = ghash(ids[(mix(&[seed, 98]) % ids.len() as u64) as usize]);
    let r: Vec<u32> = ids
        .iter()
        .copied()
        .filter(|id| match mode {
            1 => mix(&[seed, 99, ghash(*id)]) % 2 == 0,
            2 => ghash(*id) == g,
            3 => ghash(*id) != g,
            _ => true,
        })
        .collect();
    if r.is_empty() { ids } else { r }
}

pub fn fill<C: Coll>(src: u8, dst: u8, seed: u64, n: u32) {
    let (v, mut h) = take::<C>(src);
    logline(|| format!("client {} op {}: fill {} with {} keys", sim().cur, sim().cli[sim().cur].opno, C::NAME, n & 0xffff));
    let mut m: Model = (*v.m).clone();
    let mut ids: Vec<u32> = (0..sim().htab.len() as u32).collect();
    let share = n >> 16 == 4;
    if share { ids.retain(|id| mix(&[seed, 97, *id as u64]) % 100 < n as u64 & 0xffff) } else { ids = eligible(n >> 16, seed, ids) }
    let count = if share { ids.len() as u64 } else { n as u64 & 0xffff };
    for i in 0..count {
        let id = if share { ids[i as usize] } else { ids[(mix(&[seed, i]) % ids.len() as u64) as usize] };
        let tag = mix(&[seed, i, 1]) as u32;
        let p = if C::SET { 0 } else { mix(&[seed, i, 2]) };
        let r = {
            let _g = enter(pcat::<C>(), 1_000_000, bytes());
            let r = h.insert_raw(id, tag, p, false, true);
            if i % (1 + m.len() as u64 / 64) == 0 { check_cost::<C>("insertion", &m, id, v.pure.get()) }
            r
        };
        match r {
            Ok((c, _, _)) => {
                m.insert(id, (tag, p));
                let old = std::mem::replace(&mut h, c);
                discard(old);
            }
            Err(_) => {
                viol_cat(Class::Result, pcat::<C>(), "a replacing insertion was refused");
            }
        }
    }
    let exp: Exp = m.iter().map(|(id, (t, p))| (*id, vec![Alt { tags: [*t, *t], p: *p, addr: None }])).collect();
    if let Some(n) = admit(h, &exp, pcat::<C>(), false, "a series of insertions") {
        n.pure.set(v.pure.get());
        set_reg(dst, n);
    }
    discard(v);
}

pub fn drain<C: Coll>(src: u8, dst: u8, seed: u64, n: u32) {
    let (v, mut h) = take::<C>(src);
    logline(|| format!("client {} op {}: remove {} keys from {}", sim().cur, sim().cli[sim().cur].opno, n & 0xffff, C::NAME));
    let mut m: Model = (*v.m).clone();
    let mut ids = eligible(n >> 16, seed, m.keys().copied().collect());
    for i in 0..n as u64 & 0xffff {
        if ids.is_empty() { break }
        let id = ids.swap_remove((mix(&[seed, i]) % ids.len() as u64) as usize);
        let r = {
            let _g = enter(pcat::<C>(), 1_000_000, bytes());
            h.remove_raw(id, false)
        };
        match r {
            Some((c, _)) => {
                m.remove(&id);
                let old = std::mem::replace(&mut h, c);
                discard(old);
            }
            None => {
                viol_cat(Class::Result, pcat::<C>(), "a removal says a present key is absent");
                m.remove(&id);
            }
        }
    }
    let exp: Exp = m.iter().map(|(id, (t, p))| (*id, vec![Alt { tags: [*t, *t], p: *p, addr: None }])).collect();
    if let Some(n) = admit(h, &exp, pcat::<C>(), false, "a series of removals") {
        set_reg(dst, n);
    }
    discard(v);
}


/// Checks everything observable about a finished bulk operation.
#[allow(clippy::too_many_arguments)]
pub fn finish<C: Coll>(op: &Op, cat: Cat, retry: bool, w: &Want, cx: &mut OpCtx, c: C, red: (u64, u64), what: &'static str) -> Option<Rc<Ver<C>>> {
    let mut calls = std::mem::take(&mut cx.calls);
    calls.sort();
    let mut redbad = None;
    if calls != w.calls {
        let extra: Vec<&Call> = calls.iter().filter(|x| w.calls.binary_search(x).is_err()).take(2).collect();
        let miss: Vec<&Call> = w.calls.iter().filter(|x| calls.binary_search(x).is_err()).take(2).collect();
        redbad = Some(format!("{}: the operation was called {} times, expected {} (unexpected {:?}, missing {:?})", what, calls.len(), w.calls.len(), extra, miss));
    } else if red != w.red {
        redbad = Some(format!("{}: the reduction combines {} contributions (digest {:x}), expected {} (digest {:x})", what, red.0, red.1, w.red.0, w.red.1));
    }
    if let Some(t) = redbad {
        if retry {
            viol_cat(Class::Retry, cat, &format!("retry after a fault: {}", t));
        }
        viol_cat(Class::Reduce, cat, &t);
    }
    let _ = op;
    admit(c, &w.exp, cat, retry, what)
}

/// The solitary sequential run of the same operation must give the same result.
pub fn compare_solo<C: Coll>(cat: Cat, w: &Want, got: &C, red: (u64, u64), solo: Option<(C, (u64, u64))>, what: &'static str) {
    let Some((c2, r2)) = solo else {
        viol_cat(Class::Strategy, cat, &format!("{}: the solitary sequential run does not complete", what));
        return;
    };
    let (n1, e1) = readout(got);
    let (n2, e2) = readout(&c2);
    let k = |v: &[Ent]| -> Vec<(u32, u64)> { v.iter().map(|e| (e.id, if w.ambiguous && w.exp.get(&e.id).map_or(false, |a| a.len() > 1) { 0 } else { e.p })).collect() };
    if n1 != n2 || k(&e1) != k(&e2) {
        viol_cat(Class::Strategy, cat, &format!("{}: contents ({} entries, size {}) differ from the solitary sequential run's ({} entries, size {})", what, e1.len(), n1, e2.len(), n2));
    }
    if red != r2 {
        viol_cat(Class::Strategy, cat, &format!("{}: reduction {:?} differs from the solitary sequential run's {:?}", what, red, r2));
    }
    let _q = quiet();
    drop(c2);
}

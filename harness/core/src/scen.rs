//! Scenarios: generation from a seed, and the text form used in replay files.
use crate::sim::{mix, Rng, FK_CANCEL, FK_CRASH, FK_NONE, FK_PANIC};

pub const K_INSERT: u8 = 0;
pub const K_REMOVE: u8 = 1;
pub const K_FIND: u8 = 2;
pub const K_VISIT: u8 = 3;
pub const K_CLONE: u8 = 4;
pub const K_CLEAR: u8 = 5;
pub const K_FILL: u8 = 6;
pub const K_DRAIN: u8 = 7;
pub const K_EQ: u8 = 8;
pub const K_HOLD: u8 = 9;
pub const K_UNHOLD: u8 = 10;
pub const K_TRANSFORM: u8 = 11;
pub const K_TRANSMUTE: u8 = 12;
pub const K_JOINT: u8 = 13;
pub const K_TWTM: u8 = 14;
pub const K_TMWT: u8 = 15;
pub const K_TWTF: u8 = 16;
pub const K_TFWT: u8 = 17;
pub const K_TMTM: u8 = 18;
pub const K_MULTI: u8 = 19;
pub const NK: usize = 20;
pub const KNAMES: [&str; NK] = [
    "insert", "remove", "find", "visit", "clone", "clear", "fill", "drain", "eq", "hold", "unhold", "transform", "transmute",
    "transform_with_transformed", "transform_with_transmuted", "transmute_with_transformed", "transform_with_transfuted",
    "transfute_with_transformed", "transmute_with_transmuted", "multi",
];

// collection types
pub const TY_MA: u8 = 0;
pub const TY_MB: u8 = 1;
pub const TY_MC: u8 = 2;
pub const TY_SA: u8 = 3;
pub const TY_SB: u8 = 4;

// flags
pub const F_ALT: u32 = 1;
pub const F_REPLACE: u32 = 2;
pub const F_PAR: u32 = 4;
pub const F_CMP: u32 = 8;
pub const F_HOLD: u32 = 16;
/// A lookup that is made on versions which live for a moment only.
pub const F_FLICK: u32 = 32;

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Op {
    pub k: u8,
    pub t: u8,
    pub s1: u8,
    pub s2: u8,
    pub d: u8,
    pub f: u32,
    pub n: u32,
    pub cb: u8,
    pub cl: u8,
    pub cr: u8,
    pub prof: u8,
    pub seed: u64,
    pub fk: u8,
    pub fat: u32,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Init {
    pub t: u8,
    pub r: u8,
    pub seed: u64,
    pub n: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Scenario {
    pub prop: u32,
    pub seed: u64,
    pub run: u64,
    pub world: u8,
    pub dom: u32,
    pub hmode: u8,
    pub hseed: u64,
    pub p_switch: u32,
    pub p_pend: u32,
    pub p_mem: u32,
    pub reuse: bool,
    pub pre: Vec<u64>,
    pub big: bool,
    pub verify_every: u64,
    pub rng: u64,
    pub init: Vec<Init>,
    pub clients: Vec<Vec<Op>>,
    pub sched: Vec<(u64, u8)>,
    pub pends: Vec<u64>,
    pub choices: Vec<(u64, u32)>,
    pub replay: bool,
    pub expect: String,
}

pub const NREG: usize = 3;
pub const NWORLD: u8 = 7;
/// (hash bits, flag bits per level)
pub const WORLDS: [(u32, u32, &str); 7] = [(64, 5, "u64 hash/u32 flag"), (8, 3, "u8 hash/u8 flag"), (16, 6, "u16 hash/u64 flag"), (32, 4, "u32 hash/u16 flag"), (64, 7, "u128 hash/u128 flag"), (64, 3, "u64 hash/u8 flag"), (64, 6, "usize hash/usize flag")];
pub const NHMODE: u8 = 14;

/// The hash of every key of the domain.
pub fn htab(sc: &Scenario) -> Vec<u64> {
    let (bits, lb, _) = WORLDS[sc.world as usize];
    let mut r = Rng(sc.hseed);
    let last = if bits % lb == 0 { lb } else { bits % lb }; // bits in the last level
    let a = r.next();
    let b = r.next();
    (0..sc.dom)
        .map(|id| {
            let x = mix(&[sc.hseed, id as u64]);
            let low = |v: u64, n: u32| if n >= 64 { v } else { v & ((1u64 << n) - 1) };
            match sc.hmode {
                0 => x,
                1 => id as u64,
                2 => a,                                                                  // total collision
                3 => mix(&[sc.hseed, x % 4]),                                            // four buckets
                4 => low(a, bits - last) | (x << (bits - last)),                         // differ at the last level only
                5 => if x % 3 == 0 { low(a, bits - last) | ((x >> 8) << (bits - last)) } else { x >> 3 },
                6 => (id as u64 % (1 << lb)) | if x % 8 == 0 { x << lb & 0xff00 } else { 0 }, // one wide node
                7 => low(a, bits / 2) | (x << (bits / 2)),                               // long shared prefix
                8 => mix(&[sc.hseed, x % (sc.dom as u64 / 3).max(1)]),                   // small groups
                9 => {
                    // a few long-prefix families of small groups
                    let fam = if x % 2 == 0 { a } else { b };
                    let g = mix(&[sc.hseed, 7, (x >> 8) % 5]);
                    low(fam, bits - last) | (g << (bits - last))
                }
                12 => {
                    // two to four groups whose hashes part at one of the levels
                    let k = 2 + (sc.hseed >> 40) % 3;
                    let j = id as u64 % k;
                    let d = ((sc.hseed >> 20) % (bits.div_ceil(lb)) as u64) as u32 * lb;
                    low(a, d) | if d < 64 { (mix(&[sc.hseed, 3, j]) ^ j) << d } else { 0 }
                }
                13 => {
                    // words at the edges: all ones or zeros, one bit set or clear, small, large, halves
                    let top = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
                    let one = 1u64 << ((x >> 8) % bits.min(64) as u64);
                    match x % 10 {
                        0 => 0,
                        1 => top,
                        2 | 3 => one,
                        4 => top & !one,
                        5 => one - 1,
                        6 => top & !(one - 1),
                        7 => top / 2 + (x >> 16) % 3,
                        8 => top - (x >> 16) % 3,
                        _ => (x >> 16) % 3,
                    }
                }
                10 => if x % 2 == 0 { a } else { x >> 5 },                               // one big group among strays
                _ => low(a, lb * ((x >> 4) % (bits / lb + 1) as u64) as u32) | (x.rotate_left(17) << (lb * ((x >> 4) % (bits / lb + 1) as u64) as u32).min(63)),
            }
        })
        .collect()
}

fn bulk_kinds(prop: u32) -> &'static [(u8, u32)] {
    match prop {
        5 => &[(K_TRANSFORM, 60), (K_TRANSMUTE, 40)],
        6 => &[(K_JOINT, 100)],
        7 => &[(K_TWTM, 20), (K_TMWT, 20), (K_TWTF, 20), (K_TFWT, 20), (K_TMTM, 20)],
        11 => &[(K_TRANSFORM, 60), (K_JOINT, 20), (K_TWTM, 10), (K_TMWT, 10)],
        15 => &[(K_TRANSFORM, 25), (K_JOINT, 25), (K_TWTM, 12), (K_TMWT, 13), (K_TWTF, 12), (K_TFWT, 13)],
        _ => &[(K_TRANSFORM, 16), (K_TRANSMUTE, 10), (K_JOINT, 24), (K_TWTM, 11), (K_TMWT, 11), (K_TWTF, 9), (K_TFWT, 9), (K_TMTM, 10)],
    }
}

/// relative weights: point, read, structural (clone/clear/hold), fill/drain, bulk, multi
fn weights(prop: u32) -> [u32; 6] {
    match prop {
        1 => [60, 12, 10, 14, 3, 0],
        2 => [25, 3, 15, 10, 35, 4],
        3 => [22, 6, 6, 10, 52, 4],
        4 => [22, 10, 5, 18, 40, 2],
        5 | 6 | 7 | 8 => [8, 1, 4, 12, 70, 4],
        9 | 10 => [20, 4, 14, 10, 46, 6],
        11 => [20, 4, 10, 8, 58, 0],
        12 => [40, 0, 4, 10, 46, 0],
        13 => [45, 10, 25, 8, 10, 0],
        14 => [25, 5, 4, 16, 46, 4],
        15 => [6, 0, 2, 12, 62, 18],
        18 => [45, 0, 4, 14, 35, 2],
        _ => [20, 5, 10, 10, 50, 5],
    }
}

fn weighted(r: &mut Rng, w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    let mut x = r.below(t as u64) as u32;
    for (i, k) in w.iter().enumerate() {
        if x < *k { return i }
        x -= k;
    }
    0
}

fn gen_bulk(r: &mut Rng, prop: u32, ty_bias: u32) -> Op {
    let ks = bulk_kinds(prop);
    let w: Vec<u32> = ks.iter().map(|x| x.1).collect();
    let mut k = ks[weighted(r, &w)].0;
    let set = match prop {
        3 => true,
        5 | 6 | 7 => false,
        _ => r.chance(300),
    };
    if set && (k == K_TWTF || k == K_TFWT) {
        k = if k == K_TWTF { K_TWTM } else { K_TMWT };
    }
    let t = if set { 1 } else { 0 };
    let _ = ty_bias;
    let variant = r.below(2) as u8;
    let c = |r: &mut Rng, n: u64| if r.chance(if prop == 18 { 300 } else { 750 }) { 0 } else { r.below(n) as u8 };
    let prof = match prop {
        11 => r.pick(&[1, 1, 1, 3, 6, 7, 8, 0, 9, 11]),
        12 => r.pick(&[1, 3, 3, 3, 0, 6, 7, 9, 5]),
        _ => r.pick(&[0, 0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 11, 11, 11, 12, 13]),
    };
    let mut f = 0;
    if r.chance(600) { f |= F_PAR }
    if prop == 15 || r.chance(30) { f |= F_CMP }
    Op {
        k,
        t: t * 4 + variant,
        s1: r.below(NREG as u64) as u8,
        s2: r.below(NREG as u64) as u8,
        d: r.below(NREG as u64) as u8,
        f,
        n: 0,
        cb: c(r, 5),
        cl: c(r, 3),
        cr: c(r, 3),
        prof,
        seed: r.next(),
        fk: 0,
        fat: 0,
    }
}

fn gen_ty(r: &mut Rng, prop: u32) -> u8 {
    match prop {
        1 | 5 | 6 | 7 => r.pick(&[TY_MA, TY_MA, TY_MB, TY_MC]),
        3 => r.pick(&[TY_SA, TY_SB]),
        _ => r.pick(&[TY_MA, TY_MA, TY_MB, TY_MC, TY_SA, TY_SB]),
    }
}

pub fn generate(prop: u32, seed: u64, run: u64, big: bool) -> Scenario {
    let mut r = Rng(mix(&[seed, prop as u64, run, 0x5ce]));
    let mut sc = Scenario { prop, seed, run, big, ..Default::default() };
    sc.world = r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 6]);
    sc.hmode = (r.below(NHMODE as u64 + 2) as u8).min(NHMODE - 1);
    sc.hseed = r.next();
    sc.dom = r.pick(&[3, 4, 5, 6, 8, 8, 12, 16, 16, 24, 40, 40, 80, 120]);
    if r.chance(if big { 100 } else { 12 }) { sc.dom = r.pick(&[200, 270, 300]) }
    if matches!(sc.hmode, 2 | 10) && sc.dom > 24 { sc.dom = 4 + r.below(20) as u32 }
    if sc.hmode == 3 && sc.dom > 40 { sc.dom = 40 }
    if sc.hmode == 12 { sc.dom = sc.dom.min(3 + r.below(12) as u32) }
    // sometimes every slot of a node
    let wide = 1u32 << WORLDS[sc.world as usize].1;
    let full = sc.hmode == 6 && r.chance(if big { 500 } else { 250 });
    if full { sc.dom = wide + r.below(6) as u32 }
    // now and then a collision chain far beyond what a good hash gives
    let long = r.chance(if big { 8 } else { 4 });
    if long {
        sc.hmode = r.pick(&[2, 2, 10]);
        sc.dom = r.pick(&[33, 48, 66, 70, 100, 130, 140, 200, 260, 300]);
    }
    // rarely a map of thousands of entries, very rarely one of more than 2^16
    let vast = r.below(2000) == 0;
    let huge = !vast && !long && r.below(10_000) < if prop == 18 { 300 } else if big { 40 } else { 20 };
    if huge {
        sc.hmode = r.pick(&[0, 0, 1, 5, 7, 7, 8, 11]);
        sc.dom = r.pick(&[520, 700, 1030, 1030, 1600, 2060]);
        if sc.world == 1 { sc.world = 2 }
    }
    // a large map beside a small one, or two chains of given lengths, with the constant modes at
    // once; drawn apart from the rest so that the other runs stay what they are
    let mut q = Rng(mix(&[seed, prop as u64, run, 0x10b5]));
    let lop = !vast && !huge && !long && !matches!(prop, 10 | 18) && q.chance(if big { 60 } else { 50 });
    let lop_chain = q.chance(350);
    if lop {
        if lop_chain {
            sc.hmode = q.pick(&[2, 2, 2, 10]);
            sc.dom = q.pick(&[8, 12, 24, 40, 40, 66, 66, 80, 140]);
        } else {
            sc.hmode = q.pick(&[0, 0, 1, 5, 6, 7, 8, 11]);
            sc.dom = q.pick(&[130, 180, 200, 260, 300, 400, 400, 700, 1030]);
            if sc.world == 1 { sc.world = q.pick(&[0, 2, 5]) }
        }
    }
    if vast {
        sc.hmode = r.pick(&[0, 0, 0, 1]);
        sc.dom = 66_000 + r.below(4000) as u32;
        sc.world = r.pick(&[0, 0, 3, 4, 5, 6]);
    }
    let small = sc.dom <= 24;
    sc.rng = r.next();
    let nc = if prop == 2 || prop == 13 { r.pick(&[2, 3, 4, 5]) } else { r.pick(&[1, 1, 2, 2, 3, 4]) };
    sc.p_switch = r.pick(&[0, 20, 100, 100, 300, 700]);
    if nc == 1 { sc.p_switch = 0 }
    sc.p_pend = r.pick(&[0, 50, 200, 200, 500, 850]);
    sc.p_mem = if nc == 1 { 0 } else { r.pick(&[0, 0, 20, 100, 300]) };
    sc.reuse = r.chance(300);
    let faulty = match prop {
        10 => r.pick(&[250, 400, 700]),
        9 | 2 | 13 => r.pick(&[0, 100, 300]),
        _ => r.pick(&[0, 0, 0, 0, 60]),
    };
    sc.verify_every = match prop {
        2 | 13 => r.pick(&[7, 23, 61, 151]),
        9 | 10 => r.pick(&[0, 53, 211]),
        _ => r.pick(&[0, 0, 0, 307]),
    };
    if !small && sc.verify_every > 0 { sc.verify_every *= 5 }
    // initial contents
    let tys: &[u8] = match prop {
        1 | 5 | 6 | 7 => &[0, 1, 2],
        3 => &[3, 4],
        _ => &[0, 1, 2, 3, 4],
    };
    for &t in tys {
        for reg in 0..NREG as u8 {
            if r.chance(if long { 300 } else { 850 }) {
                let n = match r.below(6) {
                    0 => r.below(4) as u32,
                    // hash groups as a whole
                    2 => (2 * sc.dom) | (1 + r.below(3) as u32) << 16,
                    1 | 3 | 4 if matches!(sc.hmode, 3 | 8 | 9 | 12) => (1 + r.below(3 * sc.dom as u64) as u32) | r.pick(&[1u32, 2, 2, 3]) << 16,
                    3 if full => 6 * sc.dom,
                    1 => sc.dom,
                    _ => r.below(sc.dom as u64 + 1) as u32,
                };
                sc.init.push(Init { t, r: reg, seed: r.next(), n });
            }
        }
    }
    let per = if vast { 1 } else if huge { 2 + r.below(4) } else if long { 1 + r.below(3) } else if small { 2 + r.below(14) } else { 1 + r.below(6) };
    let w = weights(prop);
    let nc = if vast { 1 } else if long || huge || lop { nc.min(2) } else { nc };
    let per = if lop { per.min(4) } else { per };
    for _ in 0..nc {
        let mut ops: Vec<Op> = Vec::new();
        while (ops.len() as u64) < per {
            let cls = weighted(&mut r, &w);
            match cls {
                5 => {
                    let n = 2 + r.below(2) as u32;
                    ops.push(Op { k: K_MULTI, n, ..Default::default() });
                    for _ in 0..n {
                        let mut o = gen_bulk(&mut r, prop, 0);
                        if matches!(o.k, K_TRANSMUTE | K_TMTM) { o.k = K_TRANSFORM }
                        fault(&mut r, &mut o, faulty, small);
                        ops.push(o)
                    }
                }
                4 => {
                    let mut o = gen_bulk(&mut r, prop, 0);
                    fault(&mut r, &mut o, faulty, small);
                    ops.push(o)
                }
                _ => {
                    let t = gen_ty(&mut r, prop);
                    let mut o = Op {
                        t,
                        s1: r.below(NREG as u64) as u8,
                        s2: r.below(NREG as u64) as u8,
                        n: r.below(sc.dom as u64) as u32,
                        seed: r.next(),
                        ..Default::default()
                    };
                    o.d = if r.chance(700) { o.s1 } else { r.below(NREG as u64) as u8 };
                    if r.chance(300) { o.f |= F_ALT }
                    if r.chance(500) { o.f |= F_REPLACE }
                    if r.chance(if prop == 13 { 500 } else { 120 }) { o.f |= F_HOLD }
                    o.k = match cls {
                        0 => r.pick(&[K_INSERT, K_INSERT, K_REMOVE, K_REMOVE, K_FIND]),
                        1 => r.pick(&[K_VISIT, K_FIND, K_EQ]),
                        2 => r.pick(&[K_CLONE, K_CLONE, K_CLEAR, K_HOLD, K_HOLD, K_UNHOLD]),
                        _ => {
                            o.n = 1 + r.below((sc.dom as u64).min(40)) as u32;
                            if r.chance(300) { o.n |= (1 + r.below(3) as u32) << 16 }
                            r.pick(&[K_FILL, K_FILL, K_DRAIN])
                        }
                    };
                    if o.k == K_FIND && !vast && mix(&[o.seed, 0xf11c]) % 3 == 0 { o.f |= F_FLICK }
                    if cls != 3 && o.f & F_FLICK == 0 { fault(&mut r, &mut o, faulty, small) }
                    ops.push(o)
                }
            }
        }
        sc.clients.push(ops);
    }
    if vast || huge {
        // only what is used, nearly or completely full
        sc.verify_every = if vast { 0 } else { sc.verify_every * 100 };
        if vast {
            // nothing that takes long at this size
            if prop > 3 && prop != 13 && !sc.clients[0].iter().any(|o| o.k >= K_TRANSFORM) { sc.clients[0].push(gen_bulk(&mut r, prop, 0)) }
            for o in sc.clients[0].iter_mut().filter(|o| o.k >= K_TRANSFORM) {
                if r.chance(600) { o.f |= F_PAR }
                if r.chance(600) { (o.prof, o.cb, o.cl, o.cr) = (r.pick(&[12, 12, 13, 13, 1]), 0, 0, 0) }
            }
            for o in sc.clients[0].iter_mut().filter(|o| matches!(o.k, K_CLEAR | K_FILL | K_DRAIN | K_UNHOLD)) { o.k = K_INSERT; o.n %= sc.dom }
        }
        sc.init.clear();
        let mut used: Vec<(u8, u8)> = Vec::new();
        for o in sc.clients.iter().flatten() { used.extend(sources(o)) }
        used.sort();
        used.dedup();
        for (t, g) in used {
            let n = match r.pick(&[100u32, 100, 99, 97, 50, 0, 0]) {
                0 => r.pick(&[1, 1, 2, 4, 40]),
                p => 4 << 16 | p,
            };
            sc.init.push(Init { t, r: g, seed: r.next(), n });
        }
        // half the time the sides are relatives
        if r.chance(500) {
            if let Some((t, a, b)) = sc.init.iter().find_map(|i| sc.init.iter().find(|j| j.t == i.t && j.r != i.r).map(|j| (i.t, i.r, j.r))) {
                sc.init.retain(|i| !(i.t == t && i.r == b));
                sc.clients[0].insert(0, Op { k: K_CLONE, t, s1: a, d: b, seed: r.next(), ..Default::default() });
                let n = r.below(sc.dom as u64) as u32;
                let k = r.pick(&[K_INSERT, K_REMOVE]);
                sc.clients[0].insert(1, Op { k, t, s1: b, d: b, n, f: F_REPLACE, seed: r.next(), ..Default::default() });
            }
        }
    }
    if lop {
        sc.verify_every *= if sc.dom > 200 { 40 } else { 8 };
        let joint = if prop <= 1 { 0 } else { 850 };
        for ops in sc.clients.iter_mut() {
            let mut i = 0;
            while i < ops.len() {
                if ops[i].k == K_MULTI {
                    ops.remove(i);
                    continue;
                }
                if ops[i].k < K_TRANSFORM && q.chance(joint) { ops[i] = gen_bulk(&mut q, prop, 0) }
                let o = &mut ops[i];
                if o.k > K_TRANSMUTE && prop < 5 && q.chance(400) { o.k = K_JOINT }
                if o.k >= K_TRANSFORM {
                    if q.chance(550) { (o.cb, o.cl, o.cr) = (q.below(5) as u8, q.below(3) as u8, q.below(3) as u8) }
                    match q.below(8) {
                        0 => (o.cb, o.cl, o.cr) = (1 + q.below(4) as u8, 1 + q.below(2) as u8, 1 + q.below(2) as u8),
                        // union, intersection, differences
                        1 | 2 | 3 => (o.cb, o.cl, o.cr) = q.pick(&[(1, 1, 1), (1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 2, 2), (2, 2, 2), (3, 2, 2), (4, 1, 1), (4, 1, 2), (4, 2, 1)]),
                        _ => {}
                    }
                    if q.chance(300) { o.prof = q.pick(&[1, 3, 3, 12, 13]) }
                    if q.chance(800) && o.s1 == o.s2 { o.s2 = (o.s1 + 1 + q.below(2) as u8) % NREG as u8 }
                }
                i += 1;
            }
        }
        sc.init.clear();
        let mut used: Vec<(u8, u8)> = Vec::new();
        for o in sc.clients.iter().flatten() { used.extend(sources(o)) }
        used.sort();
        used.dedup();
        let shape = q.below(3);
        for (i, (t, g)) in used.into_iter().enumerate() {
            let tiny = match shape { 0 => i % 2 == 0, 1 => i % 2 == 1, _ => q.chance(300) };
            let n = if lop_chain && q.chance(600) {
                // a length of its own
                4 << 16 | q.below(101) as u32
            } else if tiny {
                q.pick(&[0, 1, 1, 2, 2, 3, 3, 4, 12])
            } else {
                4 << 16 | q.pick(&[100u32, 99, 97, 90, 70, 60, 50])
            };
            sc.init.push(Init { t, r: g, seed: q.next(), n });
        }
    }
    sc
}

/// The collections an operation reads.
fn sources(o: &Op) -> Vec<(u8, u8)> {
    let (set, var) = (o.t & 4 != 0, o.t & 1);
    let (a, b) = if set { (TY_SA, TY_SB) } else { (TY_MA, TY_MB) };
    match o.k {
        K_TRANSFORM if set => vec![(TY_SA, o.s1)],
        K_TRANSFORM | K_TRANSMUTE => vec![(if var == 0 { a } else { b }, o.s1)],
        K_JOINT => vec![(a, o.s1), (a, o.s2)],
        K_TWTM | K_TMWT | K_TMTM => vec![(a, o.s1), (b, o.s2)],
        K_TWTF | K_TFWT => vec![(TY_MA, o.s1), (TY_MC, o.s2)],
        K_EQ => vec![(o.t, o.s1), (o.t, o.s2)],
        K_MULTI | K_CLEAR | K_UNHOLD => vec![],
        _ => vec![(o.t, o.s1)],
    }
}

fn fault(r: &mut Rng, o: &mut Op, p: u32, small: bool) {
    if !r.chance(p) { return }
    let is_async = matches!(o.k, K_TRANSFORM | K_JOINT | K_TWTM | K_TMWT | K_TWTF | K_TFWT);
    let x = r.below(100);
    o.fk = if is_async && x < 45 { FK_CANCEL } else if x < 92 { FK_PANIC } else { FK_CRASH };
    let span = if o.fk == FK_CANCEL { if small { 6 } else { 30 } } else if o.k >= K_TRANSFORM { if small { 60 } else { 300 } } else if o.k == K_VISIT { 10 } else { 8 };
    o.fat = r.below(span) as u32;
    if r.chance(300) { o.fat = r.below(3) as u32 }
    let _ = FK_NONE;
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut s = String::from("htsim-replay 1\n");
        s += &format!("prop {}\nseed {}\nrun {}\nworld {}\ndom {}\nhmode {}\nhseed {}\npswitch {}\nppend {}\npmem {}\nreuse {}\nbig {}\nverify {}\nrng {}\nexpect {}\n", self.prop, self.seed, self.run, self.world, self.dom, self.hmode, self.hseed, self.p_switch, self.p_pend, self.p_mem, self.reuse as u32, self.big as u32, self.verify_every, self.rng, self.expect);
        for i in &self.init {
            s += &format!("init {} {} {} {}\n", i.t, i.r, i.seed, i.n);
        }
        for c in &self.clients {
            s += "client\n";
            for o in c {
                s += &format!("op {} {} {} {} {} {} {} {} {} {} {} {} {} {}   # {}\n", o.k, o.t, o.s1, o.s2, o.d, o.f, o.n, o.cb, o.cl, o.cr, o.prof, o.seed, o.fk, o.fat, KNAMES[o.k as usize % NK]);
            }
        }
        if !self.pre.is_empty() {
            s += "before";
            for a in &self.pre { s += &format!(" {}", a) }
            s += "\n";
        }
        s += "sched";
        for (a, b) in &self.sched { s += &format!(" {}:{}", a, b) }
        s += "\npends";
        for a in &self.pends { s += &format!(" {}", a) }
        s += "\nchoices";
        for (a, b) in &self.choices { s += &format!(" {}:{}", a, b) }
        s += "\nend\n";
        s
    }
    pub fn from_text(t: &str) -> Option<Scenario> {
        let mut sc = Scenario { replay: true, ..Default::default() };
        let mut l = t.lines();
        if l.next()? != "htsim-replay 1" { return None }
        for line in l {
            let line0 = line.split('#').next().unwrap_or("");
            let w: Vec<&str> = line0.split_whitespace().collect();
            if w.is_empty() { continue }
            let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            match w[0] {
                "mode" => sc.replay = w.get(1) != Some(&"seeded"),
                "prop" => sc.prop = n(1) as u32,
                "seed" => sc.seed = n(1),
                "run" => sc.run = n(1),
                "world" => sc.world = n(1) as u8,
                "dom" => sc.dom = n(1) as u32,
                "hmode" => sc.hmode = n(1) as u8,
                "hseed" => sc.hseed = n(1),
                "pswitch" => sc.p_switch = n(1) as u32,
                "ppend" => sc.p_pend = n(1) as u32,
                "reuse" => sc.reuse = n(1) != 0,
                "big" => sc.big = n(1) != 0,
                "before" => for x in &w[1..] { sc.pre.push(x.parse().ok()?) },
                "pmem" => sc.p_mem = n(1) as u32,
                "verify" => sc.verify_every = n(1),
                "rng" => sc.rng = n(1),
                "expect" => sc.expect = w[1..].join(" "),
                "init" => sc.init.push(Init { t: n(1) as u8, r: n(2) as u8, seed: n(3), n: n(4) as u32 }),
                "client" => sc.clients.push(Vec::new()),
                "op" => sc.clients.last_mut()?.push(Op {
                    k: n(1) as u8, t: n(2) as u8, s1: n(3) as u8, s2: n(4) as u8, d: n(5) as u8, f: n(6) as u32, n: n(7) as u32,
                    cb: n(8) as u8, cl: n(9) as u8, cr: n(10) as u8, prof: n(11) as u8, seed: n(12), fk: n(13) as u8, fat: n(14) as u32,
                }),
                "sched" | "choices" => {
                    for x in &w[1..] {
                        let (a, b) = x.split_once(':')?;
                        if w[0] == "sched" { sc.sched.push((a.parse().ok()?, b.parse().ok()?)) } else { sc.choices.push((a.parse().ok()?, b.parse().ok()?)) }
                    }
                }
                "pends" => for x in &w[1..] { sc.pends.push(x.parse().ok()?) },
                _ => {}
            }
        }
        Some(sc)
    }
}

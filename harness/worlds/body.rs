// Included once per world with `H` and `F` defined.
macro_rules! KIND {
    (KeyA) => { T_KEYA };
    (KeyB) => { T_KEYB };
    (ValA) => { T_VALA };
    (ValB) => { T_VALB };
}
pub const FNS: crate::run::Fns = crate::run::Fns {
    open,
    close,
    verify: || verify_all("while an operation was in flight"),
    verify_all,
    init_reg,
    simple,
    make_bulk,
    state_digest,
    lib_hash,
    std_hashers,
};
use crate::coll::*;
use crate::scen::*;
use crate::sim::*;
use crate::types::*;
use hash_trie::results::*;
use hash_trie::traits::HasherBv;
use hash_trie::transformations::*;
use hash_trie::{HashTrieMap, HashTrieSet, ParallelismStrategy};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

pub type MA = HashTrieMap<H, F, KeyA, ValA, Hs>;
pub type MB = HashTrieMap<H, F, KeyB, ValB, Hs>;
pub type MC = HashTrieMap<H, F, KeyA, ValB, Hs>;
pub type SA = HashTrieSet<H, F, KeyA, Hs>;
pub type SB = HashTrieSet<H, F, KeyB, Hs>;

pub struct World {
    ma: Store<MA>,
    mb: Store<MB>,
    mc: Store<MC>,
    sa: Store<SA>,
    sb: Store<SB>,
}
static mut WORLD: *mut World = core::ptr::null_mut();

macro_rules! ment {
    ($k:expr, $v:expr) => {{
        let (k, v) = ($k, $v);
        k.check();
        v.check();
        Ent { id: k.id, tag: k.tag, p: v.p, ka: k as *const _ as usize, va: v as *const _ as usize }
    }};
}
macro_rules! sent {
    ($k:expr) => {{
        let k = $k;
        k.check();
        Ent { id: k.id, tag: k.tag, p: 0, ka: k as *const _ as usize, va: 0 }
    }};
}

fn unwrap_key_magic(ok: bool, id: u32, tag: u32, p: u64) -> Option<(u32, u32, u64)> {
    if ok { Some((id, tag, p)) } else { None }
}

macro_rules! map_coll {
    ($c:ty, $name:expr, $field:ident, $k:ident, $v:ident, $k2:ident, $v2:ident) => {
        impl Coll for $c {
            const SET: bool = false;
            const NAME: &'static str = $name;
            fn store() -> &'static mut Store<Self> {
                unsafe { &mut (*WORLD).$field }
            }
            fn new(alt: bool) -> Self {
                if alt { return <$c>::default() }
                <$c>::new()
            }
            fn size(&self) -> usize {
                <$c>::size(self)
            }
            fn visit_raw(&self, f: &mut dyn FnMut(Ent)) {
                let f = std::cell::RefCell::new(f);
                let r = &f;
                self.visit(move |k: &$k, v: &$v| (r.borrow_mut())(ment!(k, v)));
            }
            fn find_raw(&self, id: u32, alt: bool) -> Option<Ent> {
                if alt { self.find(&$k2::new(id, 0)).ok().map(|(k, v)| ment!(k, v)) } else { self.find(&$k::new(id, 0)).ok().map(|(k, v)| ment!(k, v)) }
            }
            fn insert_raw(&self, id: u32, tag: u32, p: u64, alt: bool, replace: bool) -> Result<(Self, Ent, Option<Ent>), Ent> {
                let r = if alt { self.insert($k2::new(id, tag), $v2::new(p), replace) } else { self.insert($k::new(id, tag), $v::new(p), replace) };
                match r {
                    Ok((c, k, v, prev)) => {
                        let e = unsafe { ment!(&*k, &*v) };
                        Ok((c, e, prev.map(|(k, v)| ment!(k, v))))
                    }
                    Err((k, v)) => Err(ment!(k, v)),
                }
            }
            fn remove_raw(&self, id: u32, alt: bool) -> Option<(Self, Ent)> {
                let r = if alt { self.remove(&$k2::new(id, 0)) } else { self.remove(&$k::new(id, 0)) };
                r.ok().map(|(c, k, v)| (c, ment!(k, v)))
            }
            unsafe fn peek(ka: usize, va: usize) -> Option<(u32, u32, u64)> {
                let k = &*(ka as *const $k);
                let v = &*(va as *const $v);
                unwrap_key_magic(k.t.ok(KIND!($k)) && v.t.ok(KIND!($v)), k.id, k.tag, v.p)
            }
        }
    };
}
macro_rules! set_coll {
    ($c:ty, $name:expr, $field:ident, $k:ident, $k2:ident) => {
        impl Coll for $c {
            const SET: bool = true;
            const NAME: &'static str = $name;
            fn store() -> &'static mut Store<Self> {
                unsafe { &mut (*WORLD).$field }
            }
            fn new(alt: bool) -> Self {
                if alt { return <$c>::default() }
                <$c>::new()
            }
            fn size(&self) -> usize {
                <$c>::size(self)
            }
            fn visit_raw(&self, f: &mut dyn FnMut(Ent)) {
                let f = std::cell::RefCell::new(f);
                let r = &f;
                self.visit(move |k: &$k| (r.borrow_mut())(sent!(k)));
            }
            fn find_raw(&self, id: u32, alt: bool) -> Option<Ent> {
                if alt { self.find(&$k2::new(id, 0)).ok().map(|k| sent!(k)) } else { self.find(&$k::new(id, 0)).ok().map(|k| sent!(k)) }
            }
            fn insert_raw(&self, id: u32, tag: u32, _p: u64, alt: bool, replace: bool) -> Result<(Self, Ent, Option<Ent>), Ent> {
                let r = if alt { self.insert($k2::new(id, tag), replace) } else { self.insert($k::new(id, tag), replace) };
                match r {
                    Ok((c, k, prev)) => {
                        let e = unsafe { sent!(&*k) };
                        Ok((c, e, prev.map(|k| sent!(k))))
                    }
                    Err(k) => Err(sent!(k)),
                }
            }
            fn remove_raw(&self, id: u32, alt: bool) -> Option<(Self, Ent)> {
                let r = if alt { self.remove(&$k2::new(id, 0)) } else { self.remove(&$k::new(id, 0)) };
                r.ok().map(|(c, k)| (c, sent!(k)))
            }
            unsafe fn peek(ka: usize, _va: usize) -> Option<(u32, u32, u64)> {
                let k = &*(ka as *const $k);
                unwrap_key_magic(k.t.ok(KIND!($k)), k.id, k.tag, 0)
            }
        }
    };
}
map_coll!(MA, "map<KeyA,ValA>", ma, KeyA, ValA, KeyB, ValB);
map_coll!(MB, "map<KeyB,ValB>", mb, KeyB, ValB, KeyA, ValA);
map_coll!(MC, "map<KeyA,ValB>", mc, KeyA, ValB, KeyB, ValA);
set_coll!(SA, "set<KeyA>", sa, KeyA, KeyB);
set_coll!(SB, "set<KeyB>", sb, KeyB, KeyA);

// ---------------------------------------------------------------- user operations

fn zero() -> Red {
    Red::new(0, 0)
}

// A constant operation as its public constructor builds it, with the closure type of the generic one.
macro_rules! mt { ($e:expr) => { match $e { MapTransform::Unchanged(r) => MapTransform::Unchanged(r), MapTransform::Removed(r) => MapTransform::Removed(r), MapTransform::Generic(_) => unreachable!() } } }
macro_rules! st { ($e:expr) => { match $e { SetTransform::Unchanged(r) => SetTransform::Unchanged(r), SetTransform::Removed(r) => SetTransform::Removed(r), SetTransform::Generic(_) => unreachable!() } } }
macro_rules! mm { ($e:expr) => { match $e { MapTransmute::Removed(r) => MapTransmute::Removed(r), MapTransmute::Generic(_) => unreachable!() } } }
macro_rules! sm { ($e:expr) => { match $e { SetTransmute::Removed(r) => SetTransmute::Removed(r), SetTransmute::Generic(_) => unreachable!() } } }
macro_rules! mj { ($e:expr) => { match $e { MapJointTransform::UnchangedLR(r) => MapJointTransform::UnchangedLR(r), MapJointTransform::UnchangedL(r) => MapJointTransform::UnchangedL(r), MapJointTransform::UnchangedR(r) => MapJointTransform::UnchangedR(r), MapJointTransform::Removed(r) => MapJointTransform::Removed(r), MapJointTransform::Generic(_, _) => unreachable!() } } }
macro_rules! sj { ($e:expr) => { match $e { SetJointTransform::UnchangedLR(r) => SetJointTransform::UnchangedLR(r), SetJointTransform::UnchangedL(r) => SetJointTransform::UnchangedL(r), SetJointTransform::UnchangedR(r) => SetJointTransform::UnchangedR(r), SetJointTransform::Removed(r) => SetJointTransform::Removed(r), SetJointTransform::Generic(_, _) => unreachable!() } } }

// In some operations even a constant is consulted entry by entry, through the public `call`; generic ones always are.
macro_rules! outer {
    ($t:ident, $op:expr, $inner:expr, $c:expr) => { match $inner { $t::Removed(r) if !wrapped(&$op) => $t::Removed(r), _ => $c } };
    ($t:ident U, $op:expr, $inner:expr, $c:expr) => { match $inner { $t::Unchanged(r) if !wrapped(&$op) => $t::Unchanged(r), $t::Removed(r) if !wrapped(&$op) => $t::Removed(r), _ => $c } };
    ($t:ident J, $op:expr, $inner:expr, $c:expr) => { match $inner {
        $t::UnchangedLR(r) if !wrapped(&$op) => $t::UnchangedLR(r),
        $t::UnchangedL(r) if !wrapped(&$op) => $t::UnchangedL(r),
        $t::UnchangedR(r) if !wrapped(&$op) => $t::UnchangedR(r),
        $t::Removed(r) if !wrapped(&$op) => $t::Removed(r),
        _ => $c,
    } };
}

// single-entry operations on a map or set entry of kept type
macro_rules! m_single {
    ($op:expr, $cx:expr, $tok:expr, $side:expr, $k:ty, $v:ident) => {{
        let (cx, tok, side) = ($cx, $tok.clone(), $side);
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, side) {
            Some(O_U) => mt!(new_map_transform_unchanged::<$k, $v, Red>(zero())),
            Some(_) => mt!(new_map_transform_removed::<$k, $v, Red>(zero())),
            None => new_map_transform_generic(move |k: &$k, v: &$v| {
                tok.check();
                k.check();
                v.check();
                let (tl, pl, tr, pr) = if side == RIGHT { (0, 0, k.tag, v.p) } else { (k.tag, v.p, 0, 0) };
                let (o, np, _, red) = cx.call(side, k.id, tl, pl, tr, pr);
                match o {
                    O_U => MapTransformResult::Unchanged(red),
                    O_T => MapTransformResult::Transformed($v::new(np), red),
                    _ => MapTransformResult::Removed(red),
                }
            }),
        };
        let f2 = inner.clone();
        outer!(MapTransform U, $op, inner, new_map_transform_generic(move |k: &$k, v: &$v| f2.call(k, v)))
    }};
}
macro_rules! s_single {
    ($op:expr, $cx:expr, $tok:expr, $side:expr, $k:ty) => {{
        let (cx, tok, side) = ($cx, $tok.clone(), $side);
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, side) {
            Some(O_U) => st!(new_set_transform_unchanged::<$k, Red>(zero())),
            Some(_) => st!(new_set_transform_removed::<$k, Red>(zero())),
            None => new_set_transform_generic(move |k: &$k| {
                tok.check();
                k.check();
                let (tl, tr) = if side == RIGHT { (0, k.tag) } else { (k.tag, 0) };
                let (o, _, _, red) = cx.call(side, k.id, tl, 0, tr, 0);
                match o {
                    O_U => SetTransformResult::Unchanged(red),
                    _ => SetTransformResult::Removed(red),
                }
            }),
        };
        let f2 = inner.clone();
        outer!(SetTransform U, $op, inner, new_set_transform_generic(move |k: &$k| f2.call(k)))
    }};
}
// single-entry conversions
macro_rules! m_convert {
    ($op:expr, $cx:expr, $tok:expr, $side:expr, $k:ty, $v:ty, $k2:ident, $v2:ident) => {{
        let (cx, tok, side) = ($cx, $tok.clone(), $side);
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, side) {
            Some(_) => mm!(new_map_transmute_removed::<$k, $v, $k2, $v2, Red>(zero())),
            None => new_map_transmute_generic(move |k: &$k, v: &$v| {
                tok.check();
                k.check();
                v.check();
                let (tl, pl, tr, pr) = if side == RIGHT { (0, 0, k.tag, v.p) } else { (k.tag, v.p, 0, 0) };
                let (o, np, nt, red) = cx.call(side, k.id, tl, pl, tr, pr);
                match o {
                    O_X => MapTransmuteResult::Removed(red),
                    _ => MapTransmuteResult::Transmuted($k2::new(k.id, nt), $v2::new(np), red),
                }
            }),
        };
        let f2 = inner.clone();
        outer!(MapTransmute, $op, inner, new_map_transmute_generic(move |k: &$k, v: &$v| f2.call::<_, _, $k2, $v2>(k, v)))
    }};
}
macro_rules! f_convert {
    ($op:expr, $cx:expr, $tok:expr, $side:expr, $k:ty, $v:ty, $v2:ident) => {{
        let (cx, tok, side) = ($cx, $tok.clone(), $side);
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, side) {
            Some(_) => SetTransmute::Removed(zero()),
            None => SetTransmute::Generic(move |k: &$k, v: &$v| {
                tok.check();
                k.check();
                v.check();
                let (tl, pl, tr, pr) = if side == RIGHT { (0, 0, k.tag, v.p) } else { (k.tag, v.p, 0, 0) };
                let (o, np, _, red) = cx.call(side, k.id, tl, pl, tr, pr);
                match o {
                    O_X => SetTransmuteResult::Removed(red),
                    _ => SetTransmuteResult::Transmuted($v2::new(np), red),
                }
            }),
        };
        let f2 = inner.clone();
        outer!(SetTransmute, $op, inner, SetTransmute::Generic(move |k: &$k, v: &$v| f2.call_transmute::<_, _, $v2>(k, v)))
    }};
}
macro_rules! s_convert {
    ($op:expr, $cx:expr, $tok:expr, $side:expr, $k:ty, $k2:ident) => {{
        let (cx, tok, side) = ($cx, $tok.clone(), $side);
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, side) {
            Some(_) => sm!(new_set_transmute_removed::<$k, $k2, Red>(zero())),
            None => new_set_transmute_generic(move |k: &$k| {
                tok.check();
                k.check();
                let (tl, tr) = if side == RIGHT { (0, k.tag) } else { (k.tag, 0) };
                let (o, _, nt, red) = cx.call(side, k.id, tl, 0, tr, 0);
                match o {
                    O_X => SetTransmuteResult::Removed(red),
                    _ => SetTransmuteResult::Transmuted($k2::new(k.id, nt), red),
                }
            }),
        };
        let f2 = inner.clone();
        outer!(SetTransmute, $op, inner, new_set_transmute_generic(move |k: &$k| f2.call::<_, $k2>(k)))
    }};
}
// two-entry operations whose result has the value type `$vo`
macro_rules! m_both {
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $v:ty, $l:ty, $w:ty, $vo:ident, L) => { m_both!($op, $cx, $tok, $k, $v, $l, $w, $vo, new_map_transform_transmute_generic, new_map_transform_transmute_unchanged, new_map_transform_transmute_removed, call_transform_transmute, flip_transform_transmute, call_transmute_transform) };
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $v:ty, $l:ty, $w:ty, $vo:ident, R) => { m_both!($op, $cx, $tok, $k, $v, $l, $w, $vo, new_map_transmute_transform_generic, new_map_transmute_transform_unchanged, new_map_transmute_transform_removed, call_transmute_transform, flip_transmute_transform, call_transform_transmute) };
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $v:ty, $l:ty, $w:ty, $vo:ident, $cg:ident, $cu:ident, $cr:ident, $ca:ident, $fl:ident, $ca2:ident) => {{
        let (cx, tok) = ($cx, $tok.clone());
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, BOTH) {
            Some(O_U) => mt!($cu::<$k, $v, $l, $w, Red>(zero())),
            Some(_) => mt!($cr::<$k, $v, $l, $w, Red>(zero())),
            None => $cg(move |k: &$k, v: &$v, l: &$l, w: &$w| {
                tok.check();
                k.check();
                v.check();
                l.check();
                w.check();
                let (o, np, _, red) = cx.call(BOTH, k.id, k.tag, v.p, l.tag, w.p);
                match o {
                    O_U => MapTransformResult::Unchanged(red),
                    O_T => MapTransformResult::Transformed($vo::new(np), red),
                    _ => MapTransformResult::Removed(red),
                }
            }),
        };
        let f2 = inner.clone();
        let turn = turned(&$op);
        outer!(MapTransform U, $op, inner, $cg(move |k: &$k, v: &$v, l: &$l, w: &$w| if turn { f2.$fl().$ca2(l, w, k, v) } else { f2.$ca(k, v, l, w) }))
    }};
}
macro_rules! s_both {
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $l:ty) => {{
        let (cx, tok) = ($cx, $tok.clone());
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, BOTH) {
            Some(O_U) => st!(new_set_transform_transmute_unchanged::<$k, $l, Red>(zero())),
            Some(_) => st!(new_set_transform_transmute_removed::<$k, $l, Red>(zero())),
            None => new_set_transform_transmute_generic(move |k: &$k, l: &$l| {
                tok.check();
                k.check();
                l.check();
                let (o, _, _, red) = cx.call(BOTH, k.id, k.tag, 0, l.tag, 0);
                match o {
                    O_U => SetTransformResult::Unchanged(red),
                    _ => SetTransformResult::Removed(red),
                }
            }),
        };
        let f2 = inner.clone();
        let turn = turned(&$op);
        outer!(SetTransform U, $op, inner, new_set_transform_transmute_generic(move |k: &$k, l: &$l| if turn { f2.flip_transmute().call_transmute(l, k) } else { f2.call_transmute(k, l) }))
    }};
}
macro_rules! m_joint {
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $v:ident) => {{
        let (cx, tok) = ($cx, $tok.clone());
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, BOTH) {
            Some(O_LR) => if $op.seed >> 23 & 1 == 1 { mj!(new_map_joint_transform_unchangedlr::<$k, $v, Red>(zero()).flip()) } else { mj!(new_map_joint_transform_unchangedlr::<$k, $v, Red>(zero())) },
            Some(O_L) => if $op.seed >> 23 & 1 == 1 { mj!(new_map_joint_transform_unchangedr::<$k, $v, Red>(zero()).flip()) } else { mj!(new_map_joint_transform_unchangedl::<$k, $v, Red>(zero())) },
            Some(O_R) => if $op.seed >> 23 & 1 == 1 { mj!(new_map_joint_transform_unchangedl::<$k, $v, Red>(zero()).flip()) } else { mj!(new_map_joint_transform_unchangedr::<$k, $v, Red>(zero())) },
            Some(_) => mj!(new_map_joint_transform_removed::<$k, $v, Red>(zero())),
            None => {
                // half of the operations are written for the reverse order and declared so
                let rev = $op.seed >> 17 & 1 == 1;
                let f = move |k: &$k, v: &$v, l: &$k, w: &$v| {
                    let (k, v, l, w) = if rev { (l, w, k, v) } else { (k, v, l, w) };
                    tok.check();
                    k.check();
                    v.check();
                    l.check();
                    w.check();
                    let (o, np, _, red) = cx.call(BOTH, k.id, k.tag, v.p, l.tag, w.p);
                    match o {
                        O_LR => MapJointTransformResult::UnchangedLR(red),
                        O_L | O_R if (o == O_L) != rev => MapJointTransformResult::UnchangedL(red),
                        O_L | O_R => MapJointTransformResult::UnchangedR(red),
                        O_T => MapJointTransformResult::Transformed($v::new(np), red),
                        _ => MapJointTransformResult::Removed(red),
                    }
                };
                if rev { new_map_joint_transform_generic(f).flip() } else { new_map_joint_transform_generic(f) }
            }
        };
        let f2 = inner.clone();
        let rev = turned(&$op);
        let f3 = move |k: &$k, v: &$v, l: &$k, w: &$v| if rev { f2.flip().call(k, v, l, w) } else { f2.call(k, v, l, w) };
        outer!(MapJointTransform J, $op, inner, if rev { new_map_joint_transform_generic(f3).flip() } else { new_map_joint_transform_generic(f3) })
    }};
}
macro_rules! s_joint {
    ($op:expr, $cx:expr, $tok:expr, $k:ty) => {{
        let (cx, tok) = ($cx, $tok.clone());
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, BOTH) {
            Some(O_LR) => if $op.seed >> 23 & 1 == 1 { sj!(new_set_joint_transform_unchangedlr::<$k, Red>(zero()).flip()) } else { sj!(new_set_joint_transform_unchangedlr::<$k, Red>(zero())) },
            Some(O_L) => if $op.seed >> 23 & 1 == 1 { sj!(new_set_joint_transform_unchangedr::<$k, Red>(zero()).flip()) } else { sj!(new_set_joint_transform_unchangedl::<$k, Red>(zero())) },
            Some(O_R) => if $op.seed >> 23 & 1 == 1 { sj!(new_set_joint_transform_unchangedl::<$k, Red>(zero()).flip()) } else { sj!(new_set_joint_transform_unchangedr::<$k, Red>(zero())) },
            Some(_) => sj!(new_set_joint_transform_removed::<$k, Red>(zero())),
            None => {
                let rev = $op.seed >> 17 & 1 == 1;
                let f = move |k: &$k, l: &$k| {
                    let (k, l) = if rev { (l, k) } else { (k, l) };
                    tok.check();
                    k.check();
                    l.check();
                    let (o, _, _, red) = cx.call(BOTH, k.id, k.tag, 0, l.tag, 0);
                    match o {
                        O_LR => SetJointTransformResult::UnchangedLR(red),
                        O_L | O_R if (o == O_L) != rev => SetJointTransformResult::UnchangedL(red),
                        O_L | O_R => SetJointTransformResult::UnchangedR(red),
                        _ => SetJointTransformResult::Removed(red),
                    }
                };
                if rev { new_set_joint_transform_generic(f).flip() } else { new_set_joint_transform_generic(f) }
            }
        };
        let f2 = inner.clone();
        let rev = turned(&$op);
        let f3 = move |k: &$k, l: &$k| if rev { f2.flip().call(k, l) } else { f2.call(k, l) };
        outer!(SetJointTransform J, $op, inner, if rev { new_set_joint_transform_generic(f3).flip() } else { new_set_joint_transform_generic(f3) })
    }};
}
macro_rules! m_tm_both {
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $v:ty, $l:ty, $w:ty, $k2:ident, $v2:ident) => {{
        let (cx, tok) = ($cx, $tok.clone());
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, BOTH) {
            Some(_) => mm!(new_map_transmute_transmute_removed::<$k, $v, $l, $w, $k2, $v2, Red>(zero())),
            None => new_map_transmute_transmute_generic(move |k: &$k, v: &$v, l: &$l, w: &$w| {
                tok.check();
                k.check();
                v.check();
                l.check();
                w.check();
                let (o, np, nt, red) = cx.call(BOTH, k.id, k.tag, v.p, l.tag, w.p);
                match o {
                    O_X => MapTransmuteResult::Removed(red),
                    _ => MapTransmuteResult::Transmuted($k2::new(k.id, nt), $v2::new(np), red),
                }
            }),
        };
        let f2 = inner.clone();
        let turn = turned(&$op);
        outer!(MapTransmute, $op, inner, new_map_transmute_transmute_generic(move |k: &$k, v: &$v, l: &$l, w: &$w| if turn { f2.flip::<_, _, _, _, $k2, $v2>().call_transmute::<_, _, _, _, $k2, $v2>(l, w, k, v) } else { f2.call_transmute::<_, _, _, _, $k2, $v2>(k, v, l, w) }))
    }};
}
macro_rules! s_tm_both {
    ($op:expr, $cx:expr, $tok:expr, $k:ty, $l:ty, $k2:ident) => {{
        let (cx, tok) = ($cx, $tok.clone());
        let inner = match constant(&$op, unsafe { (*cx.0).kind }, BOTH) {
            Some(_) => sm!(new_set_transmute_transmute_removed::<$k, $l, $k2, Red>(zero())),
            None => new_set_transmute_transmute_generic(move |k: &$k, l: &$l| {
                tok.check();
                k.check();
                l.check();
                let (o, _, nt, red) = cx.call(BOTH, k.id, k.tag, 0, l.tag, 0);
                match o {
                    O_X => SetTransmuteResult::Removed(red),
                    _ => SetTransmuteResult::Transmuted($k2::new(k.id, nt), red),
                }
            }),
        };
        let f2 = inner.clone();
        let turn = turned(&$op);
        outer!(SetTransmute, $op, inner, new_set_transmute_transmute_generic(move |k: &$k, l: &$l| if turn { f2.flip::<_, _, $k2>().call_transmute::<_, _, $k2>(l, k) } else { f2.call_transmute::<_, _, $k2>(k, l) }))
    }};
}
macro_rules! red {
    ($tok:expr) => {{
        let tok = $tok.clone();
        move |l: &Red, r: &Red| {
            tok.check();
            reduce(l, r)
        }
    }};
}

// ---------------------------------------------------------------- the operations of the library

async fn x_transform_ma(op: &Op, l: &MA, cx: Cx, ps: ParallelismStrategy) -> (MA, Red) {
    let tok = Tok::new();
    l.transform(red!(tok), m_single!(op, cx, tok, LEFT, KeyA, ValA), ps).await
}
async fn x_transform_mb(op: &Op, l: &MB, cx: Cx, ps: ParallelismStrategy) -> (MB, Red) {
    let tok = Tok::new();
    l.transform(red!(tok), m_single!(op, cx, tok, LEFT, KeyB, ValB), ps).await
}
async fn x_transform_sa(op: &Op, l: &SA, cx: Cx, ps: ParallelismStrategy) -> (SA, Red) {
    let tok = Tok::new();
    l.transform(red!(tok), s_single!(op, cx, tok, LEFT, KeyA), ps).await
}
async fn x_transmute_ab(op: &Op, l: &MA, cx: Cx, _: ParallelismStrategy) -> (MB, Red) {
    let tok = Tok::new();
    unsafe { l.transmute(red!(tok), m_convert!(op, cx, tok, LEFT, KeyA, ValA, KeyB, ValB)) }
}
async fn x_transmute_ba(op: &Op, l: &MB, cx: Cx, _: ParallelismStrategy) -> (MA, Red) {
    let tok = Tok::new();
    unsafe { l.transmute(red!(tok), m_convert!(op, cx, tok, LEFT, KeyB, ValB, KeyA, ValA)) }
}
async fn x_transmute_sab(op: &Op, l: &SA, cx: Cx, _: ParallelismStrategy) -> (SB, Red) {
    let tok = Tok::new();
    unsafe { l.transmute(red!(tok), s_convert!(op, cx, tok, LEFT, KeyA, KeyB)) }
}
async fn x_transmute_sba(op: &Op, l: &SB, cx: Cx, _: ParallelismStrategy) -> (SA, Red) {
    let tok = Tok::new();
    unsafe { l.transmute(red!(tok), s_convert!(op, cx, tok, LEFT, KeyB, KeyA)) }
}
async fn x_joint_ma(op: &Op, l: &MA, r: &MA, cx: Cx, ps: ParallelismStrategy) -> (MA, Red) {
    let tok = Tok::new();
    l.transform_with_transformed(r, red!(tok), m_joint!(op, cx, tok, KeyA, ValA), m_single!(op, cx, tok, LEFT, KeyA, ValA), m_single!(op, cx, tok, RIGHT, KeyA, ValA), ps).await
}
async fn x_joint_sa(op: &Op, l: &SA, r: &SA, cx: Cx, ps: ParallelismStrategy) -> (SA, Red) {
    let tok = Tok::new();
    l.transform_with_transformed(r, red!(tok), s_joint!(op, cx, tok, KeyA), s_single!(op, cx, tok, LEFT, KeyA), s_single!(op, cx, tok, RIGHT, KeyA), ps).await
}
async fn x_twtm_m(op: &Op, l: &MA, r: &MB, cx: Cx, ps: ParallelismStrategy) -> (MA, Red) {
    let tok = Tok::new();
    unsafe { l.transform_with_transmuted(r, red!(tok), m_both!(op, cx, tok, KeyA, ValA, KeyB, ValB, ValA, L), m_single!(op, cx, tok, LEFT, KeyA, ValA), m_convert!(op, cx, tok, RIGHT, KeyB, ValB, KeyA, ValA), ps).await }
}
async fn x_twtm_s(op: &Op, l: &SA, r: &SB, cx: Cx, ps: ParallelismStrategy) -> (SA, Red) {
    let tok = Tok::new();
    unsafe { l.transform_with_transmuted(r, red!(tok), s_both!(op, cx, tok, KeyA, KeyB), s_single!(op, cx, tok, LEFT, KeyA), s_convert!(op, cx, tok, RIGHT, KeyB, KeyA), ps).await }
}
async fn x_tmwt_m(op: &Op, l: &MA, r: &MB, cx: Cx, ps: ParallelismStrategy) -> (MB, Red) {
    let tok = Tok::new();
    unsafe { l.transmute_with_transformed(r, red!(tok), m_both!(op, cx, tok, KeyA, ValA, KeyB, ValB, ValB, R), m_convert!(op, cx, tok, LEFT, KeyA, ValA, KeyB, ValB), m_single!(op, cx, tok, RIGHT, KeyB, ValB), ps).await }
}
async fn x_tmwt_s(op: &Op, l: &SA, r: &SB, cx: Cx, ps: ParallelismStrategy) -> (SB, Red) {
    let tok = Tok::new();
    unsafe { l.transmute_with_transformed(r, red!(tok), s_both!(op, cx, tok, KeyA, KeyB), s_convert!(op, cx, tok, LEFT, KeyA, KeyB), s_single!(op, cx, tok, RIGHT, KeyB), ps).await }
}
async fn x_twtf(op: &Op, l: &MA, r: &MC, cx: Cx, ps: ParallelismStrategy) -> (MA, Red) {
    let tok = Tok::new();
    l.transform_with_transfuted(r, red!(tok), m_both!(op, cx, tok, KeyA, ValA, KeyA, ValB, ValA, L), m_single!(op, cx, tok, LEFT, KeyA, ValA), f_convert!(op, cx, tok, RIGHT, KeyA, ValB, ValA), ps).await
}
async fn x_tfwt(op: &Op, l: &MA, r: &MC, cx: Cx, ps: ParallelismStrategy) -> (MC, Red) {
    let tok = Tok::new();
    l.transfute_with_transformed(r, red!(tok), m_both!(op, cx, tok, KeyA, ValA, KeyA, ValB, ValB, R), f_convert!(op, cx, tok, LEFT, KeyA, ValA, ValB), m_single!(op, cx, tok, RIGHT, KeyA, ValB), ps).await
}
async fn x_tmtm_m(op: &Op, l: &MA, r: &MB, cx: Cx, _: ParallelismStrategy) -> (MC, Red) {
    let tok = Tok::new();
    unsafe { l.transmute_with_transmuted(r, red!(tok), m_tm_both!(op, cx, tok, KeyA, ValA, KeyB, ValB, KeyA, ValB), m_convert!(op, cx, tok, LEFT, KeyA, ValA, KeyA, ValB), m_convert!(op, cx, tok, RIGHT, KeyB, ValB, KeyA, ValB)) }
}
async fn x_tmtm_s(op: &Op, l: &SA, r: &SB, cx: Cx, _: ParallelismStrategy) -> (SA, Red) {
    let tok = Tok::new();
    unsafe { l.transmute_with_transmuted(r, red!(tok), s_tm_both!(op, cx, tok, KeyA, KeyB, KeyA), s_convert!(op, cx, tok, LEFT, KeyA, KeyA), s_convert!(op, cx, tok, RIGHT, KeyB, KeyA)) }
}

// ---------------------------------------------------------------- driving one bulk operation

macro_rules! digest {
    ($r:expr) => {{
        let (c, r): (_, Red) = $r;
        let d = (r.n, r.s);
        discard(r);
        (c, d)
    }};
}

macro_rules! bulk {
    ($op:expr, $retry:expr, $kind:expr, $cat:expr, $L:ty, $R:ty, $O:ty, |$o:ident, $l:ident, $r:ident, $cx:ident, $ps:ident| $call:expr, $same:expr) => {{
        let op: Op = $op;
        let what = KNAMES[op.k as usize];
        let set = <$L as Coll>::SET;
        let (lv, lh) = take::<$L>(op.s1);
        let rv;
        let rh;
        let (mr, ar) = match stringify!($R) {
            "()" => {
                rv = None;
                rh = None;
                (Rc::new(Model::new()), Rc::new(Addrs::new()))
            }
            _ => {
                let (a, b) = $same(op.s2);
                let x = side_models(&a);
                rv = Some(a);
                rh = Some(b);
                x
            }
        };
        let w = want(&op, $kind, set, &lv.m, &lv.a, &mr, &ar);
        logline(|| format!("client {} op {}: {} {} (left register {}: {} entries; right register {}: {} entries; largest hash group {}; {}){}", sim().cur, sim().cli[sim().cur].opno, what, <$L as Coll>::NAME, op.s1, lv.m.len(), op.s2, mr.len(), w.gmax, if op.f & F_PAR != 0 { "MiddleIndex" } else { "Sequential" }, if $retry { " [retry]" } else { "" }));
        let mut ctx = Box::new(OpCtx { op: op.clone(), kind: $kind, set, calls: Vec::new(), mute: false });
        let $cx = Cx(&mut *ctx as *mut OpCtx);
        let $ps = if op.f & F_PAR != 0 { ParallelismStrategy::MiddleIndex } else { ParallelismStrategy::Sequential };
        let budget = cb_budget(lv.m.len(), mr.len(), w.gmax);
        let res = {
            let $o = &op;
            let $l = &lh;
            let $r = &rh;
            InLib::new($cat, budget, Box::pin(async move { $call.await })).await
        };
        let cost = sim().cli[sim().cur].last;
        cost_bulk(what, &op, $kind, $cat, cost, lv.m.len(), mr.len(), w.gmax);
        let (c, red) = digest!(res);
        if op.f & F_CMP != 0 {
            let mut ctx2 = Box::new(OpCtx { op: op.clone(), kind: $kind, set, calls: Vec::new(), mute: true });
            let $cx = Cx(&mut *ctx2 as *mut OpCtx);
            let $ps = ParallelismStrategy::Sequential;
            let $o = &op;
            let $l = &lh;
            let $r = &rh;
            let solo = run_quiet(Box::pin(async move { $call.await })).map(|(c2, r2): ($O, Red)| {
                let _q = quiet();
                let d = (r2.n, r2.s);
                drop(r2);
                (c2, d)
            });
            compare_solo($cat, &w, &c, red, solo, what);
        }
        let n: Option<Rc<Ver<$O>>> = finish(&op, $cat, $retry, &w, &mut ctx, c, red, what);
        if let Some(n) = n {
            if $kind == Kind::Transform && w.noop {
                noop_check(&n, &lv, what);
            }
            after_bulk(&op, n);
        }
        discard(lh);
        discard(rh);
        discard(lv);
        discard(rv);
    }};
}

/// What a bulk operation may cost: constants are not applied entry by entry, and where both sides' outcomes
/// are constants only the paths of the smaller side count.
fn cost_bulk(what: &str, op: &Op, kind: Kind, cat: Cat, c: [u64; 4], l: usize, r: usize, gm: usize) {
    let lb = WORLDS[sim().world as usize].1;
    let (all, gm) = (full_levels(), gm as u64);
    let joint = kind != Kind::Transform && kind != Kind::Transmute;
    let mut n = 1 + l.min(r) as u64;
    if wrapped(op) || constant(op, kind, LEFT).is_none() { n += l as u64 }
    if joint && (wrapped(op) || constant(op, kind, RIGHT).is_none()) { n += r as u64 }
    let bad = |t: String| viol_cat(Class::Cost, cat, &format!("{} over {} and {} entries (constant outcomes: left {:?}, right {:?}): {}", what, l, r, constant(op, kind, LEFT), if joint { constant(op, kind, RIGHT) } else { None }, t));
    let children = (l.max(r) as u64).min(all << lb);
    if c[0] > 4 * n * (all + 2) { bad(format!("{} keys were hashed", c[0])) }
    if c[1] > 4 * n * (gm + 4) { bad(format!("{} keys were compared", c[1])) }
    if c[2] > n * (8 * (all + 2) + 6 * gm + if joint { 4 * children } else { 0 }) { bad(format!("{} blocks of memory were allocated", c[2])) }
    if c[3] > 4 * n * (gm + 4) { bad(format!("{} keys and values were cloned", c[3])) }
}
fn side_models<C: Coll>(v: &Rc<Ver<C>>) -> (Rc<Model>, Rc<Addrs>) {
    (v.m.clone(), v.a.clone())
}
fn noop_check<A: Coll, B: Coll>(n: &Rc<Ver<A>>, l: &Rc<Ver<B>>, what: &str) {
    // the two types are the same whenever this is reached
    let n = n as *const Rc<Ver<A>> as *const Rc<Ver<B>>;
    let n: &Rc<Ver<B>> = unsafe { &*n };
    if std::any::TypeId::of::<A>() == std::any::TypeId::of::<B>() && !check_eq::<B>(n, l) {
        viol_cat(Class::EqUnsound, if B::SET { Cat::SetSingle } else { Cat::MapSingle }, &format!("{}: every entry was left unchanged but the result does not equal its source", what));
    }
}
fn after_bulk<C: Coll>(op: &Op, n: Rc<Ver<C>>) {
    after::<C>(op, &[], n)
}
fn none(_: u8) -> (Rc<Ver<MA>>, MA) {
    unreachable!()
}

async fn bulk(op: Op, retry: bool) {
    let set = op.t & 4 != 0;
    let var = op.t & 1;
    match (op.k, set, var) {
        (K_TRANSFORM, false, 0) => bulk!(op, retry, Kind::Transform, Cat::MapSingle, MA, (), MA, |o, l, r, cx, ps| { let _ = r; x_transform_ma(o, l, cx, ps) }, none),
        (K_TRANSFORM, false, _) => bulk!(op, retry, Kind::Transform, Cat::MapSingle, MB, (), MB, |o, l, r, cx, ps| { let _ = r; x_transform_mb(o, l, cx, ps) }, none),
        (K_TRANSFORM, true, _) => bulk!(op, retry, Kind::Transform, Cat::SetSingle, SA, (), SA, |o, l, r, cx, ps| { let _ = r; x_transform_sa(o, l, cx, ps) }, none),
        (K_TRANSMUTE, false, 0) => bulk!(op, retry, Kind::Transmute, Cat::MapSingle, MA, (), MB, |o, l, r, cx, ps| { let _ = r; x_transmute_ab(o, l, cx, ps) }, none),
        (K_TRANSMUTE, false, _) => bulk!(op, retry, Kind::Transmute, Cat::MapSingle, MB, (), MA, |o, l, r, cx, ps| { let _ = r; x_transmute_ba(o, l, cx, ps) }, none),
        (K_TRANSMUTE, true, 0) => bulk!(op, retry, Kind::Transmute, Cat::SetSingle, SA, (), SB, |o, l, r, cx, ps| { let _ = r; x_transmute_sab(o, l, cx, ps) }, none),
        (K_TRANSMUTE, true, _) => bulk!(op, retry, Kind::Transmute, Cat::SetSingle, SB, (), SA, |o, l, r, cx, ps| { let _ = r; x_transmute_sba(o, l, cx, ps) }, none),
        (K_JOINT, false, _) => bulk!(op, retry, Kind::Joint, Cat::MapJoint, MA, MA, MA, |o, l, r, cx, ps| x_joint_ma(o, l, r.as_ref().unwrap(), cx, ps), take::<MA>),
        (K_JOINT, true, _) => bulk!(op, retry, Kind::Joint, Cat::SetJoint, SA, SA, SA, |o, l, r, cx, ps| x_joint_sa(o, l, r.as_ref().unwrap(), cx, ps), take::<SA>),
        (K_TWTM, false, _) => bulk!(op, retry, Kind::KeepL, Cat::MapMixed, MA, MB, MA, |o, l, r, cx, ps| x_twtm_m(o, l, r.as_ref().unwrap(), cx, ps), take::<MB>),
        (K_TWTM, true, _) => bulk!(op, retry, Kind::KeepL, Cat::SetMixed, SA, SB, SA, |o, l, r, cx, ps| x_twtm_s(o, l, r.as_ref().unwrap(), cx, ps), take::<SB>),
        (K_TMWT, false, _) => bulk!(op, retry, Kind::KeepR, Cat::MapMixed, MA, MB, MB, |o, l, r, cx, ps| x_tmwt_m(o, l, r.as_ref().unwrap(), cx, ps), take::<MB>),
        (K_TMWT, true, _) => bulk!(op, retry, Kind::KeepR, Cat::SetMixed, SA, SB, SB, |o, l, r, cx, ps| x_tmwt_s(o, l, r.as_ref().unwrap(), cx, ps), take::<SB>),
        (K_TWTF, _, _) => bulk!(op, retry, Kind::KeepLF, Cat::MapMixed, MA, MC, MA, |o, l, r, cx, ps| x_twtf(o, l, r.as_ref().unwrap(), cx, ps), take::<MC>),
        (K_TFWT, _, _) => bulk!(op, retry, Kind::KeepRF, Cat::MapMixed, MA, MC, MC, |o, l, r, cx, ps| x_tfwt(o, l, r.as_ref().unwrap(), cx, ps), take::<MC>),
        (K_TMTM, false, _) => bulk!(op, retry, Kind::Tm, Cat::MapMixed, MA, MB, MC, |o, l, r, cx, ps| x_tmtm_m(o, l, r.as_ref().unwrap(), cx, ps), take::<MB>),
        (K_TMTM, true, _) => bulk!(op, retry, Kind::Tm, Cat::SetMixed, SA, SB, SA, |o, l, r, cx, ps| x_tmtm_s(o, l, r.as_ref().unwrap(), cx, ps), take::<SB>),
        _ => {}
    }
}

pub fn make_bulk(op: &Op, retry: bool) -> Pin<Box<dyn Future<Output = ()>>> {
    Box::pin(bulk(op.clone(), retry))
}

pub fn simple(op: &Op, retry: bool) {
    match op.t % 5 {
        TY_MA => simple_op::<MA>(op, retry),
        TY_MB => simple_op::<MB>(op, retry),
        TY_MC => simple_op::<MC>(op, retry),
        TY_SA => simple_op::<SA>(op, retry),
        _ => simple_op::<SB>(op, retry),
    }
}

pub fn init_reg(i: &Init) {
    match i.t % 5 {
        TY_MA => fill::<MA>(i.r, i.r, i.seed, i.n),
        TY_MB => fill::<MB>(i.r, i.r, i.seed, i.n),
        TY_MC => fill::<MC>(i.r, i.r, i.seed, i.n),
        TY_SA => fill::<SA>(i.r, i.r, i.seed, i.n),
        _ => fill::<SB>(i.r, i.r, i.seed, i.n),
    }
}

pub fn verify_all(what: &str) {
    verify_store::<MA>(what);
    verify_store::<MB>(what);
    verify_store::<MC>(what);
    verify_store::<SA>(what);
    verify_store::<SB>(what);
    check_held();
}

pub fn open() {
    let w = {
        let _g = enter(Cat::None, u64::MAX, bytes());
        World { ma: Store::fresh(), mb: Store::fresh(), mc: Store::fresh(), sa: Store::fresh(), sb: Store::fresh() }
    };
    unsafe {
        WORLD = Box::into_raw(Box::new(w));
    }
}

pub fn close() {
    let w = unsafe { Box::from_raw(WORLD) };
    discard(w);
    unsafe { WORLD = core::ptr::null_mut() };
}

pub fn state_digest() -> u64 {
    let mut h = 1u64;
    tick_regs::<MA>(&mut h);
    tick_regs::<MB>(&mut h);
    tick_regs::<MC>(&mut h);
    tick_regs::<SA>(&mut h);
    tick_regs::<SB>(&mut h);
    h
}

/// The library's hash of a key, used only to know which keys share one.
pub fn lib_hash(id: u32) -> u64 {
    let k = KeyA::new(id, 0);
    let h: H = <Hs as HasherBv<H, KeyA>>::hash(&Hs::default(), &k);
    h.fold()
}


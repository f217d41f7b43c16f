//! Instrumented keys, values, reductions and hasher: every call the library makes into user code is a seam.
use crate::sim::{note_clone, seam, sim, viol, Class, Seam};
use hash_trie::traits::{HashLike, HasherBv};
use std::fmt;
use std::hash::{Hash, Hasher};

const ALIVE: u64 = 0x600d_c0de_0000_0000;
const DEAD: u64 = 0x0bad_dead_0000_0000;

/// One live, countable object of a kind. Dropping it twice, dropping garbage or never dropping it shows.
pub struct Tracked(u64);
pub const T_KEYA: usize = 0;
pub const T_KEYB: usize = 1;
pub const T_VALA: usize = 2;
pub const T_VALB: usize = 3;
pub const T_RED: usize = 4;

impl Tracked {
    pub fn new(kind: usize) -> Self {
        sim().live[kind] += 1;
        Tracked(ALIVE | kind as u64)
    }
    #[inline]
    pub fn check(&self, kind: usize) {
        if self.0 != ALIVE | kind as u64 {
            viol(Class::Mem, if self.0 == DEAD | kind as u64 { "the library used an object it had already dropped" } else { "the library used memory that holds no object (freed or never initialised)" });
        }
    }
    pub fn ok(&self, kind: usize) -> bool {
        self.0 == ALIVE | kind as u64
    }
    fn drop_now(&mut self, kind: usize) {
        if self.0 == ALIVE | kind as u64 {
            self.0 = DEAD | kind as u64;
            sim().live[kind] -= 1;
        } else {
            viol(Class::Mem, "an object was dropped twice, or memory that holds no object was dropped");
        }
    }
}

macro_rules! key_type {
    ($name:ident, $kind:expr) => {
        pub struct $name {
            pub id: u32,
            pub tag: u32,
            pub t: Tracked,
        }
        impl $name {
            pub fn new(id: u32, tag: u32) -> Self {
                $name { id, tag, t: Tracked::new($kind) }
            }
            #[inline]
            pub fn check(&self) {
                self.t.check($kind)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                self.check();
                seam(Seam::CloneK);
                note_clone(true, self.id as u64);
                Self::new(self.id, self.tag)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                self.t.drop_now($kind);
                seam(Seam::Drop);
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::new(0, 0)
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}#{}", self.id, self.tag)
            }
        }
        impl Hash for $name {
            fn hash<S: Hasher>(&self, s: &mut S) {
                self.check();
                seam(Seam::Hash);
                s.write_u32(self.id)
            }
        }
        impl Eq for $name {}
    };
}
key_type!(KeyA, T_KEYA);
key_type!(KeyB, T_KEYB);

macro_rules! key_eq {
    ($a:ident, $b:ident) => {
        impl PartialEq<$b> for $a {
            fn eq(&self, o: &$b) -> bool {
                self.check();
                o.check();
                seam(Seam::Eq);
                self.id == o.id
            }
        }
    };
}
key_eq!(KeyA, KeyA);
key_eq!(KeyA, KeyB);
key_eq!(KeyB, KeyA);
key_eq!(KeyB, KeyB);
impl HashLike<KeyA> for KeyB {}
impl HashLike<KeyB> for KeyA {}
impl From<KeyB> for KeyA {
    fn from(k: KeyB) -> KeyA {
        k.check();
        seam(Seam::Into);
        KeyA::new(k.id, k.tag)
    }
}
impl From<KeyA> for KeyB {
    fn from(k: KeyA) -> KeyB {
        k.check();
        seam(Seam::Into);
        KeyB::new(k.id, k.tag)
    }
}

macro_rules! val_type {
    ($name:ident, $kind:expr) => {
        pub struct $name {
            pub p: u64,
            pub t: Tracked,
        }
        impl $name {
            pub fn new(p: u64) -> Self {
                $name { p, t: Tracked::new($kind) }
            }
            #[inline]
            pub fn check(&self) {
                self.t.check($kind)
            }
        }
        impl Clone for $name {
            fn clone(&self) -> Self {
                self.check();
                seam(Seam::CloneV);
                note_clone(false, self.p);
                Self::new(self.p)
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                self.t.drop_now($kind);
                seam(Seam::Drop);
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                write!(f, "{}", self.p)
            }
        }
    };
}
val_type!(ValA, T_VALA);
val_type!(ValB, T_VALB);
impl From<ValB> for ValA {
    fn from(k: ValB) -> ValA {
        k.check();
        seam(Seam::Into);
        ValA::new(k.p)
    }
}
impl From<ValA> for ValB {
    fn from(k: ValA) -> ValB {
        k.check();
        seam(Seam::Into);
        ValB::new(k.p)
    }
}

/// Contributions: an associative and commutative multiset digest.
pub struct Red {
    pub n: u64,
    pub s: u64,
    pub t: Tracked,
}
impl Red {
    pub fn new(n: u64, s: u64) -> Red {
        Red { n, s, t: Tracked::new(T_RED) }
    }
}
impl Clone for Red {
    fn clone(&self) -> Red {
        self.t.check(T_RED);
        seam(Seam::RedClone);
        Red::new(self.n, self.s)
    }
}
impl Default for Red {
    fn default() -> Red {
        seam(Seam::Default_);
        Red::new(0, 0)
    }
}
impl Drop for Red {
    fn drop(&mut self) {
        self.t.drop_now(T_RED);
        seam(Seam::Drop);
    }
}
pub fn reduce(l: &Red, r: &Red) -> Red {
    l.t.check(T_RED);
    r.t.check(T_RED);
    seam(Seam::Reduce);
    Red::new(l.n.wrapping_add(r.n), l.s.wrapping_add(r.s))
}

/// Cloned with every operation the library clones: user closures may own data.
pub struct Tok(Tracked);
impl Tok {
    pub fn new() -> Tok {
        Tok(Tracked::new(T_RED))
    }
    pub fn check(&self) {
        self.0.check(T_RED)
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        self.check();
        seam(Seam::RedClone);
        Tok::new()
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.0.drop_now(T_RED);
    }
}

/// The hasher: an ordinary 64-bit hasher whose output is chosen by the scenario.
#[derive(Default, Clone, Debug, PartialEq, Eq)]
pub struct Hs(u64);
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
    fn write_u32(&mut self, id: u32) {
        let t = &sim().htab;
        self.0 = if (id as usize) < t.len() { t[id as usize] } else { crate::sim::mix1(id as u64) };
    }
}

/// What identifies a hash value, for hash words of every width.
pub trait Fold {
    fn fold(self) -> u64;
}
macro_rules! fold {
    ($($t:ty)*) => { $(impl Fold for $t { fn fold(self) -> u64 { self as u64 } })* };
}
fold!(u8 u16 u32 u64 usize);
impl Fold for u128 {
    fn fold(self) -> u64 {
        (self >> 64) as u64
    }
}
fn hash64<V: Hash>(v: &V) -> u64 {
    let mut h = Hs::default();
    v.hash(&mut h);
    h.finish()
}
/// Widths the library brings no hasher for: the user implements the hasher trait.
macro_rules! own_hasher {
    ($k:ty) => {
        impl HasherBv<u128, $k> for Hs {
            fn hash(&self, v: &$k) -> u128 {
                let h = hash64(v) as u128;
                let c = sim().htab.len() as u128;
                h << 64 | if c % 2 == 0 { c.wrapping_mul(0x9e37_79b9_7f4a_7c15) as u64 as u128 } else { h }
            }
        }
        impl HasherBv<usize, $k> for Hs {
            fn hash(&self, v: &$k) -> usize {
                hash64(v) as usize
            }
        }
    };
}
own_hasher!(KeyA);
own_hasher!(KeyB);

/// Every ordinary hasher must be usable with every hash width the library brings hashers for.
pub fn stdh<H, F>(seed: u64) -> Result<(), String>
where
    H: hash_trie::traits::Hashword,
    F: hash_trie::traits::Flagword<H>,
    <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug,
    fnv::FnvHasher: HasherBv<H, u64>,
    std::collections::hash_map::DefaultHasher: HasherBv<H, String>,
{
    let mut m = hash_trie::HashTrieMap::<H, F, u64, u64, fnv::FnvHasher>::new();
    let mut d = hash_trie::HashTrieMap::<H, F, String, u64, std::collections::hash_map::DefaultHasher>::new();
    for i in 0..8u64 {
        let k = crate::sim::mix(&[seed, i]);
        m = m.insert(k, i, true).map_err(|_| "refused".to_string())?.0;
        d = d.insert(format!("{:x}", k), i, true).map_err(|_| "refused".to_string())?.0;
        if m.find(&k).map(|x| *x.1) != Ok(i) || d.find(&format!("{:x}", k)).map(|x| *x.1) != Ok(i) {
            return Err("a key just inserted is not found".into());
        }
    }
    if m.size() != 8 || d.size() != 8 {
        return Err("wrong size".into());
    }
    Ok(())
}

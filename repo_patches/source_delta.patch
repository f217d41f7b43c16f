From 58d6cc06086f1e0382162a1d997d62cda1e5db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 1/7] sim: guarded yield points in the asynchronous bulk
 operations (cfg hash_trie_sim, off by default)

---
 src/lib.rs        |  3 +++
 src/node/mnode.rs | 16 ++++++++++++++++
 src/sim.rs        | 27 +++++++++++++++++++++++++++
 3 files changed, 46 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/lib.rs b/src/lib.rs
index e447cf9..091f5b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![cfg_attr(not(test), no_std)]
+#![allow(unexpected_cfgs)]
 
 #[allow(unused_imports)]
 #[macro_use]
@@ -13,6 +14,8 @@ mod hash_trie;
 mod map;
 mod node;
 mod set;
+#[cfg(hash_trie_sim)]
+pub mod sim;
 pub mod traits;
 pub mod transformations;
 
diff --git a/src/node/mnode.rs b/src/node/mnode.rs
index 4e01b3d..30ba852 100644
--- a/src/node/mnode.rs
+++ b/src/node/mnode.rs
@@ -66,6 +66,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         Op: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             Self::C(cnode) => cnode::transform(cnode, reduce_op, op, par_strat).await,
             Self::L(lnode) => lnode::transform(lnode, reduce_op, op).into(),
@@ -99,6 +101,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         RightOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transform_with_transformed(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transform_with_transformed(lnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
@@ -120,6 +124,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         M: HasherBv<H, L>,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transform_with_transmuted(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transform_with_transmuted(lnode, right, reduce_op, both_op, left_op, right_op, depth),
@@ -141,6 +147,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         M: HasherBv<H, L>,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transmute_with_transformed(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transmute_with_transformed(lnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
@@ -183,6 +191,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         RightOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transform_with_transformed_lnode(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transform_with_transformed_lnode(lnode, right, reduce_op, both_op, left_op, right_op, depth),
@@ -204,6 +214,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         M: HasherBv<H, L>,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transform_with_transmuted_lnode(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transform_with_transmuted_lnode(lnode, right, reduce_op, both_op, left_op, right_op, depth),
@@ -267,6 +279,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         RightOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transform_with_transformed_snode(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transform_with_transformed_snode(lnode, right, reduce_op, both_op, left_op, right_op, depth),
@@ -288,6 +302,8 @@ impl <H: Hashword, F: Flagword<H>, K: Key, V: Value, M: HasherBv<H, K>> MNode<H,
         M: HasherBv<H, L>,
         <F as core::convert::TryFrom<<H as core::ops::BitAnd>::Output>>::Error: core::fmt::Debug
     {
+        #[cfg(hash_trie_sim)]
+        crate::sim::YieldPoint.await;
         match self {
             MNode::C(cnode) => cnode::transform_with_transmuted_snode(cnode, right, reduce_op, both_op, left_op, right_op, depth, par_strat).await,
             MNode::L(lnode) => lnode::transform_with_transmuted_snode(lnode, right, reduce_op, both_op, left_op, right_op, depth),
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..1cc78ef
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,27 @@
+//! Scheduling seam for deterministic simulation. Compiled only with `--cfg hash_trie_sim`.
+
+use core::{future::Future, pin::Pin, sync::atomic::{AtomicUsize, Ordering}, task::{Context, Poll}};
+
+static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Install the function that decides, each time a yield point is polled, whether it stays pending.
+pub fn set_yield_hook(hook: fn() -> bool) {
+    HOOK.store(hook as usize, Ordering::SeqCst);
+}
+
+pub(crate) struct YieldPoint;
+
+impl Future for YieldPoint {
+    type Output = ();
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        let hook = HOOK.load(Ordering::SeqCst);
+        if hook != 0 && unsafe { core::mem::transmute::<usize, fn() -> bool>(hook) }() {
+            cx.waker().wake_by_ref();
+            Poll::Pending
+        }
+        else {
+            Poll::Ready(())
+        }
+    }
+}
-- 
2.43.0


From 9b68faf9a82d93f5388aca409f8a0f59f124dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 2/7] fix: do not shift a hash value by its whole width at the
 last level of the trie

---
 src/flag.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/flag.rs b/src/flag.rs
index eaa1e56..36555c3 100644
--- a/src/flag.rs
+++ b/src/flag.rs
@@ -20,14 +20,16 @@ impl <H: Hashword, F: Flagword<H>> Flag<H, F> where <F as core::convert::TryFrom
 
     #[must_use]
     pub(crate) fn new_at_depth(hash_value: H, depth: usize) -> Option<Self> {
-        if depth * F::log_b() >= 8 * <H>::max_ones() {
+        let shift = depth * F::log_b();
+        // One level below the last bits of the hash value is still legal: Only keys with equal hash values meet there.
+        if shift >= <H>::max_ones() + F::log_b() {
             None
         }
         else {
             Some(Flag {
                 hash_value: hash_value.clone(),
                 depth: depth,
-                flag: F::nth_bit(F::try_from(H::from(hash_value.shr(depth * F::log_b())).bitand(F::mask_log_b())).unwrap().as_usize()).unwrap()
+                flag: F::nth_bit(F::try_from(H::from(hash_value.shr(core::cmp::min(shift, <H>::max_ones() - 1))).bitand(F::mask_log_b())).unwrap().as_usize()).unwrap()
             })
         }
     }
-- 
2.43.0


From 46ec89e85a04b59b81c13cb5b7fceca6c6c48fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 3/7] fix: truncate 64-bit hasher output for narrower hash
 words instead of panicking

---
 src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/traits.rs b/src/traits.rs
index 1aef9a0..a6b833c 100644
--- a/src/traits.rs
+++ b/src/traits.rs
@@ -1,6 +1,6 @@
 use crate::results::BitError;
 use alloc::fmt::Debug;
-use core::{convert::{TryFrom, TryInto}, hash::{Hash, Hasher}, mem, ops::*};
+use core::{convert::TryFrom, hash::{Hash, Hasher}, mem, ops::*};
 
 macro_rules! bit_count_one {
     ( $bit:expr) => {
@@ -256,7 +256,7 @@ macro_rules! hasher_bv_impl {
             fn hash(&self, value: &V) -> $type {
                 let mut hasher = H::default();
                 value.hash(&mut hasher);
-                hasher.finish().try_into().unwrap()
+                hasher.finish() as $type
             }
         }
     };
-- 
2.43.0


From 3dbb46b12f700d7e2273bc02ee8f294eb35e04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 4/7] fix: advance along the right collision chain when
 collecting its entries

---
 src/node/lnode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index f873bef..3ba1131 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -308,7 +308,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
@@ -446,7 +446,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
@@ -567,7 +567,7 @@ where
             match &r.next {
                 LNodeNext::L(lnode) => {
                     rights.push((&lnode.key, &lnode.value));
-                    r = right;
+                    r = lnode;
                 },
                 LNodeNext::S(snode) => {
                     rights.push((snode.key(), snode.value()));
-- 
2.43.0


From 31d10f18156ac3921e284ec3dc634de208f1a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 5/7] fix: keep the right entry, not the left chain, when only
 the right entry of a collision stays

In a joint transformation of a collision chain with a single node, a chain tail
replaced by the right node was answered with the whole left chain appended to
the right entry: keys were duplicated and removed entries came back.
---
 src/node/lnode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 3ba1131..378707b 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -1091,7 +1091,7 @@ where
     match result {
         MapTransformResult::Unchanged(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(that.key().clone(), that.value().clone(), LNodeNext::L(this.clone())), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(that.clone())), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
-- 
2.43.0


From f82f612df59885d8cb14e869562d133ba04b5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 6/7] fix: pair each entry of a collision chain with its own
 right entry in joint transformations

The right entry of the chain's head and the one of its tail were mixed up: the
result took the tail's right entry (or none, and panicked) where the head's was
meant, lost the tail when the right one was kept, and dropped a transformed head.
---
 src/node/lnode.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/node/lnode.rs b/src/node/lnode.rs
index 378707b..b384167 100644
--- a/src/node/lnode.rs
+++ b/src/node/lnode.rs
@@ -391,15 +391,16 @@ where
     LeftOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
     RightOp: Fn(&K, &V) -> MapTransformResult<V, ReduceT> + Clone + Send + Sync,
 {
-    let mut next_node = None;
-
     let next = match &this.next {
         LNodeNext::L(lnode) => transform_with_transformed_lnode_impl(lnode, rights, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone()),
         LNodeNext::S(snode) => {
             match rights.iter().position(|key_value| *snode.key() == *key_value.0).map(|index| rights.swap_remove(index)) {
                 Some((right_key, right_value)) => {
-                    next_node = Some((right_key, right_value));
-                    snode::transform_with_transformed_snode_impl(snode, &SNode::new(right_key.clone(), right_value.clone()), reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone())
+                    let right_node = SNode::new(right_key.clone(), right_value.clone());
+                    match snode::transform_with_transformed_snode_impl(snode, &right_node, reduce_op.clone(), both_op.clone(), left_op.clone(), right_op.clone()) {
+                        LNodeJointTransformResult::UnchangedR(reduced) => LNodeJointTransformResult::S(right_node, reduced),
+                        result => result,
+                    }
                 },
                 None => match snode::transform(snode, left_op.clone()) {
                     SNodeTransformResult::Unchanged(reduced) => LNodeJointTransformResult::UnchangedL(reduced),
@@ -410,7 +411,9 @@ where
         },
     };
 
-    let result = match rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index)) {
+    let that = rights.iter().position(|key_value| this.key == *key_value.0).map(|index| rights.swap_remove(index));
+
+    let result = match that {
         Some((right_key, right_value)) => both_op.call(&this.key, &this.value, right_key, right_value),
         None => match left_op.call(&this.key, &this.value) {
             MapTransformResult::Unchanged(reduced) => MapJointTransformResult::UnchangedL(reduced),
@@ -419,7 +422,7 @@ where
         },
     };
 
-    joint_transform_with_joint_transformed_result(this, result, next_node, next, reduce_op)
+    joint_transform_with_joint_transformed_result(this, result, that, next, reduce_op)
 }
 
 pub(crate) unsafe fn transform_with_transmuted_lnode<H: Hashword, F: Flagword<H>, K: Key, V: Value, L: Key, W: Value, M: HasherBv<H, K>, ReduceT, ReduceOp, BothOp, LeftOp, RightOp>(this: &Arc<LNode<K, V>>, right: &Arc<LNode<L, W>>, reduce_op: ReduceOp, both_op: MapTransform<ReduceT, BothOp>, left_op: MapTransform<ReduceT, LeftOp>, right_op: MapTransmute<ReduceT, RightOp>, depth: usize) -> MNodeTransformResult<H, F, K, V, M, ReduceT>
@@ -978,28 +981,28 @@ where
         MapJointTransformResult::UnchangedLR(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) => LNodeJointTransformResult::UnchangedLR(reduce_op(&lr, &rr)),
             LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Never produced for a part of a chain
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::UnchangedL(lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::UnchangedL(reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Never produced for a part of a chain
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), this.value.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::UnchangedR(lr) => match next {
-            LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), this.next.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), this.next.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Never produced for a part of a chain
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone(), LNodeNext::S(snode)), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::UnchangedR(reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()), reduce_op(&lr, &rr)),
         },
         MapJointTransformResult::Transformed(lv, lr) => match next {
             LNodeJointTransformResult::UnchangedLR(rr) | LNodeJointTransformResult::UnchangedL(rr) => LNodeJointTransformResult::L(LNode::new(this.key().clone(), lv, this.next.clone()), reduce_op(&lr, &rr)),
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), this.value.clone(), LNodeNext::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()))), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Never produced for a part of a chain
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::L(lnode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::L(LNode::new(this.key.clone(), lv, LNodeNext::S(snode)), reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::S(SNode::new(this.key.clone(), lv), reduce_op(&lr, &rr)),
@@ -1009,7 +1012,7 @@ where
                 LNodeNext::L(lnode) => LNodeJointTransformResult::L(lnode.clone(), reduce_op(&lr, &rr)),
                 LNodeNext::S(snode) => LNodeJointTransformResult::S(snode.clone(), reduce_op(&lr, &rr)),
             },
-            LNodeJointTransformResult::UnchangedR(rr) => LNodeJointTransformResult::S(SNode::new(that.as_ref().unwrap().0.clone(), that.as_ref().unwrap().1.clone()), reduce_op(&lr, &rr)),
+            LNodeJointTransformResult::UnchangedR(_rr) => panic!(), // Never produced for a part of a chain
             LNodeJointTransformResult::L(lnode, rr) => LNodeJointTransformResult::L(lnode, reduce_op(&lr, &rr)),
             LNodeJointTransformResult::S(snode, rr) => LNodeJointTransformResult::S(snode, reduce_op(&lr, &rr)),
             LNodeJointTransformResult::Removed(rr) => LNodeJointTransformResult::Removed(reduce_op(&lr, &rr)),
-- 
2.43.0


From 58e6b3a5b844ce95ee1d4abe1a4d09072d23c8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:37 +0000
Subject: [PATCH 7/7] fix: exchange left and right when flipping a constant
 joint transformation

Joint transformations run with their operands exchanged (a single node or a
collision chain on the left of a larger map) kept the wrong side's value if the
both-sides operation was the constant UnchangedL or UnchangedR, because only
the result was flipped back.
---
 src/transformations.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index a64ea93..2ff1d5d 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -41,8 +41,8 @@ impl <ReduceT: Clone, F: Clone> MapJointTransform<ReduceT, F> {
         match self {
             Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),
             Self::UnchangedLR(r) => Self::UnchangedLR(r.clone()),
-            Self::UnchangedL(r) => Self::UnchangedL(r.clone()),
-            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedL(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),
             Self::Removed(r) => Self::Removed(r.clone()),
         }
     }
@@ -114,8 +114,8 @@ impl <ReduceT: Clone, F: Clone> SetJointTransform<ReduceT, F> {
         match self {
             Self::Generic(f, flipped) => Self::Generic(f.clone(), !flipped),
             Self::UnchangedLR(r) => Self::UnchangedLR(r.clone()),
-            Self::UnchangedL(r) => Self::UnchangedL(r.clone()),
-            Self::UnchangedR(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedL(r) => Self::UnchangedR(r.clone()),
+            Self::UnchangedR(r) => Self::UnchangedL(r.clone()),
             Self::Removed(r) => Self::Removed(r.clone()),
         }
     }
-- 
2.43.0


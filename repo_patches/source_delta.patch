From 1bbccafd5bebb89ef361c3a08bc6ebcaa4640301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 01/23] fix: keep key-value associations in
 SurjectArena::clone_from_with

The cloned keys used their own index as the value pointer, so in the clone
keys referred to wrong or nonexistent values as soon as a set had more than
one key or the key and value indexes differed.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f7c0679..5bca561 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -754,7 +754,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             let k = map_key(p, &link.t.k);
             Key {
                 k,
-                p_val: Ptr::_from_raw(p.inx(), ()),
+                p_val: link.t.p_val,
             }
         });
         self.vals.clone_from_with(&source.vals, |_, val| {
-- 
2.43.0


From b368a610362bd0eb2db839ee5b913e079dab8964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 02/23] fix: compare against the keys of the other arena in
 SurjectArena equality

Both sides of the key comparison were taken from self, so arenas with
different keys or key sets compared equal.
---
 triple_arena/src/surject/surject_arena.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 5bca561..883f1a3 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -850,7 +850,7 @@ impl<P: Ptr, K: PartialEq, V: PartialEq> PartialEq<SurjectArena<P, K, V>>
                     return false
                 }
                 let key0 = self.keys.get_inx_unwrap(p0.inx());
-                let key1 = self.keys.get_inx_unwrap(p1.inx());
+                let key1 = other.keys.get_inx_unwrap(p1.inx());
                 // make sure not to depend on `p_val`
                 if key0.prev_next() != key1.prev_next() {
                     return false
-- 
2.43.0


From 7f0a8a92b1264aa5717fd52dee5b768cc26eb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 03/23] fix: copy the tree root and end points in
 OrdArena::clone_from_with

Only the nodes were cloned, so lookups, first, last and iteration on the
result started from stale or arbitrary entries.
---
 triple_arena/src/ord/ord_arena.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triple_arena/src/ord/ord_arena.rs b/triple_arena/src/ord/ord_arena.rs
index bf7f28d..2564553 100644
--- a/triple_arena/src/ord/ord_arena.rs
+++ b/triple_arena/src/ord/ord_arena.rs
@@ -491,6 +491,9 @@ impl<P: Ptr, K: Clone, V0> OrdArena<P, K, V0> {
         source: &OrdArena<P, K, V1>,
         mut map: F,
     ) {
+        self.root = source.root;
+        self.first = source.first;
+        self.last = source.last;
         self.a.clone_from_with(&source.a, |p, link| Node {
             k: link.t.k.clone(),
             v: map(p, &link.t.v),
-- 
2.43.0


From e08a9a3649da0f336cfdb8f0b7e56fe04e58ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 04/23] fix: reject stale Ptrs in
 OrdArena::advancer_starting_from

The generation of p_start was ignored, so an invalidated Ptr whose slot had
been reused started an advancer at an unrelated entry instead of returning
only None as documented.
---
 triple_arena/src/ord/ord_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 4575dcd..06511ca 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -213,7 +213,11 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// the next greater entry is _not_ supported during each advancement.
     pub fn advancer_starting_from(&self, p_start: P) -> PtrAdvancer<P, K, V> {
         PtrAdvancer {
-            ptr: Some(p_start.inx()),
+            ptr: if self.contains(p_start) {
+                Some(p_start.inx())
+            } else {
+                None
+            },
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From 26f94bd5f1cedd83af78098fca0974d0ff61ef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 05/23] fix: reject stale Ptrs in
 SurjectArena::advancer_surject

The generation of p_init was ignored. With an invalidated Ptr whose slot had
been reused the advancer walked an unrelated key set, and iter_surject
panicked.
---
 triple_arena/src/surject/surject_iterators.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index cfb3cd4..a16a2d7 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -205,7 +205,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
     pub fn advancer_surject(&self, p_init: P) -> SurjectPtrAdvancer<P, K, V> {
         SurjectPtrAdvancer {
             init: p_init.inx(),
-            ptr: Some(p_init.inx()),
+            ptr: if self.contains(p_init) {
+                Some(p_init.inx())
+            } else {
+                None
+            },
             max_advances: self.len_keys(),
             _boo: PhantomData,
         }
-- 
2.43.0


From a16b64e5cfa9b6f69fdae1d6975b5e23e98dc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 06/23] fix: reject a stale p_next in are_neighbors of the
 chain arenas

Only the index of p_next was compared. A stale p_next was accepted, and
ChainArena::insert then stored it as an interlink, which broke the chain.
---
 triple_arena/src/chain/chain_arena.rs        | 3 ++-
 triple_arena/src/chain/chain_no_gen_arena.rs | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index af2b308..df2310e 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -471,7 +471,8 @@ impl<P: Ptr, T> ChainArena<P, T> {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p.inx() == p_next.inx() {
+                // the generation also needs to be compared, `p_next` could be stale
+                if p == p_next {
                     // `p1` must implicitly exist if the invariants hold
                     are_neighbors = true;
                 }
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index c8ce34c..05219a0 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -387,15 +387,15 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
     /// `self.are_neighbors(p0, p1)` is not necessarily equal to
     /// `self.are_neighbors(p1, p0)` because of the directionality. This
     /// function returns true for the single link cyclic chain case with
-    /// `p0 == p1`. Incurs only one internal lookup because of invariants.
+    /// `p0 == p1`.
     /// Additionally returns `false` if `p_prev` or `p_next` are invalid
     /// `Ptr`s.
     pub fn are_neighbors(&self, p_prev: P, p_next: P) -> bool {
         let mut are_neighbors = false;
         if let Some(l0) = self.a.get(p_prev) {
             if let Some(p) = l0.next() {
-                if p == p_next.inx() {
-                    // `p1` must implicitly exist if the invariants hold
+                // `p_next` could be stale
+                if (p == p_next.inx()) && self.a.contains(p_next) {
                     are_neighbors = true;
                 }
             }
-- 
2.43.0


From 563572ce0afefbff49bfa03d766e07709cf4e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 07/23] fix: clamp capacity doubling in Arena::insert_with

Unlike insert, insert_with did not clamp the doubled capacity to the maximum
of the index type, so it panicked long before the arena was full (at 128
elements for an 8 bit index). This also affected everything built on it.
---
 triple_arena/src/arena/base_arena.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index 38cd671..ce105ed 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -477,8 +477,16 @@ impl<P: Ptr, T> Arena<P, T> {
                 // need at least one
                 additional = 1;
             }
+            // make sure to not make `reserve` panic
+            let new_len = self
+                .len()
+                .saturating_add(additional)
+                .clamp(0, <P::Inx as PtrInx>::max().get());
+            additional = new_len.wrapping_sub(self.len());
             self.reserve(additional);
-            self.freelist_root.unwrap()
+            self.freelist_root.expect(
+                "called `insert_with` on an `Arena<P, T>` with maximum length `P::Inx::max()`",
+            )
         };
         let ptr = P::_from_raw(inx, self.generation());
         self.unwrap_replace_free(inx, self.generation(), create(ptr));
-- 
2.43.0


From 622caae0ea63047dcf81caa5bdadc257a0a4cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 08/23] fix: do not spend one generation per link when
 compressing chains

The old arena is thrown away after compression, but every link moved out of
it incremented its generation, so compression overflowed narrow generation
counters even though it only counts as one invalidation.
---
 triple_arena/src/chain/chain_arena.rs        |  6 +++---
 triple_arena/src/chain/chain_no_gen_arena.rs | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index df2310e..f4634ec 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -769,7 +769,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next().map(|p| p.inx());
@@ -793,7 +793,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next().map(|p| p.inx());
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -820,7 +820,7 @@ impl<P: Ptr, T> ChainArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev().map(|p| p.inx());
                     let t = link.t;
                     let q = new.insert(Link::new((None, Some(q_next)), t));
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 05219a0..4951270 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -724,7 +724,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             // an initial prelude is absolutely required to link up cyclic chains and handle
             // SLCCs
             let p = p_init;
-            let link = self.a.remove(p_init).unwrap();
+            let link = self.a.remove_internal(p_init, false).unwrap();
             let p_init = p_init.inx();
             let mut p_init_prev = None;
             let mut p_next = link.next();
@@ -749,7 +749,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_next = if let Some(p_next) = p_next {
                     let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                     let p = Ptr::_from_raw(p_next, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_next = link.next();
                     let t = link.t;
                     if Some(p_next) == p_init_prev {
@@ -777,7 +777,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 p_prev = if let Some(p_prev) = p_prev {
                     let p_gen = self.a.get_no_gen(p_prev).unwrap().0;
                     let p = Ptr::_from_raw(p_prev, p_gen);
-                    let link = self.a.remove(p).unwrap();
+                    let link = self.a.remove_internal(p, false).unwrap();
                     let tmp_prev = link.prev();
                     let t = link.t;
                     let q = new.insert(LinkNoGen::new((None, Some(q_next.inx())), t));
@@ -805,7 +805,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
         let mut new = Arena::<P, LinkNoGen<P, T>>::with_capacity(self.len());
         new.set_gen(generation);
         let p_init = first_link;
-        let link = self.a.remove(p_init).unwrap();
+        let link = self.a.remove_internal(p_init, false).unwrap();
         let mut p_next = link.next();
         let mut q_prev = new.insert(LinkNoGen::new((None, None), link.t));
         map(p_init, &mut new.get_inx_mut_unwrap(q_prev.inx()).t, q_prev);
@@ -813,7 +813,7 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
             p_next = if let Some(p_next) = p_next {
                 let p_gen = self.a.get_no_gen(p_next).unwrap().0;
                 let p = Ptr::_from_raw(p_next, p_gen);
-                let link = self.a.remove(p).unwrap();
+                let link = self.a.remove_internal(p, false).unwrap();
                 let tmp_next = link.next();
                 let t = link.t;
                 let q = new.insert(LinkNoGen::new((Some(q_prev.inx()), None), t));
-- 
2.43.0


From ef815ffcef065124a94395f7d1b0ee3de6593b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 09/23] fix: deserialize empty OrdArenas

Rebuilding the tree assumes a nonempty arena and panicked for an empty map.
---
 triple_arena/src/traits/serde.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 18fe964..9608b35 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -472,7 +472,9 @@ where
             first: tmp,
             last: tmp,
         };
-        res.raw_rebalance_assuming_compressed();
+        if !res.is_empty() {
+            res.raw_rebalance_assuming_compressed();
+        }
         Ok(res)
     }
 }
-- 
2.43.0


From 31ded5c4f8b1e3b1c8b86c20b16872a09859cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 10/23] fix: report an error for too many entries when
 deserializing OrdArenas

More entries than the index type can represent caused a panic or truncated
indexes.
---
 triple_arena/src/traits/serde.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 9608b35..2cfd8a9 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -444,6 +444,12 @@ where
         let mut i = 1usize;
         let mut last = None;
         while let Some((k, v)) = access.next_entry::<K, V>()? {
+            if i > <P::Inx as PtrInx>::max().get() {
+                return Err(Error::custom(
+                    "when deserializing a `triple_arena` arena, encountered more entries than \
+                     `P::Inx` can index",
+                ))
+            }
             let p = PtrInx::new(NonZeroUsize::new(i).unwrap());
             if let Some(last) = last {
                 a.get_inx_mut_unwrap(last).prev_next.1 = Some(p);
-- 
2.43.0


From 81e885e29347f98aff426d77ebcac7a4aef4d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 11/23] fix: do not trust the size hint when deserializing
 arenas

Some formats pass an unchecked length from the input as the size hint, so a
few bytes of malformed input could request an arbitrarily large allocation
and panic with a capacity overflow or abort.
---
 triple_arena/src/traits/serde.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/traits/serde.rs b/triple_arena/src/traits/serde.rs
index 2cfd8a9..8f7407b 100644
--- a/triple_arena/src/traits/serde.rs
+++ b/triple_arena/src/traits/serde.rs
@@ -246,7 +246,9 @@ where
     {
         let mut a = Arena::new();
         if let Some(hint) = access.size_hint() {
-            a.m.reserve(hint);
+            // the hint can be controlled by untrusted input, do not rely on it for large
+            // allocations
+            a.m.reserve(hint.min(4096));
         }
 
         while let Some((p, t)) = access.next_entry::<P::Inx, T>()? {
@@ -438,7 +440,9 @@ where
     {
         let mut a: Arena<P, LinkNoGen<P, Node<P, K, V>>> = Arena::new();
         if let Some(hint) = access.size_hint() {
-            a.m.reserve(hint);
+            // the hint can be controlled by untrusted input, do not rely on it for large
+            // allocations
+            a.m.reserve(hint.min(4096));
         }
 
         let mut i = 1usize;
-- 
2.43.0


From 6d895b5e11f24bc30d7d87b7843e8b7b26c0102e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 12/23] fix: reject key chains that mix values when checking
 SurjectArenas

Two key chains that each contain keys of both of two values had matching
lengths and counts, and were accepted when deserializing.
---
 triple_arena/src/surject/surject_arena.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index 883f1a3..f52168e 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -188,7 +188,8 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
 
         let mut adv = this.keys.advancer();
         while let Some(p) = adv.advance(&this.keys) {
-            let mut c = *count.get(this.keys.get(p).unwrap().p_val).unwrap();
+            let p_val = this.keys.get(p).unwrap().p_val;
+            let mut c = *count.get(p_val).unwrap();
             if c != 0 {
                 // upon encountering a nonzero count for the first time, we follow the chain and
                 // count down, and if we reach back to the beginning (verifying cyclic chain)
@@ -202,6 +203,9 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                     }
                     c = c.checked_sub(1).unwrap();
                     let (_, link) = this.keys.get_no_gen(tmp).unwrap();
+                    if link.t.p_val != p_val {
+                        return Err("key chain has keys associated with different values")
+                    }
                     if let Some(next) = link.next() {
                         tmp = next;
                     } else {
@@ -212,7 +216,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
                         if c != 0 {
                             return Err("key chain did not have all keys associated with value")
                         }
-                        *count.get_mut(this.keys.get(p).unwrap().p_val).unwrap() = 0;
+                        *count.get_mut(p_val).unwrap() = 0;
                         break
                     }
                 }
-- 
2.43.0


From 0662de5f3c0f3b79588f712642b8f9703ec9c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 13/23] fix: allow clearing an arena with the maximum capacity

The free list construction computed the index after the last entry, which
is not representable when the capacity equals P::Inx::max(), and panicked.
---
 triple_arena/src/arena/base_arena.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index ce105ed..eabb6ae 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -6,7 +6,7 @@ use core::{
 };
 
 use crate::{
-    utils::{nzusize_unchecked, ptrinx_unchecked, NonZeroInxVec, PtrGen, PtrInx},
+    utils::{ptrinx_unchecked, NonZeroInxVec, PtrGen, PtrInx},
     Advancer, Ptr,
 };
 
@@ -761,19 +761,18 @@ impl<P: Ptr, T> Arena<P, T> {
     /// created from it. This has no effect on allocated capacity.
     pub fn clear(&mut self) {
         // drop all `T` and recreate the freelist
+        let virt_cap = self.m.len();
         for i in self.m.nziter() {
-            // Safety: `isize::MAX` guarantee
+            // Safety: `isize::MAX` guarantee. The last entry is pointed at itself, the next
+            // index may not be representable.
             unsafe {
-                let next = ptrinx_unchecked(i.get().wrapping_add(1));
+                let next = ptrinx_unchecked(i.get().wrapping_add(1).min(virt_cap));
                 *self.m_get_mut(P::Inx::new(i)).unwrap() = Free(next);
             }
         }
         if !self.m.is_empty() {
-            // the last freelist node points to itself
             // Safety: `isize::MAX` guarantee, and `!self.m.is_empty()`
             unsafe {
-                let last = nzusize_unchecked(self.m.len());
-                *self.m.get_mut(last).unwrap() = Free(P::Inx::new(last));
                 self.freelist_root = Some(ptrinx_unchecked(1));
             }
         } else {
-- 
2.43.0


From 64266ed3dba2447cc19347c39f2cf754911c5d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 14/23] fix: do not spend generations when consuming an arena
 by value

Into-iteration incremented the generation for each element, so consuming an
arena with more elements than remaining generations panicked.
---
 triple_arena/src/arena/arena_iterators.rs | 2 +-
 triple_arena/src/ord/ord_iterators.rs     | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/triple_arena/src/arena/arena_iterators.rs b/triple_arena/src/arena/arena_iterators.rs
index 6a550fd..9623d85 100644
--- a/triple_arena/src/arena/arena_iterators.rs
+++ b/triple_arena/src/arena/arena_iterators.rs
@@ -166,7 +166,7 @@ impl<P: Ptr, T> Iterator for CapacityDrain<P, T> {
     fn next(&mut self) -> Option<Self::Item> {
         self.adv
             .advance(&self.arena)
-            .map(|p| (p, self.arena.remove(p).unwrap()))
+            .map(|p| (p, self.arena.remove_internal_inx_unwrap(p.inx(), false)))
     }
 }
 
diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 06511ca..5496c23 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -159,10 +159,11 @@ impl<P: Ptr, K, V> Iterator for CapacityDrain<P, K, V> {
     type Item = (P, K, V);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // TODO we can definitely do this more efficiently
+        // the arena is consumed, the tree structure and generation do not need to be
+        // maintained
         self.adv.advance(&self.arena).map(|p| {
-            let res = self.arena.remove(p).unwrap();
-            (p, res.0, res.1)
+            let node = self.arena.a.a.remove_internal_inx_unwrap(p.inx(), false).t;
+            (p, node.k, node.v)
         })
     }
 }
-- 
2.43.0


From a569cfe92bfb725f037e2a87326ffc53297f0a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 15/23] fix: increment the generation before changing the arena

Removal, predicate removal and clearing incremented the generation last. If
the increment overflowed, or the predicate panicked, elements were already
gone while the generation was unchanged, so after catching the panic their
slots were reissued with the same generation and stale Ptrs became valid
again.
---
 triple_arena/src/arena/base_arena.rs | 51 ++++++++--------------------
 1 file changed, 14 insertions(+), 37 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index eabb6ae..c7ccd4a 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -559,42 +559,19 @@ impl<P: Ptr, T> Arena<P, T> {
     /// `remove` but with optional generation counter increment
     #[must_use]
     pub(crate) fn remove_internal(&mut self, p: P, inc_gen: bool) -> Option<T> {
-        let freelist_ptr = if let Some(free) = self.freelist_root {
-            // points to previous root
-            free
-        } else {
-            // points to itself
-            p.inx()
-        };
-        let allocation = self.m_get_mut(p.inx())?;
-        let old = mem::replace(allocation, Free(freelist_ptr));
-        match old {
-            Free(old_free) => {
-                // undo
-                *allocation = Free(old_free);
-                None
-            }
-            Allocated(generation, old_t) => {
-                if generation != p.generation() {
-                    // undo
-                    *allocation = Allocated(generation, old_t);
-                    None
-                } else {
-                    // in both cases the new root is the entry we just removed
-                    self.freelist_root = Some(p.inx());
-                    self.len = self.len.wrapping_sub(1);
-                    if inc_gen {
-                        self.inc_gen();
-                    }
-                    Some(old_t)
-                }
-            }
+        if !self.contains(p) {
+            return None
         }
+        Some(self.remove_internal_inx_unwrap(p.inx(), inc_gen))
     }
 
     /// Same as [Arena::remove_internal] but using an `P::Inx` and panicking if
     /// `p` is invalid
     pub(crate) fn remove_internal_inx_unwrap(&mut self, p: P::Inx, inc_gen: bool) -> T {
+        // this can panic and needs to happen before anything is changed
+        if inc_gen {
+            self.inc_gen();
+        }
         let freelist_ptr = if let Some(free) = self.freelist_root {
             // points to previous root
             free
@@ -612,9 +589,6 @@ impl<P: Ptr, T> Arena<P, T> {
                 // in both cases the new root is the entry we just removed
                 self.freelist_root = Some(p);
                 self.len = self.len.wrapping_sub(1);
-                if inc_gen {
-                    self.inc_gen();
-                }
                 old_t
             }
         }
@@ -632,6 +606,9 @@ impl<P: Ptr, T> Arena<P, T> {
     /// to that `T` and a mutable reference to the `T`. If `pred` returns `true`
     /// that `T` is dropped and pointers to it invalidated.
     pub fn remove_by<F: FnMut(P, &mut T) -> bool>(&mut self, mut pred: F) {
+        // we only need one increment, done first so that nothing is removed without it
+        // if there is a panic
+        self.inc_gen();
         for inx in self.m.nziter() {
             let entry = self.m.get_mut(inx).unwrap();
             let inx = P::Inx::new(inx);
@@ -649,8 +626,6 @@ impl<P: Ptr, T> Arena<P, T> {
                 }
             }
         }
-        // we only need one increment
-        self.inc_gen();
     }
 
     /// Invalidates all references to the `T` pointed to by `p`, and returns a
@@ -760,6 +735,8 @@ impl<P: Ptr, T> Arena<P, T> {
     /// Drops all `T` from the arena and invalidates all pointers previously
     /// created from it. This has no effect on allocated capacity.
     pub fn clear(&mut self) {
+        // this can panic and needs to happen before anything is changed
+        self.inc_gen();
         // drop all `T` and recreate the freelist
         let virt_cap = self.m.len();
         for i in self.m.nziter() {
@@ -778,16 +755,16 @@ impl<P: Ptr, T> Arena<P, T> {
         } else {
             self.freelist_root = None;
         }
-        self.inc_gen();
         self.len = 0;
     }
 
     /// Performs an [Arena::clear] and resets capacity to 0
     pub fn clear_and_shrink(&mut self) {
+        // this can panic and needs to happen before anything is changed
+        self.inc_gen();
         self.m.clear();
         self.m.clear_and_shrink();
         self.freelist_root = None;
-        self.inc_gen();
         self.len = 0;
     }
 
-- 
2.43.0


From 52f4f2a7fa5fac9e1f15458791a426f8f44ef28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 16/23] fix: increment the generation before removing whole
 chains

The first link was already removed when the generation overflow panic
happened, which left its neighbors with dangling interlinks.
---
 triple_arena/src/chain/chain_arena.rs        |  5 +++--
 triple_arena/src/chain/chain_no_gen_arena.rs | 15 +++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/triple_arena/src/chain/chain_arena.rs b/triple_arena/src/chain/chain_arena.rs
index f4634ec..e56a860 100644
--- a/triple_arena/src/chain/chain_arena.rs
+++ b/triple_arena/src/chain/chain_arena.rs
@@ -564,9 +564,10 @@ impl<P: Ptr, T> ChainArena<P, T> {
     /// might only include itself). Returns the length of the chain. Returns
     /// `None` if `p` is not valid.
     pub fn remove_chain(&mut self, p: P) -> Option<usize> {
-        let init = self.a.remove_internal(p, false)?;
+        // the first removal does the one increment that is needed, this can panic and
+        // needs to happen before anything is changed
+        let init = self.a.remove(p)?;
         let mut len = 1;
-        self.a.inc_gen();
         let mut tmp = init.next();
         while let Some(next) = tmp {
             if next.inx() == p.inx() {
diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 4951270..5fc096f 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -501,7 +501,12 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
     // this is tested by the `SurjectArena` fuzz test
     /// Like `remove_chain` but assumes the chain is cyclic and `p` is valid
     pub(crate) fn remove_cyclic_chain_internal(&mut self, p: P::Inx, inc_gen: bool) {
-        let mut tmp = self.a.remove_internal_inx_unwrap(p, false).next().unwrap();
+        // the increment can panic and needs to happen before anything is changed
+        let mut tmp = self
+            .a
+            .remove_internal_inx_unwrap(p, inc_gen)
+            .next()
+            .unwrap();
         while tmp != p {
             tmp = self
                 .a
@@ -509,18 +514,16 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 .next()
                 .unwrap();
         }
-        if inc_gen {
-            self.a.inc_gen();
-        }
     }
 
     /// Efficiently removes the entire chain that `p` is connected to (which
     /// might only include itself). Returns the length of the chain. Returns
     /// `None` if `p` is not valid.
     pub fn remove_chain(&mut self, p: P) -> Option<usize> {
-        let init = self.a.remove_internal(p, false)?;
+        // the first removal does the one increment that is needed, this can panic and
+        // needs to happen before anything is changed
+        let init = self.a.remove(p)?;
         let mut len = 1;
-        self.a.inc_gen();
         let mut tmp = init.next();
         while let Some(next) = tmp {
             if next == p.inx() {
-- 
2.43.0


From 440587ed752119b8c04c2948ffc6dbe619ac5b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:03 +0000
Subject: [PATCH 17/23] fix: keep SurjectArenas consistent if an insertion
 panics

The value or the key count was changed before the key was inserted. If the
key insertion panicked (full arena or panicking closure), the arena was left
with a value without keys or a wrong key count.
---
 triple_arena/src/surject/surject_arena.rs | 32 ++++++++---------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/triple_arena/src/surject/surject_arena.rs b/triple_arena/src/surject/surject_arena.rs
index f52168e..9502e10 100644
--- a/triple_arena/src/surject/surject_arena.rs
+++ b/triple_arena/src/surject/surject_arena.rs
@@ -296,11 +296,8 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
 
     /// Inserts a new key and associated value. Returns a `Ptr` to the key.
     pub fn insert(&mut self, k: K, v: V) -> P {
-        let p_val = self.vals.insert(Val {
-            v,
-            key_count: NonZeroUsize::new(1).unwrap(),
-        });
-        self.keys.insert_new_cyclic(Key { k, p_val })
+        // avoids being left with only a value if the key insertion panics
+        self.insert_with(|_| (k, v))
     }
 
     /// Inserts a surject into the arena, using the `K` and `V` returned by
@@ -326,6 +323,13 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
         res
     }
 
+    /// Needs to be called only after the new key has been inserted, because the
+    /// insertion can panic
+    fn inc_key_count(&mut self, p_val: PtrNoGen<P>) {
+        let val = self.vals.get_inx_mut_unwrap(p_val.inx());
+        val.key_count = NonZeroUsize::new(val.key_count.get().wrapping_add(1)).unwrap();
+    }
+
     /// Inserts a new key into the arena, associating it with the same key set
     /// that `p` is in (any `Ptr` from the valid key set can be used as a
     /// reference), and returns the new `Ptr` to the key. Returns `Err(k)`
@@ -335,15 +339,8 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             None => return Err(k),
             Some(key) => key.p_val,
         };
-        self.vals[p_val].key_count = NonZeroUsize::new(
-            self.vals
-                .get_inx_unwrap(p_val.inx())
-                .key_count
-                .get()
-                .wrapping_add(1),
-        )
-        .unwrap();
         if let Ok(p) = self.keys.insert((Some(p.inx()), None), Key { k, p_val }) {
+            self.inc_key_count(p_val);
             Ok(p)
         } else {
             unreachable!()
@@ -360,18 +357,11 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             None => return None,
             Some(key) => key.p_val,
         };
-        self.vals[p_val].key_count = NonZeroUsize::new(
-            self.vals
-                .get_inx_unwrap(p_val.inx())
-                .key_count
-                .get()
-                .wrapping_add(1),
-        )
-        .unwrap();
         if let Some(p) = self.keys.insert_with((Some(p.inx()), None), |p_link| Key {
             k: create_k(p_link),
             p_val,
         }) {
+            self.inc_key_count(p_val);
             Some(p)
         } else {
             unreachable!()
-- 
2.43.0


From 92b66cb6b68de35081e7dc0fb412dce7140e2d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:52:41 +0000
Subject: [PATCH 18/23] fix: break cycles that are reachable from a root when
 rendering

The cycle breaking search only entered nodes that still had the initial
visit number, but all nodes reachable from a root had already been marked
by the reachability search. Their cycles were never broken up with Ptr
reference nodes.
---
 triple_arena_render/src/grid_process.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 0b93973..2b39e31 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -215,9 +215,6 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
     }
 
-    // the initial visit number in this case
-    let prev_visit = NonZeroU64::new(1).unwrap();
-
     // DFS for conversion to DAG
     // path from root, with the `usize` indicating which sink was followed
     let on_stack_visit = next_visit();
@@ -225,7 +222,7 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
     let mut path: Vec<(usize, P)> = vec![];
     for start in &starts {
         let start = *start;
-        if dag[start].visit == prev_visit {
+        if dag[start].visit != dfs_explored_visit {
             path.push((0, start));
             loop {
                 let len = path.len();
@@ -235,7 +232,11 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
                 match dag[current].sinks.get(path[len - 1].0) {
                     Some(edge) => {
                         let p0 = edge.to;
-                        if dag[p0].visit == prev_visit {
+                        // note that the visit number can be the initial one or
+                        // `root_reachable_visit` if it has not been encountered by this DFS
+                        if (dag[p0].visit != on_stack_visit)
+                            && (dag[p0].visit != dfs_explored_visit)
+                        {
                             // explore further
                             path.push((0, p0));
                         } else if dag[p0].visit == on_stack_visit {
-- 
2.43.0


From aee375c12f6e045b16a6fa30c13640efb0ba21c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:04:42 +0000
Subject: [PATCH 19/23] fix: visit every key in advancer_surject loops that
 insert keys

The fail safe counted down from the number of keys at the start of the
loop. Keys inserted into the set during the loop used it up, so that
keys which were there the whole time were silently not visited.
---
 triple_arena/src/surject/surject_iterators.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/triple_arena/src/surject/surject_iterators.rs b/triple_arena/src/surject/surject_iterators.rs
index a16a2d7..f72da4d 100644
--- a/triple_arena/src/surject/surject_iterators.rs
+++ b/triple_arena/src/surject/surject_iterators.rs
@@ -31,8 +31,9 @@ pub struct SurjectPtrAdvancer<P: Ptr, K, V> {
     // same as for `ChainPtrAdvancer` except we get to assume the chain is cyclical
     init: P::Inx,
     ptr: Option<P::Inx>,
-    // prevent infinite loops
-    max_advances: usize,
+    // prevent infinite loops, compared with the current number of keys so that keys inserted
+    // during the loop do not use up the advances needed for other keys
+    advances: usize,
     _boo: PhantomData<fn() -> (K, V)>,
 }
 
@@ -41,10 +42,10 @@ impl<P: Ptr, K, V> Advancer for SurjectPtrAdvancer<P, K, V> {
     type Item = P;
 
     fn advance(&mut self, collection: &Self::Collection) -> Option<Self::Item> {
-        if self.max_advances == 0 {
+        if self.advances >= collection.len_keys() {
             return None
         } else {
-            self.max_advances = self.max_advances.wrapping_sub(1);
+            self.advances = self.advances.wrapping_add(1);
         }
         if let Some(ptr) = self.ptr {
             if let Some((generation, link)) = collection.keys.get_no_gen(ptr) {
@@ -210,7 +211,7 @@ impl<P: Ptr, K, V> SurjectArena<P, K, V> {
             } else {
                 None
             },
-            max_advances: self.len_keys(),
+            advances: 0,
             _boo: PhantomData,
         }
     }
-- 
2.43.0


From 14e559c88ce6544ae81304037e024f7c3b2dd8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:58 +0000
Subject: [PATCH 20/23] fix: do not spend a second generation on abandoned
 drains

Dropping a partially consumed `Drain` called `clear`, which increments
the generation a second time. One below the generation maximum that
panicked inside of the drop although there was a generation left for the
drain itself.
---
 triple_arena/src/arena/arena_iterators.rs | 3 ++-
 triple_arena/src/arena/base_arena.rs      | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/triple_arena/src/arena/arena_iterators.rs b/triple_arena/src/arena/arena_iterators.rs
index 9623d85..139a245 100644
--- a/triple_arena/src/arena/arena_iterators.rs
+++ b/triple_arena/src/arena/arena_iterators.rs
@@ -136,7 +136,8 @@ pub struct Drain<'a, P: Ptr, T> {
 impl<P: Ptr, T> Drop for Drain<'_, P, T> {
     fn drop(&mut self) {
         if !self.arena.is_empty() {
-            self.arena.clear();
+            // the generation was already incremented when the `Drain` was created
+            self.arena.clear_without_inc_gen();
         }
         // else normal operation
     }
diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index c7ccd4a..c50f44a 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -737,6 +737,11 @@ impl<P: Ptr, T> Arena<P, T> {
     pub fn clear(&mut self) {
         // this can panic and needs to happen before anything is changed
         self.inc_gen();
+        self.clear_without_inc_gen();
+    }
+
+    /// [Arena::clear] except that the generation is not incremented
+    pub(crate) fn clear_without_inc_gen(&mut self) {
         // drop all `T` and recreate the freelist
         let virt_cap = self.m.len();
         for i in self.m.nziter() {
-- 
2.43.0


From 6cf0f376e3f46a1d09d81500fa38fb574d4ae3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:34:23 +0000
Subject: [PATCH 21/23] fix: take the first generation of an OrdArena drain up
 front

With an exhausted generation counter, next of the Drain panicked and its
destructor, running while unwinding, called clear, which panicked again and
aborted the process. Increment the generation when the Drain is created, as
Arena::drain does, so that the destructor never needs to.
---
 triple_arena/src/chain/chain_no_gen_arena.rs | 19 +++++++++++++++---
 triple_arena/src/ord/ord_iterators.rs        | 21 +++++++++++++++++---
 triple_arena/src/ord/remove.rs               | 17 ++++++++++++----
 3 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/triple_arena/src/chain/chain_no_gen_arena.rs b/triple_arena/src/chain/chain_no_gen_arena.rs
index 5fc096f..1b15968 100644
--- a/triple_arena/src/chain/chain_no_gen_arena.rs
+++ b/triple_arena/src/chain/chain_no_gen_arena.rs
@@ -479,7 +479,20 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
     /// chain remains continuous. Returns `None` if `p` is not valid.
     #[must_use]
     pub fn remove(&mut self, p: P) -> Option<LinkNoGen<P, T>> {
-        let link = self.a.remove(p)?;
+        if self.a.contains(p) {
+            Some(self.remove_internal_inx_unwrap(p.inx(), true))
+        } else {
+            None
+        }
+    }
+
+    /// Like `remove` but assumes `p` is valid
+    pub(crate) fn remove_internal_inx_unwrap(
+        &mut self,
+        p: P::Inx,
+        inc_gen: bool,
+    ) -> LinkNoGen<P, T> {
+        let link = self.a.remove_internal_inx_unwrap(p, inc_gen);
         match link.prev_next() {
             (None, None) => (),
             (None, Some(p1)) => {
@@ -489,13 +502,13 @@ impl<P: Ptr, T> ChainNoGenArena<P, T> {
                 self.a.get_inx_mut_unwrap(p0).prev_next.1 = None;
             }
             (Some(p0), Some(p1)) => {
-                if p.inx() != p0 {
+                if p != p0 {
                     self.a.get_inx_mut_unwrap(p0).prev_next.1 = Some(p1);
                     self.a.get_inx_mut_unwrap(p1).prev_next.0 = Some(p0);
                 } // else it is a single link cyclic chain
             }
         }
-        Some(link)
+        link
     }
 
     // this is tested by the `SurjectArena` fuzz test
diff --git a/triple_arena/src/ord/ord_iterators.rs b/triple_arena/src/ord/ord_iterators.rs
index 5496c23..aae856d 100644
--- a/triple_arena/src/ord/ord_iterators.rs
+++ b/triple_arena/src/ord/ord_iterators.rs
@@ -125,12 +125,15 @@ impl<'a, P: Ptr, K, V> Iterator for Iter<'a, P, K, V> {
 pub struct Drain<'a, P: Ptr, K, V> {
     arena: &'a mut OrdArena<P, K, V>,
     adv: PtrAdvancer<P, K, V>,
+    // if the next removal needs to increment the generation
+    inc_gen: bool,
 }
 
 impl<P: Ptr, K, V> Drop for Drain<'_, P, K, V> {
     fn drop(&mut self) {
         if !self.arena.is_empty() {
-            self.arena.clear();
+            // the generation was incremented when the drain was created
+            self.arena.a.a.clear_without_inc_gen();
         }
         // else normal operation
     }
@@ -143,7 +146,10 @@ impl<P: Ptr, K, V> Iterator for Drain<'_, P, K, V> {
         // TODO can we do this more efficiently by ignoring the tree structure but deal
         // with leaking also?
         self.adv.advance(self.arena).map(|p| {
-            let res = self.arena.remove(p).unwrap();
+            let res = self
+                .arena
+                .remove_internal_inx_unwrap(p.inx(), self.inc_gen);
+            self.inc_gen = true;
             (p, res.0, res.1)
         })
     }
@@ -271,8 +277,17 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
         // NOTE: I have not thought fully about how our new invariants interact with
         // leaking the `Drain` struct, just use a normal advancer
 
+        if !self.is_empty() {
+            // this can panic and needs to happen before anything is changed, the first
+            // removal uses this increment
+            self.a.a.inc_gen();
+        }
         let adv = self.advancer();
-        Drain { arena: self, adv }
+        Drain {
+            arena: self,
+            adv,
+            inc_gen: false,
+        }
     }
 
     /// By-entry iteration with `(P, K, V)` tuples. Consumes all entries and
diff --git a/triple_arena/src/ord/remove.rs b/triple_arena/src/ord/remove.rs
index 81d32d6..ff35295 100644
--- a/triple_arena/src/ord/remove.rs
+++ b/triple_arena/src/ord/remove.rs
@@ -4,7 +4,16 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
     /// Removes the key-value pair at `p`. Returns `None` if `p` is invalid.
     #[must_use]
     pub fn remove(&mut self, p: P) -> Option<(K, V)> {
-        let link = self.a.remove(p)?;
+        if self.a.contains(p) {
+            Some(self.remove_internal_inx_unwrap(p.inx(), true))
+        } else {
+            None
+        }
+    }
+
+    /// Like `remove` but assumes `p` is valid
+    pub(crate) fn remove_internal_inx_unwrap(&mut self, p: P::Inx, inc_gen: bool) -> (K, V) {
+        let link = self.a.remove_internal_inx_unwrap(p, inc_gen);
         // when removing a nonleaf node of the tree, its place in the tree is
         // replaced by a similar node, and if that node is nonleaf then it is
         // replaced again. We reach a leaf node in 2 replacements in the worst case:
@@ -35,7 +44,7 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
 
         // previous configuration of displaced node
         let (mut p_d, mut d_tree0, mut d_tree1, mut d_back, mut d_rank, mut d_prev, mut d_next) = (
-            p.inx(),
+            p,
             link.t.p_tree0,
             link.t.p_tree1,
             link.t.p_back,
@@ -43,7 +52,7 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
             link.prev(),
             link.next(),
         );
-        let res = Some((link.t.k, link.t.v));
+        let res = (link.t.k, link.t.v);
         if self.a.is_empty() {
             // last node to be removed, our invariants require that `self.a.is_empty` be
             // checked to determine whether or not `self.first`, etc are valid.
@@ -83,7 +92,7 @@ impl<P: Ptr, K, V> OrdArena<P, K, V> {
                 );
                 r.t.rank = d_rank;
                 if let Some(d_back) = d_back {
-                    if d_back != p.inx() {
+                    if d_back != p {
                         r.t.p_back = Some(d_back);
                         let n = self.a.get_inx_mut_unwrap_t(d_back);
                         if n.p_tree1 == Some(p_d) {
-- 
2.43.0


From 2ee6bacdd6e0a4a25950f85d388afb41b2f95b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:01 +0000
Subject: [PATCH 22/23] fix: keep the generation of an arena until its elements
 are gone in clone_from

A panic in a destructor while an arena is being overwritten leaves the rest
of the old elements in the arena. The generation of the source was already
taken over at that point, which can be older, so that after a clear the
old Ptrs were handed out again.
---
 triple_arena/src/arena/base_arena.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/triple_arena/src/arena/base_arena.rs b/triple_arena/src/arena/base_arena.rs
index c50f44a..8040280 100644
--- a/triple_arena/src/arena/base_arena.rs
+++ b/triple_arena/src/arena/base_arena.rs
@@ -827,11 +827,13 @@ impl<P: Ptr, T> Arena<P, T> {
         // exponential growth mitigation factor, absolutely do not use `self.m.capacity`
         // in the extra freelist additions
         let old_virt_cap = self.m.len();
-        self.generation = source.generation;
-        self.len = source.len;
         // Invariants are temporarily broken, use only methods on `m`.
         // clearing first makes `self.m.reserve` cheaper by not needing to copy
         self.m.clear();
+        // only after all old entries are gone, because they could survive a panic in a
+        // destructor and have newer generations than `source`
+        self.generation = source.generation;
+        self.len = source.len;
         if self.m.capacity() < source.m.len() {
             self.m
                 .reserve(source.m.len().wrapping_sub(self.m.capacity()));
@@ -967,11 +969,13 @@ impl<P: Ptr, T: Clone> Clone for Arena<P, T> {
         // exponential growth mitigation factor, absolutely do not use `self.m.capacity`
         // in the extra freelist additions
         let old_virt_cap = self.m.len();
-        self.generation = source.generation;
-        self.len = source.len;
         // Invariants are temporarily broken, use only methods on `m`.
         // clearing first makes `self.m.reserve` cheaper by not needing to copy
         self.m.clear();
+        // only after all old entries are gone, because they could survive a panic in a
+        // destructor and have newer generations than `source`
+        self.generation = source.generation;
+        self.len = source.len;
         if self.m.capacity() < source.m.len() {
             self.m
                 .reserve(source.m.len().wrapping_sub(self.m.capacity()));
-- 
2.43.0


From a9f3ca6f128b4086fea7f20db589f502149a3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:36 +0000
Subject: [PATCH 23/23] fix: do not confuse invalid Ptrs with stand-in nodes
 when rendering

The nodes that are inserted in place of invalid Ptrs could take the very slot
another invalid Ptr refers to, which then lead to missing edges or a panic.
---
 triple_arena_render/src/grid_process.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/triple_arena_render/src/grid_process.rs b/triple_arena_render/src/grid_process.rs
index 2b39e31..68a6666 100644
--- a/triple_arena_render/src/grid_process.rs
+++ b/triple_arena_render/src/grid_process.rs
@@ -122,12 +122,13 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
     }
 
-    // fix invalid pointers
+    // fix invalid pointers, using `arena` because an invalid pointer could happen to
+    // point to one of the nodes inserted here
     let mut adv = dag.advancer();
     while let Some(p0) = adv.advance(&dag) {
         for i0 in 0..dag[p0].sinks.len() {
             let p1 = dag[p0].sinks[i0].to;
-            if !dag.contains(p1) {
+            if !arena.contains(p1) {
                 let p1_prime = dag.insert(ANode {
                     sources: vec![Edge {
                         to: p0,
@@ -142,7 +143,7 @@ pub fn grid_process<P: Ptr, T: DebugNodeTrait<P>>(
         }
         for i0 in 0..dag[p0].sources.len() {
             let p1 = dag[p0].sources[i0].to;
-            if !dag.contains(p1) {
+            if !arena.contains(p1) {
                 let p1_prime = dag.insert(ANode {
                     center: vec![format!("{:?}(invalid)", p1)],
                     sinks: vec![Edge {
-- 
2.43.0


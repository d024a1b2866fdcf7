From b8cb3686bcea8623f38f29c5c7884648bd80cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:57 +0000
Subject: [PATCH 01/19] fix: don't drop the last position of a range that ends
 on the last line

PosTIterRange::next returned None instead of the current position when
the following one was past the bottom of the grid.
---
 src/sqrid/postrait.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 27d61a6..c2d223a 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -517,8 +517,7 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
                 if p.x() < self.topleft.x() {
                     pos = P::new(self.topleft.x(), p.y()).ok();
                 } else if p.x() > self.botright.x() {
-                    let y = p.y().inc()?;
-                    pos = P::new(self.topleft.x(), y).ok();
+                    pos = p.y().inc().and_then(|y| P::new(self.topleft.x(), y).ok());
                 }
             }
             self.value = pos.filter(|p| p.y() <= self.botright.y());
-- 
2.43.0


From d4b4d60c248a954ff57522c91566b9150ee280f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 02/19] fix: use the number of positions as
 camefrom_into_path's loop limit

The limit was the square of the width, and valid paths in grids with
more lines than columns were being reported as loops. The product also
overflowed for (u32, u32).
---
 src/sqrid/mappos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index ee94def..9707c81 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -112,7 +112,7 @@ where
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width() * P::width() + 1;
+    let mut maxiter = P::width().saturating_mul(P::height()).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
-- 
2.43.0


From 172d784ac6e6936aae1eb3b8e1da1a3c4621a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 03/19] fix: skip stale frontier entries in uniform-cost search

A position that was pushed again with a lower cost was yielded twice,
and the second (costlier) entry overwrote the "came from" direction of
the first one, resulting in suboptimal paths.
---
 src/sqrid/ucs.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 6fafec4..688275b 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -117,8 +117,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) {
+                // Stale entry, we have already found a better way here.
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
                     let newcost = self.cost.get(&pos) + costincr;
@@ -129,10 +133,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 3c50e5fc3cb8c820cbf5e4827c24a57b0e3a8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:09 +0000
Subject: [PATCH 04/19] fix: skip stale frontier entries in A* search

A position that was pushed again with a lower cost was yielded twice,
and the second (costlier) entry overwrote the "came from" direction of
the first one.
---
 src/sqrid/astar.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index e0e1292..b483977 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -109,8 +109,12 @@ where
 {
     type Item = (P, Dir);
     fn next(&mut self) -> Option<Self::Item> {
-        if let Some((_, mov)) = self.frontier.pop() {
+        while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
+            if priority > *self.cost.get(&pos) + pos.manhattan(&self.dest) {
+                // Stale entry, we have already found a better way here.
+                continue;
+            }
             for dir in Dir::iter::<D>() {
                 let newcost = self.cost.get(&pos) + 1;
                 if let Some(next_pos) = (self.go)(pos, dir) {
@@ -121,10 +125,9 @@ where
                     }
                 }
             }
-            Some(mov)
-        } else {
-            None
+            return Some(mov);
         }
+        None
     }
 }
 
-- 
2.43.0


From 0c4d4223e630ba9a6d274871fd6e28f9c272cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 05/19] fix: use an admissible heuristic in A* search with
 diagonals

The manhattan distance overestimates the number of steps when diagonals
are allowed, and the path returned was not always the shortest.
---
 src/sqrid/astar.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index b483977..942d2a6 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -77,6 +77,18 @@ pub struct AstarIterator<
 impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usize>
     AstarIterator<F, MapPosUsize, P, D, WORDS, SIZE>
 {
+    /// Lower bound of the number of steps between `pos` and the destination
+    ///
+    /// A diagonal step decreases the manhattan distance by 2.
+    fn heuristic(&self, pos: &P) -> usize {
+        let distance = pos.manhattan(&self.dest);
+        if D {
+            distance.div_ceil(2)
+        } else {
+            distance
+        }
+    }
+
     /// Create a new A* iterator
     ///
     /// This is used internally to yield "A*-sorted" coordinates.
@@ -111,7 +123,7 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         while let Some((Reverse(priority), mov)) = self.frontier.pop() {
             let pos = mov.0;
-            if priority > *self.cost.get(&pos) + pos.manhattan(&self.dest) {
+            if priority > *self.cost.get(&pos) + self.heuristic(&pos) {
                 // Stale entry, we have already found a better way here.
                 continue;
             }
@@ -120,7 +132,7 @@ where
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
-                        let priority = Reverse(newcost + next_pos.manhattan(&self.dest));
+                        let priority = Reverse(newcost + self.heuristic(&next_pos));
                         self.frontier.push((priority, (next_pos, -dir)));
                     }
                 }
-- 
2.43.0


From 0beda3f5d22abd4db4bc15cb90986e3cd8c0f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 06/19] fix: don't overflow when adding costs in uniform-cost
 search

Costs close to usize::MAX (impassable) anywhere in the reachable area
caused a panic in debug builds and bogus paths in release builds.
---
 src/sqrid/ucs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/ucs.rs b/src/sqrid/ucs.rs
index 688275b..76c2601 100644
--- a/src/sqrid/ucs.rs
+++ b/src/sqrid/ucs.rs
@@ -125,7 +125,7 @@ where
             }
             for dir in Dir::iter::<D>() {
                 if let Some((next_pos, costincr)) = (self.go)(pos, dir) {
-                    let newcost = self.cost.get(&pos) + costincr;
+                    let newcost = self.cost.get(&pos).saturating_add(costincr);
                     if newcost < *self.cost.get(&next_pos) {
                         self.cost.set(next_pos, newcost);
                         let priority = Reverse(newcost);
-- 
2.43.0


From 244df58ece51f287d121f4b55e5ed23efb71dccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 07/19] fix: rotate the inner ring of Gridbools with even
 dimensions

XYMAX is the maximum coordinate, not the dimension.
---
 src/sqrid/gridbool.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index e5f1557..28ffbe2 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -220,7 +220,7 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
 impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     /// Rotate all elements 90 degrees clockwise
     pub fn rotate_cw(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX / 2 + 1 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
@@ -241,7 +241,7 @@ impl<const XYMAX: u16, const WORDS: usize> Gridbool<Pos<XYMAX, XYMAX>, WORDS> {
     }
     /// Rotate all elements 90 degrees counterclockwise
     pub fn rotate_cc(&mut self) {
-        for y in 0..XYMAX / 2 {
+        for y in 0..XYMAX / 2 + 1 {
             for x in y..XYMAX - y {
                 let pos0 = Pos::<XYMAX, XYMAX>::try_from((x, y)).unwrap();
                 let pos1 = pos0.rotate_cw();
-- 
2.43.0


From 7d7155093ba2c5368ba7ec56fa443fccf3a0d333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 08/19] fix: don't set the padding bits in
 Gridbool::repeat(true)

Gridbool::ALL_TRUE was different from a gridbool where all positions had
been set to true one by one.
---
 src/sqrid/gridbool.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/gridbool.rs b/src/sqrid/gridbool.rs
index 28ffbe2..1f1dbde 100644
--- a/src/sqrid/gridbool.rs
+++ b/src/sqrid/gridbool.rs
@@ -87,7 +87,14 @@ impl<P: PosT, const WORDS: usize> Gridbool<P, WORDS> {
         } else {
             Self::WORD_FALSE
         };
-        Gridbool([v; WORDS], std::marker::PhantomData)
+        let mut words = [v; WORDS];
+        // Clear the bits that don't correspond to a position, as they
+        // are used in comparisons:
+        let size = P::WIDTH * P::HEIGHT;
+        if size / 32 < WORDS {
+            words[size / 32] = v & !(Self::WORD_TRUE >> (size % 32));
+        }
+        Gridbool(words, std::marker::PhantomData)
     }
 
     #[inline]
-- 
2.43.0


From 4dd838a757eef8909b8afe53e7446ea1d7ddf7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:30 +0000
Subject: [PATCH 09/19] fix: don't wrap i32 coordinates when converting them to
 Pos

(65536, 0) was being accepted as (0, 0), for instance.
---
 src/sqrid/pos.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sqrid/pos.rs b/src/sqrid/pos.rs
index edc548d..9e27cdc 100644
--- a/src/sqrid/pos.rs
+++ b/src/sqrid/pos.rs
@@ -233,7 +233,9 @@ impl<const XMAX: u16, const YMAX: u16> convert::TryFrom<&(i32, i32)> for Pos<XMA
     type Error = Error;
     #[inline]
     fn try_from(xy: &(i32, i32)) -> Result<Self, Self::Error> {
-        Pos::new(xy.0 as u16, xy.1 as u16)
+        let x = u16::try_from(xy.0).map_err(|_| Error::OutOfBounds)?;
+        let y = u16::try_from(xy.1).map_err(|_| Error::OutOfBounds)?;
+        Pos::new(x, y)
     }
 }
 
-- 
2.43.0


From 02d5e149d03e415adb6b071aa6a7bb9eabea05bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 10/19] fix: don't truncate indexes in Grid::extend_from_vecvec

Elements past the 65536th overwrote the ones at the start of the line
instead of being reported as out-of-bounds.
---
 src/sqrid/grid.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index 6073151..d4cd094 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -191,7 +191,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     pub fn extend_from_vecvec(&mut self, v: Vec<Vec<T>>) -> Result<(), Error> {
         for (y, line) in v.into_iter().enumerate() {
             for (x, c) in line.into_iter().enumerate() {
-                let p = P::new(x as u16, y as u16)?;
+                let p = P::new(x, y)?;
                 self[p] = c;
             }
         }
-- 
2.43.0


From 44258d50c9f9740cab214ae994bd3b38a11c91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 11/19] fix: mark the origin as visited before looking at its
 neighbors

If the movement function returns the position itself (it doesn't move),
the origin was yielded at distance 1.
---
 src/sqrid/bf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/bf.rs b/src/sqrid/bf.rs
index a982bb4..ccf25c3 100644
--- a/src/sqrid/bf.rs
+++ b/src/sqrid/bf.rs
@@ -135,6 +135,7 @@ where
             return None;
         }
         for &(pos, _) in &front {
+            self.visited.insert(pos);
             for dir in Dir::iter::<D>() {
                 if let Some(next_pos) = (self.go)(pos, dir) {
                     if self.visited.contains(&next_pos) {
@@ -144,7 +145,6 @@ where
                     self.visited.insert(next_pos);
                 }
             }
-            self.visited.insert(pos);
         }
         Some(front)
     }
-- 
2.43.0


From 9f9c76d87f109c554e862bd4ae6c9b8b9d2ec109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 12/19] fix: check the Grid SIZE parameter against the
 dimensions of the position

_ASSERTS was not instantiated by any of the constructors, so it was
never evaluated: a Grid with the wrong SIZE compiled, and indexing it
with a valid position accessed memory out of the array. The WIDTH and
HEIGHT used by the assertion were off by one for tuples.
---
 src/sqrid/grid.rs     | 3 +++
 src/sqrid/postrait.rs | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/grid.rs b/src/sqrid/grid.rs
index d4cd094..116e6a3 100644
--- a/src/sqrid/grid.rs
+++ b/src/sqrid/grid.rs
@@ -79,6 +79,7 @@ impl<T, P: PosT, const SIZE: usize> Grid<T, P, SIZE> {
     where
         T: Copy,
     {
+        let _ = Self::_ASSERTS;
         Grid([item; SIZE], std::marker::PhantomData)
     }
 
@@ -239,6 +240,7 @@ impl<T, const W: u16, const SIZE: usize> Grid<T, Pos<W, W>, SIZE> {
 
 impl<T: Default, P: PosT, const SIZE: usize> Default for Grid<T, P, SIZE> {
     fn default() -> Self {
+        let _ = Self::_ASSERTS;
         Self(
             std::array::from_fn(|_| (T::default())),
             std::marker::PhantomData,
@@ -264,6 +266,7 @@ impl<T: Default, P: PosT, const SIZE: usize> TryFrom<Vec<Vec<T>>> for Grid<T, P,
     type Error = Error;
     #[inline]
     fn try_from(mut vec: Vec<Vec<T>>) -> Result<Self, Self::Error> {
+        let _ = Self::_ASSERTS;
         if vec.len() > P::height() || vec.iter().any(|v| v.len() > P::width()) {
             return Err(Error::OutOfBounds);
         }
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index c2d223a..3e76ec5 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -586,8 +586,8 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize } as usize;
+            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize + 1 } as usize;
+            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize + 1 } as usize;
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From c80f1252c7b84a436a06989513491efecc4320e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 13/19] fix: start iter_in_x and iter_in_y at the smallest
 coordinate

They were starting at zero, which is neither the first value of signed
coordinates nor necessarily valid for bounded integers.
---
 src/sqrid/postrait.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 3e76ec5..34fd68b 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -343,7 +343,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInX::<Self>(Some(Self::new_((x, Default::default()))))
+        PosTIterInX::<Self>(Some(Self::new_((x, Self::Ytype::MIN))))
     }
 
     /// Return an iterator that returns all positions in a line.
@@ -351,7 +351,7 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     where
         Self: std::marker::Sized,
     {
-        PosTIterInY::<Self>(Some(Self::new_((Default::default(), y))))
+        PosTIterInY::<Self>(Some(Self::new_((Self::Xtype::MIN, y))))
     }
 
     /// Calculate a top-left and a bottom-right Pos's that contains all iterated points.
-- 
2.43.0


From af6276243e63d67a1a206e01ed1a07ac678adedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 14/19] fix: don't panic in Dir::NW.next::<false>()

---
 src/sqrid/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sqrid/dir.rs b/src/sqrid/dir.rs
index a9ca60f..c8a589d 100644
--- a/src/sqrid/dir.rs
+++ b/src/sqrid/dir.rs
@@ -166,7 +166,7 @@ impl Dir {
     pub const fn next<const D: bool>(&self) -> Option<Self> {
         // PartialEq is no const, but this is:
         let index = *self as usize;
-        if (D && index == 7) || (!D && index == 6) {
+        if (D && index == 7) || (!D && index >= 6) {
             None
         } else if D {
             Some(Dir::ALL8[(*self as usize) + 1])
-- 
2.43.0


From f838457eaa69ee3eb193816ef111383a284033eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 15/19] fix: don't create out-of-bounds integers in Default

The derived Default returned zero even when it was not within bounds.
---
 src/sqrid/boundedint.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/sqrid/boundedint.rs b/src/sqrid/boundedint.rs
index e0cede3..6430694 100644
--- a/src/sqrid/boundedint.rs
+++ b/src/sqrid/boundedint.rs
@@ -259,6 +259,13 @@ macro_rules! boundedint_type_create {
             }
         }
 
+        impl<const MIN: $type, const MAX: $type> Default for $name<MIN, MAX> {
+            /// Zero, or the value closest to it that is within bounds
+            fn default() -> Self {
+                Self(<$type>::default().clamp(MIN, MAX))
+            }
+        }
+
         impl<const MIN: $type, const MAX: $type> std::fmt::Debug for $name<MIN, MAX> {
             fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                 write!(f, "{}", self.0)
@@ -306,56 +313,56 @@ macro_rules! boundedint_type_create {
 }
 
 /// A bounded u8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU8<const MIN: u8, const MAX: u8>(pub u8);
 boundedint_type_create!(BoundedU8, u8);
 
 /// A bounded u16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU16<const MIN: u16, const MAX: u16>(pub u16);
 boundedint_type_create!(BoundedU16, u16);
 
 /// A bounded u32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU32<const MIN: u32, const MAX: u32>(pub u32);
 boundedint_type_create!(BoundedU32, u32);
 
 /// A bounded u64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU64<const MIN: u64, const MAX: u64>(pub u64);
 boundedint_type_create!(BoundedU64, u64);
 
 /// A bounded u128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedU128<const MIN: u128, const MAX: u128>(pub u128);
 boundedint_type_create!(BoundedU128, u128);
 
 /// A bounded isize
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedIsize<const MIN: isize, const MAX: isize>(pub isize);
 boundedint_type_create!(BoundedIsize, isize);
 
 /// A bounded i8
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI8<const MIN: i8, const MAX: i8>(pub i8);
 boundedint_type_create!(BoundedI8, i8);
 
 /// A bounded i16
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI16<const MIN: i16, const MAX: i16>(pub i16);
 boundedint_type_create!(BoundedI16, i16);
 
 /// A bounded i32
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI32<const MIN: i32, const MAX: i32>(pub i32);
 boundedint_type_create!(BoundedI32, i32);
 
 /// A bounded i64
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI64<const MIN: i64, const MAX: i64>(pub i64);
 boundedint_type_create!(BoundedI64, i64);
 
 /// A bounded i128
-#[derive(Clone, Copy, Default, PartialEq, Eq, Hash, PartialOrd, Ord)]
+#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
 pub struct BoundedI128<const MIN: i128, const MAX: i128>(pub i128);
 boundedint_type_create!(BoundedI128, i128);
-- 
2.43.0


From ed309ebe204c4aa4eac2d6699bcc464d965d65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 16/19] fix: return the number of positions left in the size
 hints

The size hints of the position iterators didn't take into account the
positions already returned nor the limits of the range; collecting a
small range of a big position type could panic or allocate gigabytes.
---
 src/sqrid/postrait.rs | 60 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 34fd68b..e61f494 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -421,6 +421,33 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     }
 }
 
+/// Number of positions between `cur` and `end` (inclusive) when each line
+/// goes from `first` to `last`, if it can be represented.
+///
+/// The first item of the tuples is the coordinate that changes faster.
+fn count_left<A: BoundedInt, B: BoundedInt>(
+    cur: (A, B),
+    end: (A, B),
+    first: A,
+    last: A,
+) -> Option<usize> {
+    fn sub<T: BoundedInt>(a: T, b: T) -> Option<usize> {
+        let a: usize = a.try_into().ok()?;
+        a.checked_sub(b.try_into().ok()?)
+    }
+    let line = sub(last, first)?.checked_add(1)?;
+    sub(end.1, cur.1)?
+        .checked_mul(line)?
+        .checked_add(sub(end.0, first)?)?
+        .checked_sub(sub(cur.0, first)?)?
+        .checked_add(1)
+}
+
+/// Convert the result of [`count_left`] into a size hint
+fn count_to_hint(count: Option<usize>) -> (usize, Option<usize>) {
+    (count.unwrap_or(0), count)
+}
+
 /* PosTIter */
 
 /// Iterator for positions
@@ -461,8 +488,16 @@ impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
         old
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::dimensions();
-        (size, Some(size))
+        let (Some(cur), Some(end)) = (self.cur, self.end) else {
+            return (0, Some(0));
+        };
+        let (cur, end) = (cur.tuple(), end.tuple());
+        count_to_hint(if XFIRST {
+            count_left(cur, end, P::Xtype::MIN, P::Xtype::MAX)
+        } else {
+            let (cur, end) = ((cur.1, cur.0), (end.1, end.0));
+            count_left(cur, end, P::Ytype::MIN, P::Ytype::MAX)
+        })
     }
 }
 
@@ -527,8 +562,11 @@ impl<P: PosT> Iterator for PosTIterRange<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width() * P::height();
-        (size, Some(size))
+        let Some(cur) = self.value else {
+            return (0, Some(0));
+        };
+        let (first, last) = (self.topleft.x(), self.botright.x());
+        count_to_hint(count_left(cur.tuple(), self.botright.tuple(), first, last))
     }
 }
 
@@ -551,8 +589,11 @@ impl<P: PosT> Iterator for PosTIterInX<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::height();
-        (size, Some(size))
+        let Some(cur) = self.0 else {
+            return (0, Some(0));
+        };
+        let (first, last) = (P::Ytype::MIN, P::Ytype::MAX);
+        count_to_hint(count_left((cur.y(), cur.x()), (last, cur.x()), first, last))
     }
 }
 
@@ -574,8 +615,11 @@ impl<P: PosT> Iterator for PosTIterInY<P> {
         }
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = P::width();
-        (size, Some(size))
+        let Some(cur) = self.0 else {
+            return (0, Some(0));
+        };
+        let (first, last) = (P::Xtype::MIN, P::Xtype::MAX);
+        count_to_hint(count_left((cur.x(), cur.y()), (last, cur.y()), first, last))
     }
 }
 
-- 
2.43.0


From 9cb42a23115f108fa5b3f7f0f5124099fefd5bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:15 +0000
Subject: [PATCH 17/19] fix: reconstruct paths for positions of any integer
 type

The number of positions was computed from the maximum coordinates
alone: it was too small for signed ones, so that long paths were
reported as loops, and overflowed for (u64, u64) and (u128, u128), for
which every path ended in a panic or a loop error. The initial
capacity came from the distance, which may not fit in memory.
---
 src/sqrid/mappos.rs   | 5 ++---
 src/sqrid/postrait.rs | 6 ++++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index 9707c81..7af9ac4 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -105,14 +105,13 @@ where
     P: std::ops::Add<Dir, Output = Result<P, Error>>,
     MapPosDir: MapPos<Option<Dir>, P, WORDS, SIZE>,
 {
-    let distance = orig.manhattan(dest);
-    let mut ret = collections::VecDeque::<Dir>::with_capacity(2 * distance);
+    let mut ret = collections::VecDeque::<Dir>::new();
     let mut pos = *dest;
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
     // Maximum iterations is the number of coordinates
-    let mut maxiter = P::width().saturating_mul(P::height()).saturating_add(1);
+    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index e61f494..1c8f490 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -630,8 +630,10 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize = { <$xtype>::MAX as isize - <$xtype>::MIN as isize + 1 } as usize;
-            const HEIGHT: usize = { <$ytype>::MAX as isize - <$ytype>::MIN as isize + 1 } as usize;
+            const WIDTH: usize =
+                (<$xtype>::MAX.abs_diff(<$xtype>::MIN) as usize).saturating_add(1);
+            const HEIGHT: usize =
+                (<$ytype>::MAX.abs_diff(<$ytype>::MIN) as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
                 xy
             }
-- 
2.43.0


From f2cad4cd5177b5a20d3d6efcfa2074cd359d9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:02 +0000
Subject: [PATCH 18/19] fix: measure distances that don't fit in the type of
 the coordinates

The manhattan distance panicked when the distance along an axis was
larger than the maximum coordinate (e.g. from -100 to 100 with i8), as
did A* searches; or when it didn't fit in usize. The heuristic of A*
overflowed when the destination was about that far away.
---
 src/sqrid/astar.rs    |  8 +++-----
 src/sqrid/postrait.rs | 38 +++++++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/sqrid/astar.rs b/src/sqrid/astar.rs
index 942d2a6..ab87107 100644
--- a/src/sqrid/astar.rs
+++ b/src/sqrid/astar.rs
@@ -82,11 +82,9 @@ impl<F, MapPosUsize, P: PosT, const D: bool, const WORDS: usize, const SIZE: usi
     /// A diagonal step decreases the manhattan distance by 2.
     fn heuristic(&self, pos: &P) -> usize {
         let distance = pos.manhattan(&self.dest);
-        if D {
-            distance.div_ceil(2)
-        } else {
-            distance
-        }
+        let steps = if D { distance.div_ceil(2) } else { distance };
+        // Leave room for adding costs
+        steps.min(usize::MAX / 2)
     }
 
     /// Create a new A* iterator
diff --git a/src/sqrid/postrait.rs b/src/sqrid/postrait.rs
index 1c8f490..2f5b945 100644
--- a/src/sqrid/postrait.rs
+++ b/src/sqrid/postrait.rs
@@ -4,7 +4,7 @@
 
 //! Position as a trait
 
-use super::boundedint::BoundedInt;
+use super::boundedint::{BoundedInt, BoundedIntIterator};
 use super::error::Error;
 
 macro_rules! into_or_panic {
@@ -14,6 +14,23 @@ macro_rules! into_or_panic {
     }};
 }
 
+/// Distance between two coordinates, which may not fit in their own type
+fn coordinate_distance<T: BoundedInt>(a: T, b: T) -> usize {
+    let (low, high) = if a < b { (a, b) } else { (b, a) };
+    if let Some(distance) = high.checked_sub(low) {
+        return distance.try_into().unwrap_or(usize::MAX);
+    }
+    // Number of steps from low to -1, if both are coordinates
+    let below = T::try_from(-1i8)
+        .ok()
+        .and_then(|minus_one| minus_one.checked_sub(low));
+    match (low.try_into(), high.try_into(), below.map(T::try_into)) {
+        (Ok(low), Ok(high), _) => high - low,
+        (Err(_), Ok(high), Some(Ok(below))) => below + 1 + high,
+        _ => BoundedIntIterator::new(low, high).skip(1).count(),
+    }
+}
+
 /// Position trait
 pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
     // User parameters:
@@ -181,19 +198,11 @@ pub trait PosT: std::fmt::Debug + Default + Eq + PartialOrd + Copy {
         Self::new(self.x(), Self::Ytype::MAX.checked_sub(self.y()).unwrap()).unwrap()
     }
 
-    /// Return the manhattan distance
+    /// Return the manhattan distance, or `usize::MAX` if it is larger than that
     fn manhattan(&self, pos: &Self) -> usize {
-        let dx = if self.x() > pos.x() {
-            self.x().checked_sub(pos.x()).unwrap()
-        } else {
-            pos.x().checked_sub(self.x()).unwrap()
-        };
-        let dy = if self.y() > pos.y() {
-            self.y().checked_sub(pos.y()).unwrap()
-        } else {
-            pos.y().checked_sub(self.y()).unwrap()
-        };
-        into_or_panic!(dx) + into_or_panic!(dy)
+        let dx = coordinate_distance(self.x(), pos.x());
+        let dy = coordinate_distance(self.y(), pos.y());
+        dx.saturating_add(dy)
     }
 
     /// Check that the position is inside the provided limits
@@ -630,8 +639,7 @@ macro_rules! postrait_integer_impl {
         impl PosT for ($xtype, $ytype) {
             type Xtype = $xtype;
             type Ytype = $ytype;
-            const WIDTH: usize =
-                (<$xtype>::MAX.abs_diff(<$xtype>::MIN) as usize).saturating_add(1);
+            const WIDTH: usize = (<$xtype>::MAX.abs_diff(<$xtype>::MIN) as usize).saturating_add(1);
             const HEIGHT: usize =
                 (<$ytype>::MAX.abs_diff(<$ytype>::MIN) as usize).saturating_add(1);
             fn new_(xy: ($xtype, $ytype)) -> Self {
-- 
2.43.0


From 0024098dcc7885f1c846d5da064c23d29170ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:33 +0000
Subject: [PATCH 19/19] fix: find loops in came-from maps after about as many
 steps as they have

The limit was the number of positions of the grid: with maps other than
grids and positions of wide types, a loop of two positions took up to
all of the memory.
---
 src/sqrid/mappos.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sqrid/mappos.rs b/src/sqrid/mappos.rs
index 7af9ac4..f03fad1 100644
--- a/src/sqrid/mappos.rs
+++ b/src/sqrid/mappos.rs
@@ -110,18 +110,22 @@ where
     if map.get(&pos).is_none() {
         return Err(Error::DestinationUnreachable);
     }
-    // Maximum iterations is the number of coordinates
-    let mut maxiter = P::WIDTH.saturating_mul(P::HEIGHT).saturating_add(1);
+    // A trail with a loop comes back to one of the positions it
+    // has been at after 1, 2, 4... steps:
+    let mut landmark = *dest;
+    let mut next_landmark = 1;
     while &pos != orig {
         let dir = map.get(&pos).ok_or(Error::InvalidMovement)?;
         ret.push_front(-dir);
         pos = (pos + dir).or(Err(Error::InvalidMovement))?;
-        maxiter -= 1;
-        if maxiter == 0 {
-            // We have iterated more than the total coordinates,
-            // there's definitely a loop:
+        if pos == landmark {
+            // We have been here before, there's definitely a loop:
             return Err(Error::Loop);
         }
+        if ret.len() == next_landmark {
+            landmark = pos;
+            next_landmark *= 2;
+        }
     }
     Ok(Vec::from(ret))
 }
-- 
2.43.0


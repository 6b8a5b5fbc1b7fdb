From 787de99f23f97e8afa2f0d99ec89be185faabbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 01/32] fix: propagate (and check) a constraint which
 introduces a new instant

---
 src/graph/propagation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..7c985ac 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -52,13 +52,13 @@ impl TimeGraph
             let max = k.from().max(k.to());
             if self.size() <= max {
                 // si i ou j n'était pas dans le graphe, on n'aura rien à propager
+                // (sauf si i et j sont identiques : la contrainte est alors à vérifier)
+                let size = self.size();
                 self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                match self.propagate(k) {
+                    Ok(_) => Ok(TimePropagation::Propagated),
+                    Err(error) => { self.resize(size); Err(error) }
                 }
-                Ok(TimePropagation::Propagated)
             } else {
                 unsafe {
                     // SAFETY: we check the size of the graph just before entering here
-- 
2.43.0


From 4294f12275749ae3467040dd8a1b535aecb2f7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 02/32] fix: a fatal inconsistency really empties the graph (no
 stale bounds left)

---
 src/graph/propagation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 7c985ac..2c7609e 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -165,7 +165,7 @@ impl TimeGraph
                     if val > *x { *x = val; }
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
-                    self.size = 0;
+                    self.resize(0);
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From f7308676be8058f8cd28232252e716d2a6a2dff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:27 +0000
Subject: [PATCH 03/32] fix: an empty constraint makes a batch inconsistent
 instead of panicking

---
 src/graph/propagation.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 2c7609e..ac4133c 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -194,7 +194,11 @@ impl TimeGraph
                 }
             }
             _ => {
-                iter.for_each(|k| {
+                for k in iter {
+                        if k.is_empty() {
+                            self.resize(0);
+                            return Err(TimeInconsistencyError::Fatal)
+                        }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -207,7 +211,7 @@ impl TimeGraph
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
                         }
-                    });
+                    }
                 self.global_propagation()
             }
         }
-- 
2.43.0


From 260a473c3c3fcb05cfa2e292e58875511a9a0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 04/32] fix: read a constraint only once while adding it to a
 graph

---
 src/graph/propagation.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index ac4133c..151dbef 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -2,7 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::mem::swap;
 use crate::graph::{Instant, TimeConstraint, TimeGraph};
-use crate::TimeValue;
+use crate::{TimeBounds, TimeInterval, TimeSpan, TimeValue};
 
 pub type TimePropagationResult = Result<TimePropagation,TimeInconsistencyError>;
 
@@ -42,10 +42,21 @@ impl fmt::Display for TimeInconsistencyError {
     }
 }
 
+/// Copies a constraint by reading each of its parts exactly once
+fn snapshot<K:TimeConstraint>(k: &K) -> ((Instant, Instant), TimeSpan)
+{
+    ((k.from(), k.to()), TimeInterval::new(k.lower_bound(), k.upper_bound()))
+}
+
 impl TimeGraph
 {
     pub fn propagate<K:TimeConstraint>(&mut self, k: K) -> TimePropagationResult
     {
+        if k.is_empty() {
+            return Err(TimeInconsistencyError::Recovered)
+        }
+        // reads the constraint only once, since its owner could be editing it
+        let k = snapshot(&k);
         if k.is_empty() {
             Err(TimeInconsistencyError::Recovered)
         } else {
@@ -195,7 +206,10 @@ impl TimeGraph
             }
             _ => {
                 for k in iter {
-                        if k.is_empty() {
+                        let empty = k.is_empty();
+                        // reads the constraint only once, since its owner could be editing it
+                        let k = snapshot(&k);
+                        if empty || k.is_empty() {
                             self.resize(0);
                             return Err(TimeInconsistencyError::Fatal)
                         }
-- 
2.43.0


From 386995dac2da74da47955eb10822fc1f19bf3d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:25 +0000
Subject: [PATCH 05/32] fix: constraints from (or to) an instant only include
 actual constraints

---
 src/graph/constraints.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..c3af36d 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -207,25 +207,23 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
             // this iterator is a FusedIterator
             None
         } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
-                self.j += 1;
-
+            loop { // search the next constrained instant
                 if self.j == self.graph.size() {
                     self.i = self.graph.size();
-                    break;
+                    return None;
 
                 } else if self.i != self.j &&
                     (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
                         || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
+                    self.j += 1;
+                    return Some(TimeGraphConstraint {
+                        from: self.i,
+                        to: self.j - 1,
+                        graph: self.graph
+                    })
                 }
+                self.j += 1;
             }
-            Some(current)
         }
     }
 
-- 
2.43.0


From ef0903ffbc0e61574fe4ee6d8ad7b4a35b40064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:27 +0000
Subject: [PATCH 06/32] fix: size hints of the constraint iterators (wrong, or
 overflowing)

---
 src/graph/constraints.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index c3af36d..7549d15 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,14 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i == self.graph.size() {
+            (0, Some(0))
+        } else {
+            // the end of the current row, then all the next (shorter and shorter) ones
+            let max = (self.graph.size() - 1 - self.j) as usize;
+            let rows = (self.graph.size() - 1 - self.i) as usize;
+            (0, Some(max + rows * rows.saturating_sub(1) / 2))
+        }
     }
 }
 
@@ -230,10 +234,11 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i >= self.graph.size() {
+            (0, Some(0))
+        } else {
+            (0, Some((self.graph.size() - self.j) as usize))
+        }
     }
 }
 
-- 
2.43.0


From 50884d83c5066d6601e0c63ef9dabeccfc6e565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:22 +0000
Subject: [PATCH 07/32] fix: shrinking a graph to fit forgets the cells of the
 removed instants

---
 src/graph/storage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 0ed5877..67e2216 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -59,6 +59,7 @@ impl TimeGraph {
                     .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
             ).map(|i| i+1)
             .unwrap_or(0);
+        self.data.truncate((self.size * self.size) as usize);
         self.data.shrink_to_fit()
     }
 
-- 
2.43.0


From 78103d2bb42d743503573fdd59b0278f7827a96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:42 +0000
Subject: [PATCH 08/32] fix: union keeps the remaining source when the other
 one ends

---
 src/iter/union.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..c354fa9 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -187,7 +187,7 @@ impl<I,J> Iterator for IterUnion<I,J>
                     match self.j.next() {
                         None => {
                             /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 03158a5f4bc2570677574f7d4abef2b55b6174fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:43 +0000
Subject: [PATCH 09/32] fix: intersection of adjacent intervals is empty (no
 inverted interval)

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From edf5717b610202c29c88aafe1b9270282312fe02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:44 +0000
Subject: [PATCH 10/32] fix: intersection of disjoint intervals is the empty
 interval

---
 src/ops/intersect.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..8f9c761 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -28,6 +28,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
     fn bitand_assign(&mut self, tw: TW) {
         if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
         if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        if self.upper < self.lower { *self = TimeInterval::empty(); }
     }
 }
 
@@ -48,10 +49,7 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        TimeInterval::new(self.lower.max(i.lower), self.upper.min(i.upper))
     }
 }
 
-- 
2.43.0


From 7b364f76feab6d7db5b4c501fad353898033f80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:45 +0000
Subject: [PATCH 11/32] fix: empty intervals are skipped when collected into a
 time set

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..729337d 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -124,7 +124,7 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
-- 
2.43.0


From 0b5aa3032c7d9df1cb3b5c276891e7bc181019fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:47 +0000
Subject: [PATCH 12/32] fix: shifting a single date in place does not panic

---
 src/ops/transl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..291239a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -33,7 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeValue) {
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -44,7 +44,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeValue) {
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -91,7 +91,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeSpan) {
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -102,7 +102,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeSpan) {
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
-- 
2.43.0


From beaaf1db3db2901d25d095f864cda085828dbccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:48 +0000
Subject: [PATCH 13/32] fix: an empty window is neither everything nor bounded

---
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..9f60e92 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && !self.lower.is_past_infinite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && !self.upper.is_future_infinite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From d38397b6eaa6cbed012048ce2f865214f13195a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:14 +0000
Subject: [PATCH 14/32] fix: an empty window overlaps nothing

---
 src/relns/overlap.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From 58f37e3141bba9796e1cce75525758ba9a026664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 15/32] fix: a time set contains the empty window whatever its
 bounds

---
 src/relns/contain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..5cdf087 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -22,7 +22,7 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
-- 
2.43.0


From f61205be54f4f503c1027fe8d1b456c86e63cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:30 +0000
Subject: [PATCH 16/32] fix: size hint of the complement counts the last hole
 (and does not overflow)

---
 src/iter/compl.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..7fd35f0 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -90,11 +90,8 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
 
     fn size_hint(&self) -> (usize, Option<usize>)
     {
+        // each remaining interval ends a hole and the last one may be followed by another hole
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
-        } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
-        }
+        (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
     }
 }
-- 
2.43.0


From f9d8483195e6018399fb9a3aa8abf612044e4938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 17/32] fix: size hint of the union counts the interval kept
 aside

---
 src/iter/union.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index c354fa9..9c87777 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -234,12 +234,12 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
             _ => {
-                if let (_,Some(imax)) = self.i.size_hint() {
-                    if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
-                    }
-                }
-                (0, None)
+                // do not forget the interval kept aside
+                let tmp = if let UnionState::Init = self.state { 0 } else { 1 };
+                let max = self.i.size_hint().1.zip(self.j.size_hint().1)
+                    .and_then(|(imax,jmax)| imax.checked_add(jmax))
+                    .and_then(|max| max.checked_add(tmp));
+                (0, max)
             }
         }
     }
-- 
2.43.0


From d00bbf6979836d64b3431c3a7369ffb992c24fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:34 +0000
Subject: [PATCH 18/32] fix: the current timestamp before the origin does not
 panic

---
 src/wins/timestamp.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wins/timestamp.rs b/src/wins/timestamp.rs
index ce393aa..59db1c0 100644
--- a/src/wins/timestamp.rs
+++ b/src/wins/timestamp.rs
@@ -24,7 +24,11 @@ impl Timestamp {
 
     #[inline]
     pub fn now() -> Self {
-        Self(SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().into())
+        Self(match SystemTime::now().duration_since(SystemTime::UNIX_EPOCH) {
+            Ok(since) => since.into(),
+            // the system clock is before the origin
+            Err(e) => -TimeValue::from(e.duration())
+        })
     }
 
     #[inline]
-- 
2.43.0


From 3a519271c7c6fa105e9a198f26b40d7252e71ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:35 +0000
Subject: [PATCH 19/32] fix: a standard duration beyond 2^31 seconds is not
 infinite (current timestamp after 2038)

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..abf3284 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -283,7 +283,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From 23122ee8404ca7ecea9bafa0f6c744089f3078eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:49 +0000
Subject: [PATCH 20/32] fix: a backward sequence starts at the given date

---
 src/seq/backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
-- 
2.43.0


From 632e99b5636df0acd62324e789e1254f313bb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:50 +0000
Subject: [PATCH 21/32] fix: ceil of a negative time value just above a
 multiple of the period

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index abf3284..2212919 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -208,7 +208,7 @@ impl TimeValue {
             if self.0 > 0 {
                 ((self.0-1)/period.0+1)*period.0
             } else {
-                ((self.0-1)/period.0)*period.0
+                (self.0/period.0)*period.0
             }
         )
     }
-- 
2.43.0


From 8170f502cb2c8dc58c01baf97efa7a337be14dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:51 +0000
Subject: [PATCH 22/32] fix: length of the time sequences

---
 src/seq/backward.rs | 8 +++++---
 src/seq/forward.rs  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..2f050b3 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,10 +31,12 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
+        if self.t.is_finite() {
+            // the last date is just after the past infinity
+            let ticks = self.t.0.as_ticks() as i128 + (i64::MAX - 1) as i128;
+            (ticks / self.step.as_ticks() as i128) as usize
         } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
+            0
         }
     }
 }
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..1e89fc6 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,10 +32,12 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
+        if self.t.is_finite() {
+            // the last date is just before infinity
+            let ticks = (i64::MAX - 1) as i128 - self.t.0.as_ticks() as i128;
+            (ticks / self.step.as_ticks() as i128) as usize
         } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
+            0
         }
     }
 }
-- 
2.43.0


From 7c25f2fee2aca192ee5b4bdbafad3dd0a1556ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:53 +0000
Subject: [PATCH 23/32] fix: skipping dates of a time sequence (nth, last)
 neither repeats nor saturates

---
 src/seq/backward.rs | 18 ++++++++++++++----
 src/seq/forward.rs  | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 2f050b3..5dcab3b 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -41,6 +41,16 @@ impl TimeSequence for TimeSeqBackward
     }
 }
 
+impl TimeSeqBackward {
+
+    // the date reached n steps after the last one (should not exceed the length)
+    fn after(&self, n: usize) -> Timestamp
+    {
+        let ticks = self.t.0.as_ticks() as i128 - self.step.as_ticks() as i128 * n as i128;
+        Timestamp(TimeValue::from_ticks(ticks as i64))
+    }
+}
+
 impl FusedIterator for TimeSeqBackward { }
 
 
@@ -70,18 +80,18 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        (n > 0).then(|| self.after(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if n >= self.len() {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
+            self.t = self.after(n+1);
             Some(self.t)
         }
     }
-}
\ No newline at end of file
+}
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index 1e89fc6..cb2b161 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -42,6 +42,16 @@ impl TimeSequence for TimeSeqForward
     }
 }
 
+impl TimeSeqForward {
+
+    // the date reached n steps after the last one (should not exceed the length)
+    fn after(&self, n: usize) -> Timestamp
+    {
+        let ticks = self.t.0.as_ticks() as i128 + self.step.as_ticks() as i128 * n as i128;
+        Timestamp(TimeValue::from_ticks(ticks as i64))
+    }
+}
+
 impl FusedIterator for TimeSeqForward { }
 
 
@@ -71,18 +81,18 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        (n > 0).then(|| self.after(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if n >= self.len() {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
+            self.t = self.after(n+1);
             Some(self.t)
         }
     }
-}
\ No newline at end of file
+}
-- 
2.43.0


From a2cc7d8e63f8587f407463d13cd2edd88eb8a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 24/32] fix: a restriction which leaves an instant without any
 slot is refused (and changes nothing)

---
 src/graph/scheduler.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..7cba91b 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -107,9 +107,9 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
-                *self.schedule.get_unchecked_mut(i as usize) &= tw;
-                self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                let mut slots = self.schedule.get_unchecked(i as usize).clone();
+                slots &= tw;
+                self.propagate_scheduling(i, slots)
             }
         }
     }
@@ -123,22 +123,28 @@ impl TimeScheduler<'_> {
         self.retain(i, !tw)
     }
 
-    fn propagate_scheduling(&mut self, i: Instant)
+    // Changes the slots of an instant and propagates, except if some instant
+    // would have no slot anymore (it could occur if the slots are not convex)
+    fn propagate_scheduling(&mut self, i: Instant, slots: TimeSlots) -> TimePropagationResult
     {
-        debug_assert!( i as usize <= self.schedule.len() );
-        unsafe {
-            self.constraints
-                .constraints_from(i)
-                .for_each(|k| {
-                    let j = k.to() as usize;
-                    *self.schedule.get_unchecked_mut(j) =
-                        self.schedule.get_unchecked(j).iter()
-                            .intersection(self.schedule.get_unchecked(i as usize)
-                                .iter()
-                                .translation(&TimeInterval::from(k)))
-                            .collect();
-                });
+        debug_assert!( (i as usize) < self.schedule.len() );
+        if slots.is_empty() {
+            return Err(TimeInconsistencyError::Recovered);
+        }
+        let mut changes = Vec::new();
+        for k in self.constraints.constraints_from(i) {
+            let j = k.to() as usize;
+            let new: TimeSlots = unsafe { self.schedule.get_unchecked(j) }.iter()
+                .intersection(slots.iter().translation(&TimeInterval::from(k)))
+                .collect();
+            if new.is_empty() {
+                return Err(TimeInconsistencyError::Recovered);
+            }
+            changes.push((j, new));
         }
+        self.schedule[i as usize] = slots;
+        changes.into_iter().for_each(|(j, new)| self.schedule[j] = new);
+        Ok(TimePropagation::Propagated)
     }
 }
 
-- 
2.43.0


From 9022dd063ed1e1970f4f43557dac0c35f06ada8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:46 +0000
Subject: [PATCH 25/32] fix: a deadline (or startline) which contradicts slots
 with holes neither panics nor applies partially

---
 src/graph/scheduler.rs | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 7cba91b..7780b9b 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -59,14 +59,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
-                      |result, i|
-                          match self.retain(i, ..=deadline).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+            // even now, the propagation could fail if the slots have holes:
+            // all the instants are restricted or none of them
+            let mut restricted = self.clone();
+            let mut result = TimePropagation::Unchanged;
+            for i in 0..self.schedule.len() as u32 {
+                if let TimePropagation::Propagated = restricted.retain(i, ..=deadline)? {
+                    result = TimePropagation::Propagated;
+                }
+            }
+            self.schedule = restricted.schedule;
+            Ok(result)
         }
     }
 
@@ -78,14 +81,17 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
-                      |result, i|
-                          match self.retain(i, startline..).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+            // even now, the propagation could fail if the slots have holes:
+            // all the instants are restricted or none of them
+            let mut restricted = self.clone();
+            let mut result = TimePropagation::Unchanged;
+            for i in 0..self.schedule.len() as u32 {
+                if let TimePropagation::Propagated = restricted.retain(i, startline..)? {
+                    result = TimePropagation::Propagated;
+                }
+            }
+            self.schedule = restricted.schedule;
+            Ok(result)
         }
     }
 
-- 
2.43.0


From cf3f5f7bbcc9b5acfd7335b3a2fe42d2442adde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 26/32] fix: restricting an interval in place reads the window
 once (no malformed interval if it is interrupted)

---
 src/ops/intersect.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 8f9c761..c6a2d62 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,8 +26,10 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
-        if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
-        if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        // reads the bounds only once and before any change, since reading them could be interrupted
+        let (lower, upper) = (tw.lower_bound(), tw.upper_bound());
+        if self.lower < lower { self.lower = lower; }
+        if self.upper > upper { self.upper = upper; }
         if self.upper < self.lower { *self = TimeInterval::empty(); }
     }
 }
-- 
2.43.0


From d35276232adeb758cbe6b625657246a0ee4fcc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 27/32] fix: a non-empty set of durations scaled by zero is {0}
 (and not a set holding an empty interval)

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..82201c8 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -262,7 +262,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -289,7 +289,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 82637cefb80430d466eb259753d2a275e1423d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 28/32] fix: intervals joined by a float scaling are merged

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 82201c8..282b0a3 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -334,7 +334,7 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                check_joined_inners(&mut inners);
                 Self(inners)
             }
         }
@@ -347,7 +347,7 @@ macro_rules! timespansscalefloat {
             fn mul_assign(&mut self, f: $scale) {
                 self.0.iter_mut().for_each(|tw| *tw *= f);
                 if f < 0. { self.0.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut self.0) }
+                check_joined_inners(&mut self.0)
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-- 
2.43.0


From faae50e052969f9d777ee757fc228db841105131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:08 +0000
Subject: [PATCH 29/32] fix: infinities stay infinite when divided (or scaled
 by floats), huge factors keep the sign

---
 src/ops/scaling.rs | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 282b0a3..73b8623 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -3,6 +3,25 @@ use std::ops::{Div, DivAssign, Mul, MulAssign};
 
 //-------------- TIMEVALUE SCALING -----------------------------
 
+// the infinities remain infinite when divided
+#[inline] fn div_ticks(t: TimeValue, n: i64) -> TimeValue {
+    if t.is_finite() {
+        TimeValue::from_ticks(t.0.saturating_div(n))
+    } else {
+        assert_ne!(n, 0, "div. by zero");
+        if n < 0 { -t } else { t }
+    }
+}
+
+// the product with a factor greater than any duration
+#[inline] fn overflow(t: TimeValue) -> TimeValue {
+    match t.0.signum() {
+        0 => t,
+        1 => TimeValue::INFINITE,
+        _ => -TimeValue::INFINITE
+    }
+}
+
 // GROUP 1: scale factor is always less than i64::MAX (abs value)
 macro_rules! timevalscalingsmall {
     ($scale: ty) => {
@@ -15,7 +34,7 @@ macro_rules! timevalscalingsmall {
         impl Div<$scale> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                div_ticks(self, n as i64)
             }
         }
     };
@@ -36,9 +55,9 @@ macro_rules! timevalscalingbig {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                    overflow(self)
                 } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
+                    overflow(-self)
                 } else {
                     TimeValue::from_ticks(self.0.saturating_mul(n as i64))
                 }
@@ -48,9 +67,9 @@ macro_rules! timevalscalingbig {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
+                    if self.is_finite() { TimeValue::default() /* zero */ } else if n < 0 { -self } else { self }
                 } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                    div_ticks(self, n as i64)
                 }
             }
         }
@@ -68,7 +87,7 @@ macro_rules! timevalscalingubig {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                    overflow(self)
                 } else {
                     TimeValue::from_ticks(self.0.saturating_mul(n as i64))
                 }
@@ -78,9 +97,9 @@ macro_rules! timevalscalingubig {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
                 if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::default() // zero
+                    if self.is_finite() { TimeValue::default() /* zero */ } else { self }
                 } else {
-                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                    div_ticks(self, n as i64)
                 }
             }
         }
@@ -99,6 +118,9 @@ macro_rules! timevalscalingfloat {
             type Output = Self;
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
+                if !self.is_finite() && n != 0. {
+                    return if n < 0. { -self } else { self }
+                }
                 let t = self.0 as $time * n;
                 if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
-- 
2.43.0


From fda3338a37c685b928f66b5d1886f807c75d96ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:51 +0000
Subject: [PATCH 30/32] fix: ranges which hold no date (+oo.., ..=-oo,
 ..first...) are empty

---
 src/ops/range.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..5673794 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -7,55 +7,55 @@ use crate::iter::*;
 impl<T:TimePoint> TimeBounds for Range<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) || self.end.just_before().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { self.start } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE} else { self.end.just_before() } }// not inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { self.start } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE} else { self.end.just_before() } }// not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeFrom<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.start.is_future_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { false }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.start }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { Self::TimePoint::INFINITE }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { T::INFINITE } }
 }
 
 impl<T:TimePoint> TimeBounds for RangeInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) || self.start().is_future_infinite() || self.end().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE} else { *self.start() } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { *self.end() } } // inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE} else { *self.start() } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { *self.end() } } // inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeTo<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.end.just_before().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end.just_before() } // not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeToInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.end.is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end } // inclusive
 }
 
-- 
2.43.0


From 3a8b513f966fbd7a6b60615c47b5c3b9c06e6d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:51 +0000
Subject: [PATCH 31/32] fix: truncating or intersecting an interval down to an
 infinite end leaves the empty interval

---
 src/ops/intersect.rs     | 4 +---
 src/wins/timeinterval.rs | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index c6a2d62..c7c070c 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -28,9 +28,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
     fn bitand_assign(&mut self, tw: TW) {
         // reads the bounds only once and before any change, since reading them could be interrupted
         let (lower, upper) = (tw.lower_bound(), tw.upper_bound());
-        if self.lower < lower { self.lower = lower; }
-        if self.upper > upper { self.upper = upper; }
-        if self.upper < self.lower { *self = TimeInterval::empty(); }
+        *self = TimeInterval::new(self.lower.max(lower), self.upper.min(upper));
     }
 }
 
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9f60e92..cf3bf88 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,7 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
+            if self.upper < lower || lower.is_future_infinite() {
                 *self = Self::empty();
             } else {
                 self.lower = lower;
@@ -142,7 +142,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
+            if upper < self.lower || upper.is_past_infinite() {
                 *self = Self::empty();
             } else {
                 self.upper = upper;
-- 
2.43.0


From f7a6ca7cfbbcf16b50496d0fd3d172ce4ceea5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:52 +0000
Subject: [PATCH 32/32] fix: a time set made of (or truncated down to) an
 infinite end is empty

---
 src/wins/timeset.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 729337d..6b1df3a 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        Self::convex(t, t)
     }
 
     /// The empty set
@@ -163,7 +163,7 @@ impl<T,TW> From<TW> for TimeSet<T>
         if tw.is_empty() {
             TimeSet::empty()
         } else {
-            Self(vec![TimeInterval { lower: tw.lower_bound(), upper: tw.upper_bound()}])
+            Self::convex(tw.lower_bound(), tw.upper_bound())
         }
     }
 }
@@ -174,7 +174,7 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_before(&mut self, lower: T) -> bool
     {
-        match self.0.iter().position(|i| i.upper_bound() >= lower)
+        match self.0.iter().position(|i| i.upper_bound() >= lower && !lower.is_future_infinite())
         {
             Some(0) => {
                 // only the first element could change
@@ -194,7 +194,7 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_after(&mut self, upper: T) -> bool
     {
-        match self.0.iter().rposition(|i| i.lower_bound() <= upper)
+        match self.0.iter().rposition(|i| i.lower_bound() <= upper && !upper.is_past_infinite())
         {
             Some(pos) if pos+1 == self.0.len() => {
                 // only the last element could change
-- 
2.43.0


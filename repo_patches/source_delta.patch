From 311b6158b7fd64805c9f17b1a284b464142abcdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:33 +0000
Subject: [PATCH 01/49] fix: intersection of disjoint intervals is the empty
 interval

---
 src/ops/intersect.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index 46415da..b806213 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -28,6 +28,7 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
     fn bitand_assign(&mut self, tw: TW) {
         if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
         if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
+        if self.lower > self.upper { *self = TimeInterval::empty(); }
     }
 }
 
@@ -48,10 +49,10 @@ impl<T:TimePoint,TW> BitAnd<TW> for &TimeInterval<T>
     #[inline]
     fn bitand(self, tw: TW) -> Self::Output {
         let i = tw.into();
-        TimeInterval {
-            lower: self.lower.max(i.lower),
-            upper: self.upper.min(i.upper)
-        }
+        TimeInterval::new(
+            self.lower.max(i.lower),
+            self.upper.min(i.upper)
+        )
     }
 }
 
-- 
2.43.0


From c0e1604942f86aef11ad2d7c14c1483058705826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 02/49] fix: adjacent intervals have an empty intersection

---
 src/iter/intersect.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/iter/intersect.rs b/src/iter/intersect.rs
index 8aba6c9..92426b5 100644
--- a/src/iter/intersect.rs
+++ b/src/iter/intersect.rs
@@ -112,7 +112,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                     match (self.i.next(), self.j.next()) {
                         (None,_)|(_,None) => { self.state = InterState::End; return None; }
 
-                        (Some(i), Some(j)) if i.upper < j.lower.just_before() => {
+                        (Some(i), Some(j)) if i.upper < j.lower => {
                             // i:       [------------------]
                             // j:                                  [--------]
                             //=>tmp:                               [--------]
@@ -120,7 +120,7 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.tmp=j;
                         },
 
-                        (Some(i), Some(j)) if j.upper < i.lower.just_before()  => {
+                        (Some(i), Some(j)) if j.upper < i.lower  => {
                             // i:                          [------------------]
                             // j:          [--------]
                             self.state = InterState::WaitJ;
@@ -149,11 +149,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(i) if i.upper < self.tmp.lower.just_before() => {
+                        Some(i) if i.upper < self.tmp.lower => {
                             // i:       [------------------]
                             // tmp:                                [--------]
                         },
-                        Some(i) if self.tmp.upper < i.lower.just_before()  => {
+                        Some(i) if self.tmp.upper < i.lower  => {
                             // i:                          [------------------]
                             // tmp:        [--------]
                             self.state = InterState::WaitJ;
@@ -182,11 +182,11 @@ impl<I,J> Iterator for IterIntersection<I,J>
                             self.state = InterState::End;
                             return None;
                         },
-                        Some(j) if j.upper < self.tmp.lower.just_before() => {
+                        Some(j) if j.upper < self.tmp.lower => {
                             // tmp:                                [--------]
                             // j:       [------------------]
                         },
-                        Some(j) if self.tmp.upper < j.lower.just_before()  => {
+                        Some(j) if self.tmp.upper < j.lower  => {
                             // tmp:        [--------]
                             // j:                          [------------------]
                             self.state = InterState::WaitI;
-- 
2.43.0


From de0da7925f1c8abf36426944d04dee101afea6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 03/49] fix: union iterator keeps the remaining intervals of
 its left operand

---
 src/iter/union.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index b57d3b1..023950f 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -186,8 +186,8 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::WaitJ => {
                     match self.j.next() {
                         None => {
-                            /* end of the iterator over i...*/
-                            self.state = UnionState::OnlyJ;
+                            /* end of the iterator over j...*/
+                            self.state = UnionState::OnlyI;
                             return Some(self.tmp);
                         },
                         Some(j) if j.upper < self.tmp.lower.just_before() => {
-- 
2.43.0


From 2fe9ec5eb6e6d0bbabcdba8f47edcc70f917feb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 04/49] fix: size hint of the complementary iterator counts the
 last interval

---
 src/iter/compl.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/iter/compl.rs b/src/iter/compl.rs
index 84205a9..385224a 100644
--- a/src/iter/compl.rs
+++ b/src/iter/compl.rs
@@ -91,10 +91,10 @@ impl<I:TimeConvexIterator> Iterator for IterComplementary<I>
     fn size_hint(&self) -> (usize, Option<usize>)
     {
         let (min,max) = self.iter.size_hint();
-        if self.lower.is_finite() {
-            (min.saturating_sub(1), max)
+        if self.lower.is_future_infinite() {
+            (0, Some(0))
         } else {
-            (min.saturating_sub(1), max.map(|i| i + 1))
+            (min.saturating_sub(1), max.and_then(|i| i.checked_add(1)))
         }
     }
 }
-- 
2.43.0


From bc412f25719b9fb95bf777c50ef4bb63d314f326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:38 +0000
Subject: [PATCH 05/49] fix: collecting a time set ignores empty intervals

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 7890ae3..729337d 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -124,7 +124,7 @@ impl<T:TimePoint> FromIterator<TimeInterval<T>> for TimeSet<T>
 {
     fn from_iter<I: IntoIterator<Item=TimeInterval<T>>>(iter: I) -> Self
     {
-        let mut iter = iter.into_iter();
+        let mut iter = iter.into_iter().filter(|i| !i.is_empty());
         match iter.next() {
             None => Self::empty(),
             Some(first) => iter.fold(first.into(), |mut r, i| {
-- 
2.43.0


From 7138486ceefcf5a64b10f2eea5d17b94d9446f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:39 +0000
Subject: [PATCH 06/49] fix: the set singleton of an infinite point is empty

---
 src/wins/timeset.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 729337d..53d48c6 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -43,7 +43,7 @@ impl<T:TimePoint> TimeSet<T>
     /// Retuns a timeset composed of the convex interval `[t,t]`
     #[inline]
     pub fn singleton(t: T) -> Self {
-        Self(vec![TimeInterval::singleton(t)])
+        TimeInterval::singleton(t).into()
     }
 
     /// The empty set
-- 
2.43.0


From f1991d9828cc8246613705957f51aa69919753ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 07/49] fix: an empty window is neither bounded nor all

---
 src/wins/format.rs       | 4 +++-
 src/wins/mod.rs          | 2 +-
 src/wins/timeinterval.rs | 4 ++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index e97c111..9ed3c43 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -199,7 +199,9 @@ impl<T:TimePoint+fmt::Debug> fmt::Debug for TimeInterval<T>
     #[allow(clippy::collapsible_else_if)]
     fn fmt(&self, formatter: &mut fmt::Formatter) -> fmt::Result
     {
-        if self.is_low_bounded() {
+        if self.is_empty() {
+            write!(formatter, "{{}}")
+        } else if self.is_low_bounded() {
             if self.is_up_bounded() {
                 if self.lower == self.upper {
                     write!(formatter, "{{{:?}}}", self.lower)
diff --git a/src/wins/mod.rs b/src/wins/mod.rs
index 8acaf6d..73a72d7 100644
--- a/src/wins/mod.rs
+++ b/src/wins/mod.rs
@@ -74,7 +74,7 @@ pub trait TimeWindow : TimeBounds {
 
     #[inline]
     fn is_all(&self) -> bool {
-        self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
+        !self.is_empty() && self.is_convex() && !self.is_low_bounded() && !self.is_up_bounded()
     }
 
     /// Checks if this time window is an interval
diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9c21513..9f60e92 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -184,8 +184,8 @@ impl<T:TimePoint> TimeBounds for TimeInterval<T>
     #[inline] fn is_empty(&self) -> bool { self.lower.is_future_infinite() }
     #[inline] fn is_singleton(&self) -> bool { self.lower == self.upper }
     #[inline] fn is_bounded(&self) -> bool { self.is_low_bounded() && self.is_up_bounded() }
-    #[inline] fn is_low_bounded(&self) -> bool { !self.lower.is_past_infinite() }
-    #[inline] fn is_up_bounded(&self) -> bool { !self.upper.is_future_infinite() }
+    #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && !self.lower.is_past_infinite() }
+    #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && !self.upper.is_future_infinite() }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.lower }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.upper }
 }
-- 
2.43.0


From 8977820aee8ef3476e8f17e9bc891e8043533188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 08/49] fix: truncating everything leaves an empty window

---
 src/wins/timeinterval.rs | 4 ++--
 src/wins/timeset.rs      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 9f60e92..cf3bf88 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -127,7 +127,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if lower <= self.lower {
             false
         } else {
-            if self.upper < lower {
+            if self.upper < lower || lower.is_future_infinite() {
                 *self = Self::empty();
             } else {
                 self.lower = lower;
@@ -142,7 +142,7 @@ impl<T:TimePoint> TimeTruncation for TimeInterval<T>
         if self.upper <= upper {
             false
         } else {
-            if upper < self.lower {
+            if upper < self.lower || upper.is_past_infinite() {
                 *self = Self::empty();
             } else {
                 self.upper = upper;
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 53d48c6..824bec8 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -174,7 +174,7 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_before(&mut self, lower: T) -> bool
     {
-        match self.0.iter().position(|i| i.upper_bound() >= lower)
+        match self.0.iter().position(|i| i.upper_bound() >= lower && !lower.is_future_infinite())
         {
             Some(0) => {
                 // only the first element could change
@@ -194,7 +194,7 @@ impl<T:TimePoint> TimeTruncation for TimeSet<T>
     /// Returns `true` if something changed
     fn truncate_after(&mut self, upper: T) -> bool
     {
-        match self.0.iter().rposition(|i| i.lower_bound() <= upper)
+        match self.0.iter().rposition(|i| i.lower_bound() <= upper && !upper.is_past_infinite())
         {
             Some(pos) if pos+1 == self.0.len() => {
                 // only the last element could change
-- 
2.43.0


From 462c2bb1ebe702524acb4a7faf6e9e2fcdd237b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 09/49] fix: in-place translation of singletons does not panic

---
 src/ops/transl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index e2a84ca..291239a 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -33,7 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeValue) {
         self.lower += other;
         self.upper += other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -44,7 +44,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeValue) {
         self.lower -= other;
         self.upper -= other;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -91,7 +91,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
     fn add_assign(&mut self, other: TimeSpan) {
         self.lower += other.lower;
         self.upper += other.upper;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
@@ -102,7 +102,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
     fn sub_assign(&mut self, other: TimeSpan) {
         self.lower -= other.upper;
         self.upper -= other.lower;
-        assert!( (self.lower != self.upper) || !self.lower.is_finite() );
+        assert!( (self.lower != self.upper) || self.lower.is_finite() );
     }
 }
 
-- 
2.43.0


From 75cebc6a2c6df12c417a4b0e797922c69d18142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:44 +0000
Subject: [PATCH 10/49] fix: the empty window is contained in any window and
 overlaps none

---
 src/relns/contain.rs | 2 +-
 src/relns/overlap.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/relns/contain.rs b/src/relns/contain.rs
index 16a9f72..5cdf087 100644
--- a/src/relns/contain.rs
+++ b/src/relns/contain.rs
@@ -22,7 +22,7 @@ impl<T:TimePoint,TW> TimeContaining<TW> for TimeSet<T>
     #[inline]
     fn contains(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        rhs.is_empty() || self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.contains(rhs))
             .unwrap_or(false)
diff --git a/src/relns/overlap.rs b/src/relns/overlap.rs
index 5f37e78..4ff4b4c 100644
--- a/src/relns/overlap.rs
+++ b/src/relns/overlap.rs
@@ -14,7 +14,8 @@ impl<TW1:TimeConvex,TW2:TimeConvex> TimeOverlapping<TW2> for TW1
 {
     #[inline]
     fn overlaps(&self, rhs: &TW2) -> bool {
-        self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
+        !self.is_empty() && !rhs.is_empty()
+            && self.lower_bound() <= rhs.upper_bound() && rhs.lower_bound() <= self.upper_bound()
     }
 }
 
@@ -33,7 +34,7 @@ impl<T:TimePoint, TW> TimeOverlapping<TW> for TimeSet<T>
     #[inline]
     fn overlaps(&self, rhs: &TW) -> bool
     {
-        self.0.iter()
+        !rhs.is_empty() && self.0.iter()
             .find(|ts| ts.upper_bound() >= rhs.lower_bound())
             .map(|ts| ts.lower_bound() <= rhs.upper_bound())
             .unwrap_or(false)
-- 
2.43.0


From 52419c45d09e1700aff00f415d9c28010e373318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:45 +0000
Subject: [PATCH 11/49] fix: the empty window is neither before nor after
 another one

---
 src/relns/ordering.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/relns/ordering.rs b/src/relns/ordering.rs
index 41c523d..55ee286 100644
--- a/src/relns/ordering.rs
+++ b/src/relns/ordering.rs
@@ -46,7 +46,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn lt(&self, other: &TW) -> bool {
-                self.upper_bound() < other.lower_bound()
+                !self.is_empty() && !other.is_empty() && self.upper_bound() < other.lower_bound()
             }
 
             #[inline]
@@ -56,7 +56,7 @@ macro_rules! timepartialcmp {
 
             #[inline]
             fn gt(&self, other: &TW) -> bool {
-                self.lower_bound() > other.upper_bound()
+                !self.is_empty() && !other.is_empty() && self.lower_bound() > other.upper_bound()
             }
 
             #[inline]
-- 
2.43.0


From ed26bb1852ac51e0f6fc0b6c8e8afcbbd45911fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:32 +0000
Subject: [PATCH 12/49] fix: durations too far in the past are infinite instead
 of wrapped

---
 src/wins/timevalue.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index dcc0c20..a77545d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -56,6 +56,8 @@ impl TimeValue {
     {
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             Self(sec << SUBSEC_BITLEN)
         }
@@ -67,6 +69,8 @@ impl TimeValue {
         let frac = t - sec*unit;
         if sec > MAX_SEC {
             TimeValue::INFINITE
+        } else if sec < -MAX_SEC {
+            -TimeValue::INFINITE
         } else {
             // we should separate in order to deal with overflow
             Self((sec<<SUBSEC_BITLEN) + (frac << SUBSEC_BITLEN)/unit)
-- 
2.43.0


From 1fc1cb8e4e0a495d2205c6a0da39da8337604529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 13/49] fix: ceil of negative values is the smallest multiple
 above them

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index a77545d..d454b18 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -212,7 +212,7 @@ impl TimeValue {
             if self.0 > 0 {
                 ((self.0-1)/period.0+1)*period.0
             } else {
-                ((self.0-1)/period.0)*period.0
+                (self.0/period.0)*period.0
             }
         )
     }
-- 
2.43.0


From 3089bc335a16f51aa89a1cd2e352e0f0052ab929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:34 +0000
Subject: [PATCH 14/49] fix: months of a duration are not rounded to years

---
 src/wins/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1fbe240..1a5a2e9 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -21,7 +21,7 @@ impl IntoTimeValue for TimeValue
         if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
     }
     #[inline] fn months(self) -> TimeValue {
-        if self.is_strictly_negative() { self.ceil(1.years()) } else { self.floor(1.years())}
+        if self.is_strictly_negative() { self.ceil(1.months()) } else { self.floor(1.months())}
     }
     #[inline] fn weeks(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.weeks()) } else { self.floor(1.weeks())}
-- 
2.43.0


From 16c989ae3106a50f62c994bd9a3a3e529e9eba62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 15/49] fix: seconds of a negative duration are truncated as
 the other units

---
 src/wins/convert.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wins/convert.rs b/src/wins/convert.rs
index 1a5a2e9..de6a7f6 100644
--- a/src/wins/convert.rs
+++ b/src/wins/convert.rs
@@ -1,4 +1,4 @@
-use crate::{SUBSEC_BITMASK, TimeValue};
+use crate::TimeValue;
 
 pub trait IntoTimeValue
 {
@@ -35,7 +35,9 @@ impl IntoTimeValue for TimeValue
     #[inline] fn mins(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.mins()) } else { self.floor(1.mins())}
     }
-    #[inline] fn secs(mut self) -> TimeValue { self.0 &= !SUBSEC_BITMASK; self }
+    #[inline] fn secs(self) -> TimeValue {
+        if self.is_strictly_negative() { self.ceil(1.secs()) } else { self.floor(1.secs())}
+    }
 
     #[inline] fn millis(self) -> TimeValue {
         if self.is_strictly_negative() { self.ceil(1.millis()) } else { self.floor(1.millis())}
-- 
2.43.0


From 8ecc34d0b66743ecf1e6cef45090152f8105c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:24 +0000
Subject: [PATCH 16/49] fix: std durations longer than i32::MAX seconds are
 finite

---
 src/wins/timevalue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index d454b18..d533f7d 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -287,7 +287,7 @@ impl From<time::Duration> for TimeValue
     fn from(t: time::Duration) -> Self
     {
         let sec = t.as_secs();
-        if sec > i32::MAX as u64 {
+        if sec > MAX_SEC as u64 {
             TimeValue::INFINITE
         } else {
             let ns = t.subsec_nanos() as i64;
-- 
2.43.0


From 542434b7c21185566cf3cac0a36da30a76a1ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 17/49] fix: out of range negative chrono durations are past
 infinite

---
 src/wins/timevalue.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index d533f7d..533d8e8 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -267,6 +267,7 @@ impl From<chrono::Duration> for TimeValue
     fn from(t: chrono::Duration) -> Self
     {
         match t.num_nanoseconds() {
+            None if t < chrono::Duration::zero() => -TimeValue::INFINITE,
             None => TimeValue::INFINITE,
             Some(nanos) => TimeValue::from_nanos(nanos)
         }
-- 
2.43.0


From 5be974e2e8c8df229c0d29a24808ca6c6298be65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:56 +0000
Subject: [PATCH 18/49] fix: scaling by a factor beyond 64 bits keeps zero and
 the sign

---
 src/ops/scaling.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 611abde..e0d4ecc 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -3,6 +3,12 @@ use std::ops::{Div, DivAssign, Mul, MulAssign};
 
 //-------------- TIMEVALUE SCALING -----------------------------
 
+#[inline]
+fn infinite(negative: bool) -> TimeValue
+{
+    if negative { -TimeValue::INFINITE } else { TimeValue::INFINITE }
+}
+
 // GROUP 1: scale factor is always less than i64::MAX (abs value)
 macro_rules! timevalscalingsmall {
     ($scale: ty) => {
@@ -35,10 +41,12 @@ macro_rules! timevalscalingbig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                if self.is_zero() {
+                    self
+                } else if n > INFINITE_TIME_VALUE as $time {
+                    infinite(self.is_strictly_negative())
                 } else if n < -INFINITE_TIME_VALUE as $time {
-                    -TimeValue::INFINITE
+                    infinite(self.is_strictly_positive())
                 } else {
                     TimeValue::from_ticks(self.0.saturating_mul(n as i64))
                 }
@@ -67,8 +75,10 @@ macro_rules! timevalscalingubig {
         impl Mul<$time> for TimeValue {
             type Output = Self;
             #[inline] fn mul(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
-                    TimeValue::INFINITE
+                if self.is_zero() {
+                    self
+                } else if n > INFINITE_TIME_VALUE as $time {
+                    infinite(self.is_strictly_negative())
                 } else {
                     TimeValue::from_ticks(self.0.saturating_mul(n as i64))
                 }
-- 
2.43.0


From cf37b04626a5a12146d0edad54cbed3b12985e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 19/49] fix: an infinite duration remains infinite when it is
 scaled down

---
 src/ops/scaling.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index e0d4ecc..ed79d11 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -20,8 +20,14 @@ macro_rules! timevalscalingsmall {
         }
         impl Div<$scale> for TimeValue {
             type Output = Self;
-            #[inline] fn div(self, n: $scale) -> Self::Output {
-                TimeValue::from_ticks(self.0.saturating_div(n as i64))
+            #[inline]
+            #[allow(unused_comparisons)]
+            fn div(self, n: $scale) -> Self::Output {
+                if self.is_finite() || n == 0 {
+                    TimeValue::from_ticks(self.0.saturating_div(n as i64))
+                } else {
+                    infinite(self.is_strictly_negative() != (n < 0))
+                }
             }
         }
     };
@@ -55,7 +61,9 @@ macro_rules! timevalscalingbig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
+                if !self.is_finite() && n != 0 {
+                    infinite(self.is_strictly_negative() != (n < 0))
+                } else if n > INFINITE_TIME_VALUE as $time || n < -INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
                     TimeValue::from_ticks(self.0.saturating_div(n as i64))
@@ -87,7 +95,9 @@ macro_rules! timevalscalingubig {
         impl Div<$time> for TimeValue {
             type Output = Self;
             #[inline] fn div(self, n: $time) -> Self::Output {
-                if n > INFINITE_TIME_VALUE as $time {
+                if !self.is_finite() && n != 0 {
+                    self
+                } else if n > INFINITE_TIME_VALUE as $time {
                     TimeValue::default() // zero
                 } else {
                     TimeValue::from_ticks(self.0.saturating_div(n as i64))
@@ -110,7 +120,9 @@ macro_rules! timevalscalingfloat {
             #[inline]
             fn mul(self, n: $time) -> Self::Output {
                 let t = self.0 as $time * n;
-                if t > INFINITE_TIME_VALUE as $time {
+                if !self.is_finite() && n != 0. {
+                    infinite(self.is_strictly_negative() != (n < 0.))
+                } else if t > INFINITE_TIME_VALUE as $time {
                     TimeValue::INFINITE
                 } else if t < -INFINITE_TIME_VALUE as $time {
                     -TimeValue::INFINITE
-- 
2.43.0


From ce20bfa4209519f224f9d0a7ca36ec573eb627f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:59 +0000
Subject: [PATCH 20/49] fix: intervals joined by a float scaling are always
 merged

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index ed79d11..e1c9f7a 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -356,7 +356,7 @@ macro_rules! timespansscalefloat {
                     .map(|tw| *tw * f)
                     .collect::<Vec<_>>();
                 if f < 0. { inners.reverse() }
-                if f.abs() > 1. { check_joined_inners(&mut inners); }
+                check_joined_inners(&mut inners);
                 Self(inners)
             }
         }
@@ -369,7 +369,7 @@ macro_rules! timespansscalefloat {
             fn mul_assign(&mut self, f: $scale) {
                 self.0.iter_mut().for_each(|tw| *tw *= f);
                 if f < 0. { self.0.reverse() }
-                if f.abs() < 1. { check_joined_inners(&mut self.0) }
+                check_joined_inners(&mut self.0)
             }
         }
         impl DivAssign<$scale> for TimeSpans {
-- 
2.43.0


From 24a87698da6dbc19ad1b9631e98d0254df7213e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:29 +0000
Subject: [PATCH 21/49] fix: a non empty set multiplied by zero is the null
 duration

---
 src/ops/scaling.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index e1c9f7a..3809931 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -284,7 +284,7 @@ macro_rules! timespansscaleint {
                     if self.is_empty() {
                         TimeSpans::empty()
                     } else {
-                        Self(vec![ TimeSpan::default() ])
+                        Self(vec![ TimeSpan::singleton(TimeValue::default()) ])
                     }
                 } else {
                     // since factor is non null integer, the scale increases distances between
@@ -311,7 +311,7 @@ macro_rules! timespansscaleint {
                 if n == 0 {
                     if !self.is_empty() {
                         self.0.clear();
-                        self.0.push(TimeSpan::default());
+                        self.0.push(TimeSpan::singleton(TimeValue::default()));
                     }
                 } else {
                     self.0.iter_mut().for_each(|tw| *tw *= n);
-- 
2.43.0


From 4d431e7f7c2c54304727643d85bd6432d8e19cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:21 +0000
Subject: [PATCH 22/49] fix: size hint of the union iterator counts its pending
 interval

---
 src/iter/union.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index 023950f..4ea0d36 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -233,10 +233,12 @@ impl<I,J> Iterator for IterUnion<I,J>
             UnionState::OnlyI => { self.i.size_hint() }
             UnionState::OnlyJ => { self.j.size_hint() }
             UnionState::End => { (0, Some(0)) }
-            _ => {
+            state => {
+                // the interval being built is not in the iterators anymore
+                let pending = match state { UnionState::Init => 0, _ => 1 };
                 if let (_,Some(imax)) = self.i.size_hint() {
                     if let (_,Some(jmax)) = self.j.size_hint() {
-                        return (0, Some(imax.saturating_add(jmax)));
+                        return (0, Some(imax.saturating_add(jmax).saturating_add(pending)));
                     }
                 }
                 (0, None)
-- 
2.43.0


From 005bc60c27d3c9d9f6331f96159da51ddaafe3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:15 +0000
Subject: [PATCH 23/49] fix: scaling iterator gives sorted and disjoint
 intervals

---
 src/iter/scaling.rs | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/src/iter/scaling.rs b/src/iter/scaling.rs
index b80fe6e..156c22f 100644
--- a/src/iter/scaling.rs
+++ b/src/iter/scaling.rs
@@ -15,35 +15,11 @@ impl<I:TimeConvexIterator,S:Copy> TimeScaling<S> for I
     where
         I::Item: Mul<S,Output=I::Item>
 {
-    type Output = TimeValueScaleIter<I,S>;
+    type Output = crate::iter::intoiter::IntoConvexIter<I::TimePoint,std::vec::IntoIter<TimeInterval<I::TimePoint>>>;
 
     fn scaling(self, scale: S) -> Self::Output {
-        TimeValueScaleIter { scale, iter: self }
+        // the scaled intervals could be reversed (negative scale) or
+        // could meet each other (null or fractional scale)
+        self.map(|tw| tw*scale).collect::<TimeSet<_>>().into_iter()
     }
 }
-
-pub struct TimeValueScaleIter<I:TimeConvexIterator,S:Copy> {
-    scale: S,
-    iter: I
-}
-
-impl<I:TimeConvexIterator,S:Copy> Iterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type Item = I::Item;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw*self.scale)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
-    }
-}
-
-
-impl<I:TimeConvexIterator,S:Copy> TimeConvexIterator for TimeValueScaleIter<I,S>
-    where
-        I::Item: Mul<S,Output=I::Item>
-{
-    type TimePoint = I::TimePoint;
-}
-
-- 
2.43.0


From 22b6fb5ef55350e67c856ff681e7cd20007408a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 24/49] fix: backward sequence starts at its start date

---
 src/seq/backward.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index d624bd1..7232f90 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -13,7 +13,7 @@ impl TimeSequence for TimeSeqBackward
     fn new<T:Timestamped>(t: T, delta: TimeValue) -> Self
     {
         assert!( delta.is_strictly_positive(), "sequence interval should be strictly positive" );
-        let t = t.timestamp() - delta; // so we will start at t
+        let t = t.timestamp() + delta; // so we will start at t
         assert!( t.is_finite(), "infinite start value");
         Self { t, step: delta }
     }
-- 
2.43.0


From 1873d908b8e0ce2674ea6c435e4e75a08ab4f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 25/49] fix: length of the time sequences

---
 src/seq/backward.rs | 7 ++++---
 src/seq/forward.rs  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 7232f90..3d8fc70 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -31,10 +31,11 @@ impl TimeSequence for TimeSeqBackward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_strictly_negative() {
-            (self.t.0.as_ticks() - i64::MIN) as usize / self.step.as_ticks() as usize
+        if self.t.is_past_infinite() {
+            0
         } else {
-            self.t.0.as_ticks() as usize + i64::MAX as usize + 1 / self.step.as_ticks() as usize
+            // number of steps before reaching the past infinite (excluded)
+            (self.t.0.as_ticks().abs_diff(-i64::MAX) - 1) as usize / self.step.as_ticks() as usize
         }
     }
 }
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index d1469c0..6db030a 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -32,10 +32,11 @@ impl TimeSequence for TimeSeqForward
 
     fn len(&self) -> usize
     {
-        if self.t.0.is_positive() {
-            (i64::MAX - self.t.0.as_ticks()) as usize / self.step.as_ticks() as usize
+        if self.t.is_future_infinite() {
+            0
         } else {
-            (i64::MAX as usize) + (-self.t.0.as_ticks() as usize) / self.step.as_ticks() as usize
+            // number of steps before reaching the future infinite (excluded)
+            (self.t.0.as_ticks().abs_diff(i64::MAX) - 1) as usize / self.step.as_ticks() as usize
         }
     }
 }
-- 
2.43.0


From c67dc254496321ba397f201641ac7258f11a49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 26/49] fix: nth and last of time sequences agree with stepping

---
 src/seq/backward.rs | 17 ++++++++++++++---
 src/seq/forward.rs  | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/seq/backward.rs b/src/seq/backward.rs
index 3d8fc70..75ead88 100644
--- a/src/seq/backward.rs
+++ b/src/seq/backward.rs
@@ -40,6 +40,17 @@ impl TimeSequence for TimeSeqBackward
     }
 }
 
+impl TimeSeqBackward
+{
+    // The timestamp after n steps (which should not be more than `len`)
+    fn at(&self, n: usize) -> Timestamp
+    {
+        // the whole shift could be out of the time value range
+        let t = self.t.0.as_ticks() as i128 - n as i128 * self.step.as_ticks() as i128;
+        Timestamp(TimeValue::from_ticks(t as i64))
+    }
+}
+
 impl FusedIterator for TimeSeqBackward { }
 
 
@@ -69,17 +80,17 @@ impl Iterator for TimeSeqBackward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t - n*self.step)
+        (n > 0).then(|| self.at(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = -Timestamp::INFINITE;
             None
         } else {
-            self.t -= self.step * n;
+            self.t = self.at(n+1);
             Some(self.t)
         }
     }
diff --git a/src/seq/forward.rs b/src/seq/forward.rs
index 6db030a..a881ac6 100644
--- a/src/seq/forward.rs
+++ b/src/seq/forward.rs
@@ -41,6 +41,17 @@ impl TimeSequence for TimeSeqForward
     }
 }
 
+impl TimeSeqForward
+{
+    // The timestamp after n steps (which should not be more than `len`)
+    fn at(&self, n: usize) -> Timestamp
+    {
+        // the whole shift could be out of the time value range
+        let t = self.t.0.as_ticks() as i128 + n as i128 * self.step.as_ticks() as i128;
+        Timestamp(TimeValue::from_ticks(t as i64))
+    }
+}
+
 impl FusedIterator for TimeSeqForward { }
 
 
@@ -70,17 +81,17 @@ impl Iterator for TimeSeqForward {
     fn last(self) -> Option<Self::Item>
     {
         let n = self.len();
-        (n > 0).then_some(self.t + n*self.step)
+        (n > 0).then(|| self.at(n))
     }
 
 
     fn nth(&mut self, n: usize) -> Option<Self::Item>
     {
-        if self.len() < n {
+        if self.len() <= n {
             self.t = Timestamp::INFINITE;
             None
         } else {
-            self.t += self.step * n;
+            self.t = self.at(n+1);
             Some(self.t)
         }
     }
-- 
2.43.0


From f99d8ddf271e29f65aaf64cb226fa3d140d72007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 27/49] fix: constraints on new instants are propagated to the
 others

---
 src/graph/propagation.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 02ef878..6eedfaf 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -51,13 +51,14 @@ impl TimeGraph
         } else {
             let max = k.from().max(k.to());
             if self.size() <= max {
-                // si i ou j n'était pas dans le graphe, on n'aura rien à propager
-                self.resize(max + 1);
-                unsafe {
-                    // SAFETY: we have just resize the graph for that
-                    *self.lower_mut(k.from(), k.to()) = k.lower_bound();
-                    *self.lower_mut(k.to(), k.from()) = -k.upper_bound();
+                if k.from() == k.to() && (k.lower_bound().is_strictly_positive() || k.upper_bound().is_strictly_negative()) {
+                    // the distance between an instant and itself could not differ from 0
+                    return Err(TimeInconsistencyError::Recovered);
                 }
+                // a new instant is not constrained yet but the other one could be,
+                // so the constraint should be propagated
+                self.resize(max + 1);
+                self.propagate(k)?;
                 Ok(TimePropagation::Propagated)
             } else {
                 unsafe {
-- 
2.43.0


From 9955d0825e37f6c24575b079fbf277fe3fb1de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 28/49] fix: no former constraint remains after a fatal
 inconsistency

---
 src/graph/propagation.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 6eedfaf..a0e9193 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -167,6 +167,7 @@ impl TimeGraph
                 }
                 if unsafe { self.lower(i,i) }.is_strictly_positive() {
                     self.size = 0;
+                    self.data.clear();
                     return Err(TimeInconsistencyError::Fatal)
                 }
             }
-- 
2.43.0


From dd4f7c1f9bfd9958652776c815fb4104236bccdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 29/49] fix: an empty constraint in a batch is an inconsistency

---
 src/graph/propagation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index a0e9193..21fbb34 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -196,7 +196,12 @@ impl TimeGraph
                 }
             }
             _ => {
-                iter.for_each(|k| {
+                for k in iter {
+                        if k.is_empty() {
+                            self.size = 0;
+                            self.data.clear();
+                            return Err(TimeInconsistencyError::Fatal)
+                        }
                         let max = k.from().max(k.to());
                         if max >= self.size() { self.resize(max+1) }
 
@@ -209,7 +214,7 @@ impl TimeGraph
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
                         }
-                    });
+                }
                 self.global_propagation()
             }
         }
-- 
2.43.0


From 64d877b0d5de50e025efbd8752420a5fcaea8bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 30/49] fix: a batch of redundant constraints leaves the graph
 unchanged

---
 src/graph/propagation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 21fbb34..1d9fec7 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -196,6 +196,7 @@ impl TimeGraph
                 }
             }
             _ => {
+                let mut change = false;
                 for k in iter {
                         if k.is_empty() {
                             self.size = 0;
@@ -203,19 +204,21 @@ impl TimeGraph
                             return Err(TimeInconsistencyError::Fatal)
                         }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max+1) }
+                        if max >= self.size() { self.resize(max+1); change = true; }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
                             *lower = k.lower_bound();
+                            change = true;
                         }
                         // SAFETY: if lower exists (checked just above), the upper does...
                         let upper = unsafe { self.lower_mut(k.to(), k.from()) };
                         if *upper < -k.upper_bound() {
                             *upper = -k.upper_bound();
+                            change = true;
                         }
                 }
-                self.global_propagation()
+                if change { self.global_propagation() } else { Ok(TimePropagation::Unchanged) }
             }
         }
     }
-- 
2.43.0


From 7cf5caca30b017c8389e73b977e1d80080d366ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 31/49] fix: no former value is stored beyond a shrunk graph

---
 src/graph/storage.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 0ed5877..149bc94 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -59,6 +59,8 @@ impl TimeGraph {
                     .any(|x| unsafe { !self.data.get_unchecked(x as usize).is_past_infinite()})
             ).map(|i| i+1)
             .unwrap_or(0);
+        // the storage should not keep former values beyond the new size
+        self.data.truncate((self.size * self.size) as usize);
         self.data.shrink_to_fit()
     }
 
-- 
2.43.0


From ec810570f8316f9b0d48c1bad003af07c853a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 32/49] fix: iterators over the constraints of a graph

---
 src/graph/constraints.rs | 50 +++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/graph/constraints.rs b/src/graph/constraints.rs
index 229584b..9d03b53 100644
--- a/src/graph/constraints.rs
+++ b/src/graph/constraints.rs
@@ -176,10 +176,14 @@ impl<'a> Iterator for TimeConstraintIter<'a> {
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        if self.i >= self.graph.size() {
+            (0, Some(0))
+        } else {
+            // the instants after `j` (from `i`) and all the pairs between the instants after `i`
+            let after_i = (self.graph.size() - 1 - self.i) as usize;
+            let after_j = (self.graph.size() - 1 - self.j) as usize;
+            (0, Some(after_j + after_i * after_i.saturating_sub(1) / 2))
+        }
     }
 }
 
@@ -202,40 +206,24 @@ impl<'a> Iterator for TimeConstraintFromIter<'a> {
 
     fn next(&mut self) -> Option<Self::Item>
     {
-        if self.i >= self.graph.size() {
-            // this bound checking guarantees also that
-            // this iterator is a FusedIterator
-            None
-        } else {
-            let current = TimeGraphConstraint {
-                from: self.i,
-                to: self.j,
-                graph: self.graph
-            };
-            loop { // search the next current
-                self.j += 1;
-
-                if self.j == self.graph.size() {
-                    self.i = self.graph.size();
-                    break;
-
-                } else if self.i != self.j &&
-                    (unsafe { !self.graph.lower(self.i,self.j).is_past_infinite() }
-                        || unsafe { !self.graph.lower(self.j,self.i).is_past_infinite() }) {
-                    break;
-                }
+        // this bound checking guarantees also that
+        // this iterator is a FusedIterator
+        while self.i < self.graph.size() && self.j < self.graph.size() {
+            let j = self.j;
+            self.j += 1;
+            if self.i != j &&
+                (unsafe { !self.graph.lower(self.i,j).is_past_infinite() }
+                    || unsafe { !self.graph.lower(j,self.i).is_past_infinite() }) {
+                return Some(TimeGraphConstraint { from: self.i, to: j, graph: self.graph });
             }
-            Some(current)
         }
+        None
     }
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>)
     {
-        let all_constraints = (self.graph.size() * self.graph.size() - self.graph.size())/2;
-        let previous_constraints =  (self.i * self.i - self.i)/2;
-        let max = all_constraints - previous_constraints + 1 - self.j;
-        (0, Some(max as usize))
+        (0, Some((self.graph.size() - self.j) as usize))
     }
 }
 
-- 
2.43.0


From 8dce8a70d9bdba2509c18a0d938ae4454115c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 33/49] fix: slots with holes are propagated until they all
 support each other

---
 src/graph/scheduler.rs | 90 +++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 32 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 077e6ca..52372ee 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -1,3 +1,4 @@
+use std::collections::VecDeque;
 use std::fmt;
 use std::iter;
 use std::ops::BitAndAssign;
@@ -59,14 +60,20 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.lower_bound() > deadline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
-                      |result, i|
-                          match self.retain(i, ..=deadline).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+            // the slots with holes could still be incompatible
+            let former = self.schedule.clone();
+            let mut result = TimePropagation::Unchanged;
+            for i in 0..self.schedule.len() as u32 {
+                match self.retain(i, ..=deadline) {
+                    Ok(TimePropagation::Unchanged) => { }
+                    Ok(TimePropagation::Propagated) => { result = TimePropagation::Propagated }
+                    Err(err) => {
+                        self.schedule = former;
+                        return Err(err);
+                    }
+                }
+            }
+            Ok(result)
         }
     }
 
@@ -78,14 +85,20 @@ impl TimeScheduler<'_> {
         if self.schedule.iter().any(|tw| tw.upper_bound() < startline) {
             Err(TimeInconsistencyError::Recovered)
         } else {
-            // we know that the propagation will succeed
-            Ok((0..self.schedule.len() as u32)
-                .fold(TimePropagation::Unchanged,
-                      |result, i|
-                          match self.retain(i, startline..).unwrap() {
-                              TimePropagation::Unchanged => { result }
-                              TimePropagation::Propagated => { TimePropagation::Propagated }
-                          }))
+            // the slots with holes could still be incompatible
+            let former = self.schedule.clone();
+            let mut result = TimePropagation::Unchanged;
+            for i in 0..self.schedule.len() as u32 {
+                match self.retain(i, startline..) {
+                    Ok(TimePropagation::Unchanged) => { }
+                    Ok(TimePropagation::Propagated) => { result = TimePropagation::Propagated }
+                    Err(err) => {
+                        self.schedule = former;
+                        return Err(err);
+                    }
+                }
+            }
+            Ok(result)
         }
     }
 
@@ -107,9 +120,14 @@ impl TimeScheduler<'_> {
             } else if !tw.overlaps(self.schedule.get_unchecked(i as usize)) {
                 Err(TimeInconsistencyError::Recovered)
             } else {
+                let former = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
-                self.propagate_scheduling(i);
-                Ok(TimePropagation::Propagated)
+                if self.propagate_scheduling(i) {
+                    Ok(TimePropagation::Propagated)
+                } else {
+                    self.schedule = former;
+                    Err(TimeInconsistencyError::Recovered)
+                }
             }
         }
     }
@@ -123,22 +141,30 @@ impl TimeScheduler<'_> {
         self.retain(i, !tw)
     }
 
-    fn propagate_scheduling(&mut self, i: Instant)
+    /// Propagates the changes of an instant until all the slots support each other.
+    ///
+    /// Returns false if an instant has no slot anymore.
+    fn propagate_scheduling(&mut self, i: Instant) -> bool
     {
-        debug_assert!( i as usize <= self.schedule.len() );
-        unsafe {
-            self.constraints
-                .constraints_from(i)
-                .for_each(|k| {
-                    let j = k.to() as usize;
-                    *self.schedule.get_unchecked_mut(j) =
-                        self.schedule.get_unchecked(j).iter()
-                            .intersection(self.schedule.get_unchecked(i as usize)
-                                .iter()
-                                .translation(&TimeInterval::from(k)))
-                            .collect();
-                });
+        debug_assert!( (i as usize) < self.schedule.len() );
+        // a single pass is not enough if there are holes between the slots
+        let mut pending = VecDeque::from([i]);
+        while let Some(i) = pending.pop_front() {
+            for k in self.constraints.constraints_from(i) {
+                let j = k.to();
+                let slots: TimeSlots = self.schedule[j as usize].iter()
+                    .intersection(self.schedule[i as usize]
+                        .iter()
+                        .translation(&TimeInterval::from(k)))
+                    .collect();
+                if slots.is_empty() { return false; }
+                if slots != self.schedule[j as usize] {
+                    self.schedule[j as usize] = slots;
+                    if !pending.contains(&j) { pending.push_back(j); }
+                }
+            }
         }
+        true
     }
 }
 
-- 
2.43.0


From 2b0cf750c904317d6fbd760f590ee000396fe62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:30 +0000
Subject: [PATCH 34/49] fix: the empty window is formatted as {}

---
 src/wins/format.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 9ed3c43..75c5204 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -86,7 +86,7 @@ fn format_timeslot<TW:TimeConvex>(tw: &TW, timefmt: &str) -> String
     where TW::TimePoint: TimePointFormat
 {
     if tw.is_empty() {
-        "{{}}".to_string()
+        "{}".to_string()
 
     } else if tw.is_singleton() {
         format!("{{{}}}", tw.lower_bound().format_timepoint(timefmt))
@@ -114,7 +114,7 @@ impl<TW:TimeWindow> TimeSetFormat for TW
             iter.fold(format_timeslot(&first, timefmt),
                       |s,i| s + "U" + &format_timeslot(&i,timefmt))
         } else {
-           "{{}}".to_string() /* empty set */
+           "{}".to_string() /* empty set */
         }
     }
 }
-- 
2.43.0


From 1b1ac64f7556fa9caa60391b287d00bf4c22780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:21 +0000
Subject: [PATCH 35/49] fix: rounding keeps infinite values and saturates

---
 src/wins/timevalue.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/wins/timevalue.rs b/src/wins/timevalue.rs
index 533d8e8..f6d9456 100644
--- a/src/wins/timevalue.rs
+++ b/src/wins/timevalue.rs
@@ -196,11 +196,12 @@ impl TimeValue {
     #[inline]
     pub fn floor(self, period:TimeValue) -> Self
     {
-        Self(
+        if !self.is_finite() { return self }
+        TimeValue::from_ticks(
             if self.0 >= 0 {
                 (self.0/period.0)*period.0
             } else {
-                ((self.0+1)/period.0-1)*period.0
+                ((self.0+1)/period.0-1).saturating_mul(period.0)
             }
         )
     }
@@ -208,9 +209,10 @@ impl TimeValue {
     #[inline]
     pub fn ceil(self, period:TimeValue) -> Self
     {
-        Self(
+        if !self.is_finite() { return self }
+        TimeValue::from_ticks(
             if self.0 > 0 {
-                ((self.0-1)/period.0+1)*period.0
+                ((self.0-1)/period.0+1).saturating_mul(period.0)
             } else {
                 (self.0/period.0)*period.0
             }
-- 
2.43.0


From 348309984a2c49f621dc16c949920ef634254c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:01 +0000
Subject: [PATCH 36/49] fix: infinite time points are formatted as infinities

---
 src/wins/format.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/wins/format.rs b/src/wins/format.rs
index 75c5204..5261c5a 100644
--- a/src/wins/format.rs
+++ b/src/wins/format.rs
@@ -12,19 +12,17 @@ pub trait TimePointFormat {
 
 impl TimePointFormat for TimeValue {
 
-    fn format_timepoint(self, _timefmt: &str) -> String {
-        if self.is_positive() {
-            format_duration(self.as_ticks())
-        } else {
-            format!("- {}", &format_duration(-self.as_ticks()))
-        }
-    }
+    fn format_timepoint(self, _timefmt: &str) -> String { self.to_string() }
 }
 
 impl TimePointFormat for Timestamp {
 
     fn format_timepoint(self, timefmt: &str) -> String {
-        format_timestamp(self, timefmt).to_string()
+        if self.is_finite() {
+            format_timestamp(self, timefmt).to_string()
+        } else {
+            self.to_string()
+        }
     }
 }
 
-- 
2.43.0


From 32dbf0bfeaac7fd4c29a34de10749d885614303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 37/49] fix: a range holding no finite point is an empty window

---
 src/ops/range.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ops/range.rs b/src/ops/range.rs
index 6acb40f..bfd0f58 100644
--- a/src/ops/range.rs
+++ b/src/ops/range.rs
@@ -7,55 +7,57 @@ use crate::iter::*;
 impl<T:TimePoint> TimeBounds for Range<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool { Range::is_empty(self) || self.end.just_before().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { self.start } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE} else { self.end.just_before() } }// not inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE } else { self.start } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE} else { self.end.just_before() } }// not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeFrom<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.start.is_future_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { false }
     #[inline] fn lower_bound(&self) -> Self::TimePoint { self.start }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { Self::TimePoint::INFINITE }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { T::INFINITE } }
 }
 
 impl<T:TimePoint> TimeBounds for RangeInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { RangeInclusive::is_empty(self) }
+    #[inline] fn is_empty(&self) -> bool {
+        RangeInclusive::is_empty(self) || self.start().is_future_infinite() || self.end().is_past_infinite()
+    }
     #[inline] fn is_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() && self.upper_bound().is_finite() }
     #[inline] fn is_low_bounded(&self) -> bool { !self.is_empty() && self.lower_bound().is_finite() }
     #[inline] fn is_up_bounded(&self) -> bool { !self.is_empty() && self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE} else { *self.start() } }
-    #[inline] fn upper_bound(&self) -> Self::TimePoint { if self.is_empty() { -T::INFINITE } else { *self.end() } } // inclusive
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { T::INFINITE} else { *self.start() } }
+    #[inline] fn upper_bound(&self) -> Self::TimePoint { if TimeBounds::is_empty(self) { -T::INFINITE } else { *self.end() } } // inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeTo<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.upper_bound().is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end.just_before() } // not inclusive
 }
 
 impl<T:TimePoint> TimeBounds for RangeToInclusive<T>
 {
     type TimePoint = T;
-    #[inline] fn is_empty(&self) -> bool { false }
+    #[inline] fn is_empty(&self) -> bool { self.end.is_past_infinite() }
     #[inline] fn is_bounded(&self) -> bool { false }
     #[inline] fn is_low_bounded(&self) -> bool { false }
     #[inline] fn is_up_bounded(&self) -> bool { self.upper_bound().is_finite()  }
-    #[inline] fn lower_bound(&self) -> Self::TimePoint { - Self::TimePoint::INFINITE }
+    #[inline] fn lower_bound(&self) -> Self::TimePoint { if self.is_empty() { T::INFINITE } else { -T::INFINITE } }
     #[inline] fn upper_bound(&self) -> Self::TimePoint { self.end } // inclusive
 }
 
-- 
2.43.0


From 0033fe6dc76c41272c5fae9105913a6c8bff7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:46 +0000
Subject: [PATCH 38/49] fix: an infinite point adds nothing to a window

---
 src/ops/intersect.rs | 2 ++
 src/ops/union.rs     | 6 ++++--
 src/wins/timeset.rs  | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ops/intersect.rs b/src/ops/intersect.rs
index b806213..13d9e26 100644
--- a/src/ops/intersect.rs
+++ b/src/ops/intersect.rs
@@ -26,6 +26,8 @@ impl<T:TimePoint,TW> BitAndAssign<TW> for TimeInterval<T>
 {
     #[inline]
     fn bitand_assign(&mut self, tw: TW) {
+        // an infinite point gives an empty interval
+        let tw: TimeInterval<T> = tw.into();
         if self.lower < tw.lower_bound() { self.lower = tw.lower_bound(); }
         if self.upper > tw.upper_bound() { self.upper = tw.upper_bound(); }
         if self.lower > self.upper { *self = TimeInterval::empty(); }
diff --git a/src/ops/union.rs b/src/ops/union.rs
index e03fe06..aa12363 100644
--- a/src/ops/union.rs
+++ b/src/ops/union.rs
@@ -36,6 +36,8 @@ impl<T:TimePoint,TW> BitOr<TW> for &TimeInterval<T>
 
     fn bitor(self, tw: TW) -> Self::Output
     {
+        // an infinite point gives an empty interval
+        let tw: TimeInterval<T> = tw.into();
         if self.is_empty() {
             TimeSet::from(tw)
 
@@ -43,10 +45,10 @@ impl<T:TimePoint,TW> BitOr<TW> for &TimeInterval<T>
             (*self).into()
 
         } else if tw.upper_bound() < self.lower.just_before() {
-            TimeSet(vec![tw.into(), *self])
+            TimeSet(vec![tw, *self])
 
         } else if self.upper < tw.lower_bound().just_before() {
-            TimeSet(vec![*self, tw.into()])
+            TimeSet(vec![*self, tw])
 
         } else {
             TimeSet(vec![
diff --git a/src/wins/timeset.rs b/src/wins/timeset.rs
index 824bec8..87bd62d 100644
--- a/src/wins/timeset.rs
+++ b/src/wins/timeset.rs
@@ -160,10 +160,12 @@ impl<T,TW> From<TW> for TimeSet<T>
 {
     #[inline] fn from(tw: TW) -> Self
     {
+        // an infinite point gives an empty interval
+        let tw: TimeInterval<T> = tw.into();
         if tw.is_empty() {
             TimeSet::empty()
         } else {
-            Self(vec![TimeInterval { lower: tw.lower_bound(), upper: tw.upper_bound()}])
+            Self(vec![tw])
         }
     }
 }
-- 
2.43.0


From 3d3edaef3ec5e1784ad62d9193a05065a0e8b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:08 +0000
Subject: [PATCH 39/49] fix: an infinite duration is refused as a constraint
 instead of crashing

---
 src/graph/propagation.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 1d9fec7..6c61149 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -2,7 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::mem::swap;
 use crate::graph::{Instant, TimeConstraint, TimeGraph};
-use crate::TimeValue;
+use crate::{TimePoint, TimeValue};
 
 pub type TimePropagationResult = Result<TimePropagation,TimeInconsistencyError>;
 
@@ -42,11 +42,17 @@ impl fmt::Display for TimeInconsistencyError {
     }
 }
 
+// An empty constraint or an infinite duration could never be satisfied
+fn is_impossible<K:TimeConstraint>(k: &K) -> bool
+{
+    k.is_empty() || k.lower_bound().is_future_infinite() || k.upper_bound().is_past_infinite()
+}
+
 impl TimeGraph
 {
     pub fn propagate<K:TimeConstraint>(&mut self, k: K) -> TimePropagationResult
     {
-        if k.is_empty() {
+        if is_impossible(&k) {
             Err(TimeInconsistencyError::Recovered)
         } else {
             let max = k.from().max(k.to());
@@ -198,7 +204,7 @@ impl TimeGraph
             _ => {
                 let mut change = false;
                 for k in iter {
-                        if k.is_empty() {
+                        if is_impossible(&k) {
                             self.size = 0;
                             self.data.clear();
                             return Err(TimeInconsistencyError::Fatal)
-- 
2.43.0


From 9583a9f9b57a3b98094ab5042a9d2158f048b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:36 +0000
Subject: [PATCH 40/49] fix: shrinking to a large capacity is a no-op, not an
 arithmetic overflow

---
 src/graph/storage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 149bc94..3d28100 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -70,7 +70,7 @@ impl TimeGraph {
     ///
     /// If the current capacity is less than the lower limit, this is a no-op.
     #[inline]
-    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n * n) as usize) }
+    pub fn shrink_to(&mut self, n: Instant) { self.data.shrink_to((n as usize).saturating_mul(n as usize)) }
 
     #[inline]
     pub(super)
-- 
2.43.0


From b436ac6652daab5ea8f8922946dfac14ed9e2e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:38 +0000
Subject: [PATCH 41/49] fix: an instant index beyond the matrix limit is
 refused, not wrapped to unchecked memory accesses

---
 src/graph/propagation.rs | 4 ++--
 src/graph/storage.rs     | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 6c61149..67998a7 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -63,7 +63,7 @@ impl TimeGraph
                 }
                 // a new instant is not constrained yet but the other one could be,
                 // so the constraint should be propagated
-                self.resize(max + 1);
+                self.resize(max.saturating_add(1));
                 self.propagate(k)?;
                 Ok(TimePropagation::Propagated)
             } else {
@@ -210,7 +210,7 @@ impl TimeGraph
                             return Err(TimeInconsistencyError::Fatal)
                         }
                         let max = k.from().max(k.to());
-                        if max >= self.size() { self.resize(max+1); change = true; }
+                        if max >= self.size() { self.resize(max.saturating_add(1)); change = true; }
 
                         let lower = unsafe { self.lower_mut(k.from(), k.to()) };
                         if *lower < k.lower_bound() {
diff --git a/src/graph/storage.rs b/src/graph/storage.rs
index 3d28100..6946075 100644
--- a/src/graph/storage.rs
+++ b/src/graph/storage.rs
@@ -34,9 +34,14 @@ impl TimeGraph {
     /// If the new size is smaller than the current one,
     /// they the related constraint are also removed
     /// buth the impact of their propagation remains.
+    ///
+    /// # Panics
+    /// A graph could not have more than 65535 instants (the matrix index is limited to 32 bits).
     pub fn resize(&mut self, n: Instant)
     {
-        self.data.resize((n * n) as usize, -TimeValue::INFINITE);
+        // the matrix is read and written without checking the index
+        assert!(n < 1 << 16, "too many instants");
+        self.data.resize(n as usize * n as usize, -TimeValue::INFINITE);
         (self.size..n).for_each(|i| unsafe {
             // setting all constraint (i,i) to 0 (constraint from i to itseltf)
             *self.lower_mut(i,i) = TimeValue::default();
-- 
2.43.0


From 61e8e124c50f631acc2898337dcfb18113462dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:12 +0000
Subject: [PATCH 42/49] fix: constraints whose total duration is out of range
 no longer crash the propagation

---
 src/graph/propagation.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/graph/propagation.rs b/src/graph/propagation.rs
index 67998a7..c4d563a 100644
--- a/src/graph/propagation.rs
+++ b/src/graph/propagation.rs
@@ -2,7 +2,7 @@ use std::error::Error;
 use std::fmt;
 use std::mem::swap;
 use crate::graph::{Instant, TimeConstraint, TimeGraph};
-use crate::{TimePoint, TimeValue};
+use crate::{TimePoint, TimeValue, INFINITE_TIME_VALUE};
 
 pub type TimePropagationResult = Result<TimePropagation,TimeInconsistencyError>;
 
@@ -48,6 +48,16 @@ fn is_impossible<K:TimeConstraint>(k: &K) -> bool
     k.is_empty() || k.lower_bound().is_future_infinite() || k.upper_bound().is_past_infinite()
 }
 
+// The lower bound of two consecutive durations
+//
+// A duration is always finite: the lower bound remains at the greatest
+// finite duration when the sum is out of range.
+fn lower_sum(a: TimeValue, b: TimeValue) -> TimeValue
+{
+    let sum = a + b;
+    if sum.is_future_infinite() { TimeValue::from_ticks(INFINITE_TIME_VALUE - 1) } else { sum }
+}
+
 impl TimeGraph
 {
     pub fn propagate<K:TimeConstraint>(&mut self, k: K) -> TimePropagationResult
@@ -141,7 +151,7 @@ impl TimeGraph
         {
             let io_jo =  self.lower(io, jo);
             for i in 0..self.size() {
-                let val: TimeValue = self.lower(i,io)  + io_jo;
+                let val: TimeValue = lower_sum(self.lower(i,io), io_jo);
                 let k = self.lower_mut(i, jo);
                 if val > *k { *k = val; }
             }
@@ -152,7 +162,7 @@ impl TimeGraph
         for j in 0..self.size() {
             let j_jo = self.lower(j,jo);
             for i in 0..self.size() {
-                let val: TimeValue = j_jo + self.lower(jo,i);
+                let val: TimeValue = lower_sum(j_jo, self.lower(jo,i));
                 let k = self.lower_mut(j, i);
                 if val > *k { *k = val; }
             }
@@ -167,7 +177,7 @@ impl TimeGraph
         for k in 0..self.size() {
             for i in 0..self.size() {
                 for j in 0..self.size() {
-                    let val: TimeValue = unsafe { self.lower(i,k)+self.lower(k,j) };
+                    let val: TimeValue = unsafe { lower_sum(self.lower(i,k), self.lower(k,j)) };
                     let x = unsafe { self.lower_mut(i,j) };
                     if val > *x { *x = val; }
                 }
-- 
2.43.0


From a4bb450089937dc45a45bd4e5fca08b66d446158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:21 +0000
Subject: [PATCH 43/49] fix: translating or scaling an empty interval gives an
 empty interval

---
 src/ops/scaling.rs |  3 +++
 src/ops/transl.rs  | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/ops/scaling.rs b/src/ops/scaling.rs
index 3809931..16a3502 100644
--- a/src/ops/scaling.rs
+++ b/src/ops/scaling.rs
@@ -178,6 +178,7 @@ macro_rules! timespanscalingint {
             #[inline]
             #[allow(unused_comparisons)]
             fn mul(self, n: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if n < 0 {
                     // negative factor -> reverse interval
                     (self.upper * n, self.lower * n)
@@ -226,6 +227,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn mul(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper * f, self.lower * f)
@@ -241,6 +243,7 @@ macro_rules! timespanscalingfloat {
             type Output = TimeSpan;
             #[inline]
             fn div(self, f: $scale) -> Self::Output {
+                if self.is_empty() { return self; }
                 let (lower, upper) = if f < 0. {
                     // negative factor -> reverse interval
                     (self.upper / f, self.lower / f)
diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index 291239a..f87b2ac 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -9,6 +9,7 @@ impl<T> Add<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return self; }
         let tw = TimeInterval::new(self.lower + other, self.upper + other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -20,6 +21,7 @@ impl<T> Sub<TimeValue> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeValue) -> Self::Output {
+        if self.is_empty() { return self; }
         let tw = TimeInterval::new(self.lower - other, self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -31,6 +33,7 @@ impl<T> AddAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower += other;
         self.upper += other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -42,6 +45,7 @@ impl<T> SubAssign<TimeValue> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeValue) {
+        if self.is_empty() { return; }
         self.lower -= other;
         self.upper -= other;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -67,6 +71,7 @@ impl<T> Add<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn add(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower + other.lower, self.upper + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -78,6 +83,7 @@ impl<T> Sub<TimeSpan> for TimeInterval<T>
 {
     type Output = Self;
     #[inline] fn sub(self, other: TimeSpan) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper, self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -89,6 +95,7 @@ impl<T> AddAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn add_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
         self.lower += other.lower;
         self.upper += other.upper;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -100,6 +107,7 @@ impl<T> SubAssign<TimeSpan> for TimeInterval<T>
 {
     #[inline]
     fn sub_assign(&mut self, other: TimeSpan) {
+        if self.is_empty() || other.is_empty() { *self = Self::empty(); return; }
         self.lower -= other.upper;
         self.upper -= other.lower;
         assert!( (self.lower != self.upper) || self.lower.is_finite() );
@@ -110,6 +118,7 @@ impl Add<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn add(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeSlot::new(self + other.lower, self + other.upper);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -120,6 +129,7 @@ impl Sub<TimeSpan> for Timestamp {
     type Output = TimeSlot;
     #[inline]
     fn sub(self, other: TimeSpan) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeSlot::new(self - other.upper, self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -142,6 +152,7 @@ impl Sub for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Self) -> Self::Output {
+        if self.is_empty() || other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other.upper,self.upper - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -152,6 +163,7 @@ impl Sub<Timestamp> for TimeSlot {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: Timestamp) -> Self::Output {
+        if self.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self.lower - other,self.upper - other);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
@@ -162,6 +174,7 @@ impl Sub<TimeSlot> for Timestamp {
     type Output = TimeSpan;
     #[inline]
     fn sub(self, other: TimeSlot) -> Self::Output {
+        if other.is_empty() { return TimeInterval::empty(); }
         let tw = TimeInterval::new(self - other.upper,self - other.lower);
         debug_assert!(!tw.is_empty(), "time interval translation overflows");
         tw
-- 
2.43.0


From bed1a8d124005d808e353dce19de31885b298fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:24 +0000
Subject: [PATCH 44/49] fix: a part translated out of the range is dropped from
 sets and does not end the translation iterator

---
 src/iter/transl.rs |  4 ++--
 src/ops/transl.rs  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/iter/transl.rs b/src/iter/transl.rs
index 3d21b10..2d41301 100644
--- a/src/iter/transl.rs
+++ b/src/iter/transl.rs
@@ -34,8 +34,8 @@ impl<I:TimeConvexIterator> Iterator for TimeValueTranslIter<I>
     type Item = I::Item;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.iter.next().map(|tw| tw+self.t)
-            .and_then(|tw| if tw.is_empty() { None } else { Some(tw) })
+        // only the parts which are out of range should be skipped
+        self.iter.by_ref().map(|tw| tw+self.t).find(|tw| !tw.is_empty())
     }
 }
 
diff --git a/src/ops/transl.rs b/src/ops/transl.rs
index f87b2ac..26a2cd9 100644
--- a/src/ops/transl.rs
+++ b/src/ops/transl.rs
@@ -191,7 +191,7 @@ impl<T:TimePoint> Add<TimeValue> for TimeSet<T>
     fn add(self, other: TimeValue) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        Self(self.0.iter().map(|tw| *tw + other).collect())
+        Self(self.0.iter().map(|tw| *tw + other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -203,7 +203,7 @@ impl<T:TimePoint> Sub<TimeValue> for TimeSet<T>
     fn sub(self, other: TimeValue) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        Self(self.0.iter().map(|tw| *tw - other).collect())
+        Self(self.0.iter().map(|tw| *tw - other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -236,7 +236,7 @@ impl Add<Timestamp> for TimeSpans
     fn add(self, other: Timestamp) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        TimeSet(self.0.iter().map(|tw| *tw + other).collect())
+        TimeSet(self.0.iter().map(|tw| *tw + other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -247,7 +247,7 @@ impl Sub<Timestamp> for TimeSpans
     fn sub(self, other: Timestamp) -> Self::Output {
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
-        TimeSet(self.0.iter().map(|tw| *tw - other).collect())
+        TimeSet(self.0.iter().map(|tw| *tw - other).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
@@ -266,7 +266,7 @@ impl Sub<TimeSpans> for Timestamp
         // adding a constant preserves the structure (order and distance
         // between successive intervals -> no new overlapping to manage)
         // but as we subtracts the intervals, the list should be reversed
-        TimeSet(other.0.into_iter().rev().map(|i| self - i).collect())
+        TimeSet(other.0.into_iter().rev().map(|i| self - i).filter(|tw| !tw.is_empty()).collect())
     }
 }
 
-- 
2.43.0


From 4e1711a14208cd9563497ad4db2ee8d6fb4f49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:16 +0000
Subject: [PATCH 45/49] fix: retaining an infinite point is refused instead of
 leaving an empty slot

---
 src/graph/scheduler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 52372ee..09956f6 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -122,7 +122,8 @@ impl TimeScheduler<'_> {
             } else {
                 let former = self.schedule.clone();
                 *self.schedule.get_unchecked_mut(i as usize) &= tw;
-                if self.propagate_scheduling(i) {
+                // an infinite point overlaps unbounded slots but retains no date
+                if !self.schedule.get_unchecked(i as usize).is_empty() && self.propagate_scheduling(i) {
                     Ok(TimePropagation::Propagated)
                 } else {
                     self.schedule = former;
-- 
2.43.0


From dbce5147c4c6717d68d483589d22834bd2942bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:01 +0000
Subject: [PATCH 46/49] fix: dates out of the range support nothing in a
 schedule instead of crashing the propagation

---
 src/graph/scheduler.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/graph/scheduler.rs b/src/graph/scheduler.rs
index 09956f6..b9b8e3b 100644
--- a/src/graph/scheduler.rs
+++ b/src/graph/scheduler.rs
@@ -5,7 +5,7 @@ use std::ops::BitAndAssign;
 use crate::*;
 use crate::graph::*;
 use crate::graph::propagation::{TimeInconsistencyError, TimePropagation, TimePropagationResult};
-use crate::iter::{TimeIntersection, TimeTranslation};
+use crate::iter::TimeIntersection;
 
 
 /// # A manager of constrained time variables.
@@ -153,10 +153,15 @@ impl TimeScheduler<'_> {
         while let Some(i) = pending.pop_front() {
             for k in self.constraints.constraints_from(i) {
                 let j = k.to();
+                let span = TimeInterval::from(k);
+                // the dates which are out of range support nothing
+                let supported: TimeSlots = self.schedule[i as usize].iter()
+                    .filter(|tw| !(tw.lower_bound() + span.lower_bound()).is_future_infinite()
+                        && !(tw.upper_bound() + span.upper_bound()).is_past_infinite())
+                    .map(|tw| tw + span)
+                    .collect();
                 let slots: TimeSlots = self.schedule[j as usize].iter()
-                    .intersection(self.schedule[i as usize]
-                        .iter()
-                        .translation(&TimeInterval::from(k)))
+                    .intersection(supported.iter())
                     .collect();
                 if slots.is_empty() { return false; }
                 if slots != self.schedule[j as usize] {
-- 
2.43.0


From 3851d032b81f9f1d03290b15478aeed59256fec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:19 +0000
Subject: [PATCH 47/49] fix: a union ends at its unbounded interval without
 reading its inputs on

---
 src/iter/union.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/iter/union.rs b/src/iter/union.rs
index 4ea0d36..82caa2c 100644
--- a/src/iter/union.rs
+++ b/src/iter/union.rs
@@ -224,6 +224,11 @@ impl<I,J> Iterator for IterUnion<I,J>
                 UnionState::OnlyJ => { return self.j.next(); }
                 UnionState::End => { return None; }
             }
+            // nothing comes after an interval without upper bound: don’t read the inputs on
+            if self.tmp.upper.is_future_infinite() {
+                self.state = UnionState::End;
+                return Some(self.tmp);
+            }
         }
     }
 
-- 
2.43.0


From af43fb36832851915955be9513278c1cb37d0385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:30 +0000
Subject: [PATCH 48/49] fix: an interval centered on an infinite point is the
 empty one

---
 src/wins/timeinterval.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index cf3bf88..58a473a 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -160,10 +160,7 @@ impl<T:TimePoint> TimeInterval<T>
     pub fn centered(origin: T, delta: TimeValue) -> Option<Self>
     {
         // if delta is negative, we could be surprised...
-        delta.is_positive().then_some(Self {
-            lower: origin - delta,
-            upper: origin + delta,
-        })
+        delta.is_positive().then(|| Self::new(origin - delta, origin + delta))
     }
 
     #[inline]
-- 
2.43.0


From 694b465b4240899eeb9bc11202bb867ed6fc13cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:31 +0000
Subject: [PATCH 49/49] fix: an interval shrunk up to an infinite point does
 not exist

---
 src/wins/timeinterval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wins/timeinterval.rs b/src/wins/timeinterval.rs
index 58a473a..8f7013a 100644
--- a/src/wins/timeinterval.rs
+++ b/src/wins/timeinterval.rs
@@ -169,7 +169,7 @@ impl<T:TimePoint> TimeInterval<T>
         let lower = self.lower - delta;
         let upper = self.upper + delta;
         // if delta is negative, we could be surprised...
-        (lower <= upper).then_some(Self { lower, upper } )
+        Some(Self::new(lower, upper)).filter(|i| !i.is_empty())
     }
 
 }
-- 
2.43.0


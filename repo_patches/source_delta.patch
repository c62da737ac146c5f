From f7edfd7321eef61b14166b79cd596a34af81c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 01/14] fix: normalize finite intervals to the unique form of
 their points

Open(1,3) became Closed(2,2) instead of Point(2), and Open(1,2) became the
inverted Closed(2,1) instead of Empty; likewise for the other shapes.
---
 src/normalize.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index dd0cdaf..eab32c2 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -77,24 +77,24 @@ pub trait Normalize {
 // }
 
 /// Specialization for [`Finite`] intervals.
-impl<T> Normalize for RawInterval<T> where T: Finite {
+impl<T> Normalize for RawInterval<T> where T: Ord + Finite {
     fn normalize(&mut self) {
         use RawInterval::*;
         *self = match std::mem::replace(self, Empty) {
             Empty           => Empty,
             Point(p)        => Point(p),
             Open(l, r)      => match (l.succ(), r.pred()) {
-                (Some(l), Some(r)) => Closed(l, r),
+                (Some(l), Some(r)) => Self::closed(l, r),
                 _                  => Empty,
             },
-            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Closed(l, r)),
-            RightOpen(l, r) => r.pred().map_or(Empty, |r| Closed(l, r)),
-            Closed(l, r)    => Closed(l, r),
-            UpTo(r)         => r.pred().map_or(Empty, |r| Closed(T::MINIMUM, r)),
-            UpFrom(l)       => l.succ().map_or(Empty, |l| Closed(l, T::MAXIMUM)),
-            To(p)           => Closed(T::MINIMUM, p),
-            From(p)         => Closed(p, T::MAXIMUM),
-            Full            => Closed(T::MINIMUM, T::MAXIMUM),
+            LeftOpen(l, r)  => l.succ().map_or(Empty, |l| Self::closed(l, r)),
+            RightOpen(l, r) => r.pred().map_or(Empty, |r| Self::closed(l, r)),
+            Closed(l, r)    => Self::closed(l, r),
+            UpTo(r)         => r.pred().map_or(Empty, |r| Self::closed(T::MINIMUM, r)),
+            UpFrom(l)       => l.succ().map_or(Empty, |l| Self::closed(l, T::MAXIMUM)),
+            To(p)           => Self::closed(T::MINIMUM, p),
+            From(p)         => Self::closed(p, T::MAXIMUM),
+            Full            => Self::closed(T::MINIMUM, T::MAXIMUM),
         }
     }
 
-- 
2.43.0


From 46284586b852f7f84b16a8561809900ebe628ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 02/14] fix: denormalize To and From without changing their
 points

To(p) became the interval up to p's predecessor and From(p) the one from its
successor; the exclusive bound lies on the other side of p.
---
 src/normalize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normalize.rs b/src/normalize.rs
index eab32c2..2a74138 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -125,8 +125,8 @@ impl<T> Normalize for RawInterval<T> where T: Ord + Finite {
             },
             UpTo(r)         => UpTo(r),
             UpFrom(l)       => UpFrom(l),
-            To(p)           => p.pred().map_or(Empty, |r| UpTo(r)),
-            From(p)         => p.succ().map_or(Empty, |l| UpFrom(l)),
+            To(p)           => p.succ().map_or(Full, |r| UpTo(r)),
+            From(p)         => p.pred().map_or(Full, |l| UpFrom(l)),
             Full            => Full,
         }
     }
-- 
2.43.0


From 7c770761e29707c41a4908231c1cb1f56557f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:24 +0000
Subject: [PATCH 03/14] fix: start RawInterval::enclose_all from the empty
 interval

Starting from Full made the enclosure of any sequence the full interval.
---
 src/raw_interval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index f0d71c1..768a693 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -392,7 +392,7 @@ impl<T> RawInterval<T> where T: Ord + Clone {
     pub fn enclose_all<I>(intervals: I) -> Self
         where I: Iterator<Item=Self>
     {
-        intervals.fold(Self::Full, |acc, i| acc.enclose(&i))
+        intervals.fold(Self::Empty, |acc, i| acc.enclose(&i))
     }
 
     /// Returns the intersection of all of the given intervals.
-- 
2.43.0


From 1ad5cc3a4b33695cf3f586938fe581b148feffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:08 +0000
Subject: [PATCH 04/14] fix: keep the points that subtracting a tine does not
 remove

---
 src/tine.rs      | 8 ++++++--
 src/tine_tree.rs | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index a4db9d1..b030741 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -226,6 +226,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(_),          &Lower(_))          => None,
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Exclude(l)), &Point(Include(_))) => Some(Lower(Exclude(l))),
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
             (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Lower(Exclude(l))),
@@ -238,10 +240,10 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Point(Include(_)), &Upper(Include(_))) => None,
             (Point(Include(l)), _)                  => Some(Point(Include(l))),
 
-            (Point(Exclude(l)), &Lower(_))          => Some(Lower(Exclude(l))),
+            (Point(Exclude(l)), &Lower(_))          => Some(Upper(Exclude(l))),
             (Point(Exclude(l)), &Point(Include(_))) => Some(Point(Exclude(l))),
             (Point(Exclude(_)), &Point(Exclude(_))) => None,
-            (Point(Exclude(l)), &Upper(_))          => Some(Upper(Exclude(l))),
+            (Point(Exclude(l)), &Upper(_))          => Some(Lower(Exclude(l))),
 
             (Upper(Include(l)), &Lower(Include(_))) => Some(Upper(Exclude(l))),
             (Upper(Include(l)), &Lower(Exclude(_))) => Some(Upper(Include(l))),
@@ -249,6 +251,8 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(Exclude(l)), &Lower(Exclude(_))) => Some(Upper(Exclude(l))),
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Exclude(l)), &Point(Include(_))) => Some(Upper(Exclude(l))),
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Point(Include(l))),
             (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Point(Include(l))),
diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index adc129b..acac713 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -664,7 +664,8 @@ impl<T> TineTree<T> where T: Ord + Clone {
             (true,  true)  => {
                 // (   )
                 //   |
-                self.0.insert(p.invert());
+                // The point may already be excluded from the interval.
+                self.0.insert(if p.is_point_include() {p.invert()} else {p});
             },
             (true,  false) => {
                 // ( )   ( )
-- 
2.43.0


From f3556174125247c063b6c57bd9d615aeb5a96e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:48 +0000
Subject: [PATCH 05/14] fix: keep the boundary when intersecting with an
 excluded point tine

---
 src/tine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tine.rs b/src/tine.rs
index b030741..46be84a 100644
--- a/src/tine.rs
+++ b/src/tine.rs
@@ -182,8 +182,9 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Lower(lb),         &Lower(_))          => Some(Lower(lb)),
 
             (Lower(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Lower(_),          &Point(Include(_))) => None,
+            (Lower(Include(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
             (Lower(Exclude(l)), &Point(Exclude(_))) => Some(Lower(Exclude(l))),
-            (Lower(_),          &Point(_))          => None,
 
             (Lower(Include(l)), &Upper(Include(_))) => Some(Point(Include(l))),
             (Lower(_),          &Upper(_))          => None,
@@ -202,8 +203,9 @@ impl<T> Tine<T> where T: PartialOrd + Ord + Clone {
             (Upper(_),          &Lower(_))          => None,
 
             (Upper(Include(l)), &Point(Include(_))) => Some(Point(Include(l))),
+            (Upper(_),          &Point(Include(_))) => None,
+            (Upper(Include(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Point(Exclude(_))) => Some(Upper(Exclude(l))),
-            (Upper(_),          &Point(_))          => None,
 
             (Upper(Include(l)), &Upper(Exclude(_))) => Some(Upper(Exclude(l))),
             (Upper(Exclude(l)), &Upper(Include(_))) => Some(Upper(Exclude(l))),
-- 
2.43.0


From c0a58d5ad809b5d5cdf4e5de4ec26d8eae611b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 06/14] fix: only keep intersection bounds that cut an interval
 of the tree

---
 src/tine_tree.rs | 102 +++++++++++++----------------------------------
 1 file changed, 27 insertions(+), 75 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index acac713..0ed084a 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -323,31 +323,8 @@ impl<T> TineTree<T> where T: Ord + Clone {
     fn intersect_proper_interval(&mut self, l: Tine<T>, u: Tine<T>) {
         let mut ts = self.interior_split_for_proper_interval(&l, &u);
 
-        // Merge tines if overlap or use given ones. We should only have `None`
-        // in the case of a intersection annhiliation.
-        let merged_l = if ts[2].is_some() {
-            ts[2].take().and_then(|lower| lower.intersect(&l))
-        } else {
-            Some(l)
-        };
-
-        let merged_u = if ts[3].is_some() {
-            ts[3].take().and_then(|upper| upper.intersect(&u))
-        } else {
-            Some(u)
-        };
-        
-        // Ensure inner tines have the correct bounds.
-        debug_assert!(merged_l
-            .as_ref()
-            .map_or(true, Tine::is_lower_bound));
-        debug_assert!(merged_u
-            .as_ref()
-            .map_or(true, Tine::is_upper_bound));
-
-        
-        // We need to detect whether the point is inside or outside an interval.
-        // To do this, we look at the tines inside and outside the interval.
+        // We need to detect whether the bounds are inside or outside an existing
+        // interval. To do this, we look at the tines outside of the interval.
         let open_before = ts[0]
             .as_ref()
             .is_some_and(Tine::is_lower_bound);
@@ -355,59 +332,34 @@ impl<T> TineTree<T> where T: Ord + Clone {
             .as_ref()
             .is_some_and(Tine::is_upper_bound);
 
-        let in_l = ts[1]
+        // Merge tines if overlap or use given ones if they are wrapped by a
+        // surrounding interval. We will have `None` in the case of a
+        // intersection annhiliation, or if there is nothing to intersect.
+        let merged_l = match ts[2].take() {
+            Some(lower) => lower.intersect(&l),
+            // (     )
+            //   (
+            None        => open_before.then_some(l),
+        };
+
+        let merged_u = match ts[3].take() {
+            Some(upper) => upper.intersect(&u),
+            // (     )
+            //     )
+            None        => closed_after.then_some(u),
+        };
+
+        // Ensure inner tines have the correct bounds.
+        debug_assert!(merged_l
             .as_ref()
-            .is_some_and(Tine::is_upper_bound);
-        let in_r = ts[4]
+            .map_or(true, |l| l.is_lower_bound() || l.is_point_include()));
+        debug_assert!(merged_u
             .as_ref()
-            .is_some_and(Tine::is_lower_bound);
-
+            .map_or(true, |u| u.is_upper_bound() || u.is_point_include()));
 
-        // Insert tines into the tree, ignoring them if the are not wrapped by a
-        // surrounding interval, or not wrapping a surrounding interval.
-        match (open_before, merged_l, in_l, in_r, merged_u, closed_after) {
-            (_,     Some(l), true,  true,  Some(u), _   )  |
-            (_,     Some(l), false, false, Some(u), _   )  => {
-                // (   ) (   )
-                //   (     )
-                //     O R
-                // (     )
-                //   ( )
-                //     O R
-                // (     )
-                // (  )
-                //     O R
-                // (     )
-                //    (  )
-                self.0.insert(l);
-                self.0.insert(u);
-            },
-            (true, Some(l),  true,  false, _,       false) => {
-                // (   )
-                //   (   )
-                //     O R
-                // (   ) ( )
-                //   (   )
-                self.0.insert(l);
-            },
-            (false, _,       false, true,  Some(u), true)  => {
-                //   (   )
-                // (   )
-                //     O R
-                // ( ) (   )
-                //   (   )
-                self.0.insert(u);
-            },
-            (false, _,       false, false, _,       false) => {
-                // )     (
-                // (     )
-                //     O R
-                //   ( )
-                // (     )
-                /* Do nothing. */
-            },
-            _ => unreachable!("invalid bounds for intersection interval"),
-        }
+        // Insert the remaining tines into the tree.
+        self.0.extend(merged_l);
+        self.0.extend(merged_u);
     }
 
     /// Unions the given interval with the contents of the tree.
-- 
2.43.0


From c8168462afe16eea17c5afe2a32fa72d7156d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:48 +0000
Subject: [PATCH 07/14] fix: intersect every overlapping pair of tree intervals

---
 src/tine_tree.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 0ed084a..93daf0a 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -181,23 +181,21 @@ impl<T> TineTree<T> where T: Ord + Clone {
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
         let mut intersection = Self::new();
-        let self_intervals = self.interval_iter();
+        let mut self_intervals = self.interval_iter();
         let mut other_intervals = other.interval_iter();
 
-        for self_interval in self_intervals {
-            'segment: loop {
-                if let Some(other_interval) = other_intervals.next() {
-                    let i = self_interval.intersect(&other_interval);
-                    if i.is_empty() {
-                        // Nothing else overlaps in this segment.
-                        break 'segment;
-                    }
+        let mut self_next = self_intervals.next();
+        let mut other_next = other_intervals.next();
+        while let (Some(l), Some(r)) = (&self_next, &other_next) {
+            intersection.union_in_place(&l.intersect(r));
 
-                    intersection.union_in_place(&i);
-                } else {
-                    // Nothing else overlaps anywhere.
-                    return intersection;
-                }
+            // Whichever interval ends first can't overlap anything else.
+            if l.upper_bound().map(Tine::Upper)
+                < r.upper_bound().map(Tine::Upper)
+            {
+                self_next = self_intervals.next();
+            } else {
+                other_next = other_intervals.next();
             }
         }
         intersection
-- 
2.43.0


From 56d6aa077a57b5c07381e0e17149f5d3e6f8067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 08/14] fix: save excluded points for the right end of the tree
 iterators

---
 src/tine_tree.rs | 72 +++++++++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/src/tine_tree.rs b/src/tine_tree.rs
index 93daf0a..bcae8ff 100644
--- a/src/tine_tree.rs
+++ b/src/tine_tree.rs
@@ -984,13 +984,17 @@ impl<T> Iterator for IntoIter<T> where T: Ord + Clone {
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.inner.next()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.inner.next() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        // The interval above was produced from the back.
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1020,13 +1024,17 @@ impl<T> DoubleEndedIterator for IntoIter<T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.inner.next_back()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.inner.next_back() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        // The interval below was produced from the front.
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
@@ -1073,13 +1081,17 @@ impl<'t, T> Iterator for Iter<'t, T>
                     // Next tine must be a lower bound of an interval.
                     debug_assert!(lower.is_lower_bound());
 
-                    let upper = self.tine_iter.next().cloned()
-                        .or_else(|| self.saved_upper.take())
-                        .expect("interval is not partial");
-
-                    if upper.is_point_exclude() {
-                        self.saved_lower = Some(upper.clone());
-                    }
+                    let upper = if let Some(upper) = self.tine_iter.next().cloned() {
+                        if upper.is_point_exclude() {
+                            self.saved_lower = Some(upper.clone());
+                        }
+                        upper
+                    } else {
+                        // The interval above was produced from the back.
+                        self.saved_upper
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be an upper bound.
                     debug_assert!(upper.is_upper_bound());
@@ -1110,13 +1122,17 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
                     // Next tine must be an upper bound of an interval.
                     debug_assert!(upper.is_upper_bound());
 
-                    let lower = self.tine_iter.next_back().cloned()
-                        .or_else(|| self.saved_lower.take())
-                        .expect("interval is not partial");
-
-                    if lower.is_point_exclude() {
-                        self.saved_lower = Some(lower.clone());
-                    }
+                    let lower = if let Some(lower) = self.tine_iter.next_back().cloned() {
+                        if lower.is_point_exclude() {
+                            self.saved_upper = Some(lower.clone());
+                        }
+                        lower
+                    } else {
+                        // The interval below was produced from the front.
+                        self.saved_lower
+                            .take()
+                            .expect("interval is not partial")
+                    };
 
                     // ... and the next tine after must be a lower bound.
                     debug_assert!(lower.is_lower_bound());
-- 
2.43.0


From ed6a35cefaa670f4b0bb5671211a48391acd9ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:14 +0000
Subject: [PATCH 09/14] fix: iterate a selection's points from both ends at
 once

---
 src/selection.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index 9368290..bf03979 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -874,6 +874,7 @@ impl<T> Selection<T>
         Iter {
             intervals: self.0.interval_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -888,6 +889,7 @@ impl<T> IntoIterator for Selection<T>
         IntoIter {
             intervals: self.0.into_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -902,6 +904,7 @@ impl<'a, T> IntoIterator for &'a Selection<T>
         Iter {
             intervals: self.0.interval_iter(),
             current: Interval::empty().iter(),
+            current_back: Interval::empty().iter(),
         }
     }
 }
@@ -1058,6 +1061,8 @@ pub struct IntoIter<T>
     intervals: crate::tine_tree::IntoIter<T>,
     /// The current interval.
     current: crate::interval::Iter<T>,
+    /// The interval currently being iterated over from the back.
+    current_back: crate::interval::Iter<T>,
 }
 
 impl<T> Iterator for IntoIter<T>
@@ -1076,7 +1081,7 @@ impl<T> Iterator for IntoIter<T>
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current_back.next(),
         };
 
         self.current.next()
@@ -1087,20 +1092,20 @@ impl<T> DoubleEndedIterator for IntoIter<T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.current_back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.current_back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current.next_back(),
         };
 
-        self.current.next_back()
+        self.current_back.next_back()
     }
 }
 
@@ -1120,6 +1125,8 @@ pub struct Iter<'t, T>
     intervals: crate::tine_tree::Iter<'t, T>,
     /// The current interval.
     current: crate::interval::Iter<T>,
+    /// The interval currently being iterated over from the back.
+    current_back: crate::interval::Iter<T>,
 }
 
 impl<'t, T> Iterator for Iter<'t, T>
@@ -1138,7 +1145,7 @@ impl<'t, T> Iterator for Iter<'t, T>
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current_back.next(),
         };
 
         self.current.next()
@@ -1149,20 +1156,20 @@ impl<'t, T> DoubleEndedIterator for Iter<'t, T>
     where T: Ord + Clone + Finite,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if let Some(next_back) = self.current.next_back() {
+        if let Some(next_back) = self.current_back.next_back() {
             return Some(next_back);
         }
 
-        self.current = match self.intervals
+        self.current_back = match self.intervals
             .next_back()
             .map(Normalize::normalized)
             .map(Interval::from)
         {
             Some(interval) => interval.iter(),
-            None           => return None,
+            None           => return self.current.next_back(),
         };
 
-        self.current.next_back()
+        self.current_back.next_back()
     }
 }
 
-- 
2.43.0


From 5b6d5755003778192d40e17e7bba211504975745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 10/14] fix: keep the intervals of a selection denormalized
 after every operation

---
 src/selection.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/selection.rs b/src/selection.rs
index bf03979..e1bc0e3 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -111,6 +111,16 @@ impl<T> Selection<T>
         Interval::full().into()
     }
 
+    /// Constructs a `Selection` from a `TineTree` whose intervals may not be
+    /// denormalized, such as those with bounds produced by an intersection or
+    /// complement.
+    fn from_pieces(tree: TineTree<T>) -> Self {
+        Self(tree
+            .into_iter()
+            .map(|interval| interval.normalized().denormalized())
+            .collect())
+    }
+
     // Bound accessors
     ////////////////////////////////////////////////////////////////////////////
 
@@ -500,7 +510,7 @@ impl<T> Selection<T>
     #[must_use]
     pub fn intersects(&self, other: &Self) -> bool {
         // TODO: Make generic?
-        !self.0.intersect(&other.0).is_empty()
+        !self.intersect(other).is_empty()
     }
 
     // Symmetric set operations
@@ -552,7 +562,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn complement(&self) -> Self {
-        Self(self.0.complement())
+        Self::from_pieces(self.0.complement())
     }
 
     /// Returns the `Selection` containing all points in both the given
@@ -595,7 +605,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn intersect(&self, other: &Self) -> Self {
-        Self(self.0.intersect(&other.0))
+        Self::from_pieces(self.0.intersect(&other.0))
     }
 
     /// Returns the `Selection` containing all points in either of the given
@@ -662,7 +672,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn minus(&self, other: &Self) -> Self {
-        Self(self.0.minus(&other.0))
+        Self::from_pieces(self.0.minus(&other.0))
     }
 
     /// Returns the smallest `Interval` containing all of the points in the 
@@ -760,6 +770,7 @@ impl<T> Selection<T>
     /// ```
     pub fn intersect_in_place(&mut self, interval: Interval<T>) {
         self.0.intersect_in_place(&interval.0.denormalized());
+        *self = Self::from_pieces(std::mem::take(&mut self.0));
     }
 
     /// Adds all of the points in the given `Interval` to the `Selection`.
@@ -846,6 +857,7 @@ impl<T> Selection<T>
     /// ```
     pub fn minus_in_place(&mut self, interval: Interval<T>) {
         self.0.minus_in_place(&interval.0.denormalized());
+        *self = Self::from_pieces(std::mem::take(&mut self.0));
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 30b41c5d25e8874f9d94eddae5761068fadd4fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:43 +0000
Subject: [PATCH 11/14] fix: close a selection over its points, not its
 denormalized bounds

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index e1bc0e3..69dd5d7 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -722,7 +722,7 @@ impl<T> Selection<T>
     /// ```
     #[must_use]
     pub fn closure(&self) -> Interval<T> {
-        Interval(self.0.closure().normalized())
+        self.enclose().closure()
     }
 
     // In-place operations
-- 
2.43.0


From ac8f24a2e1bb78d6b5234922c8eaa138cdb52069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:46 +0000
Subject: [PATCH 12/14] fix: report a selection as bounded when both of its
 sides are

---
 src/selection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/selection.rs b/src/selection.rs
index 69dd5d7..8f0890d 100644
--- a/src/selection.rs
+++ b/src/selection.rs
@@ -378,7 +378,7 @@ impl<T> Selection<T>
     #[inline]
     #[must_use]
     pub fn is_bounded(&self) -> bool {
-        self.lower_bound().is_some() || self.upper_bound().is_some()
+        self.is_left_bounded() && self.is_right_bounded()
     }
 
     /// Returns `true` if the the `Selection` is left-bounded.
-- 
2.43.0


From e9ab2a6b6f1d56dd36be8dc20960aca4c6cd1d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:19 +0000
Subject: [PATCH 13/14] fix: normalize intervals when deserializing them

---
 src/interval.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/interval.rs b/src/interval.rs
index dc00dbc..9015ac0 100644
--- a/src/interval.rs
+++ b/src/interval.rs
@@ -45,10 +45,24 @@ use std::ops::Sub;
 /// [`Finite`]: ../normalize/trait.Finite.html
 #[repr(transparent)]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
-#[cfg_attr(feature="serde", derive(Deserialize, Serialize))]
+#[cfg_attr(feature="serde", derive(Serialize))]
 #[cfg_attr(feature="serde", serde(transparent))]
 pub struct Interval<T>(pub (crate) RawInterval<T>);
 
+// Intervals are normalized when deserialized, as they are when created.
+#[cfg(feature="serde")]
+impl<'de, T> Deserialize<'de> for Interval<T>
+    where
+        T: Ord + Clone + Deserialize<'de>,
+        RawInterval<T>: Normalize,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+        where D: serde::Deserializer<'de>
+    {
+        RawInterval::deserialize(deserializer).map(Self::from)
+    }
+}
+
 impl<T> Default for Interval<T>
     where
         T: Ord + Clone,
-- 
2.43.0


From e52e589122bbe21ba418e113211dfef14a1bc570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 14/14] fix: reject text around the empty and unbounded marks
 when parsing intervals

---
 src/raw_interval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/raw_interval.rs b/src/raw_interval.rs
index 768a693..7c54c4d 100644
--- a/src/raw_interval.rs
+++ b/src/raw_interval.rs
@@ -462,14 +462,14 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use RawInterval::*;
         // Parse empty interval.
-        if s.starts_with("Ø") { return Ok(Empty); }
+        if s.trim_end() == "Ø" { return Ok(Empty); }
         // Parse point interval.
         if let Ok(p) = T::from_str(s) { return Ok(Point(p)); }
 
         let (x, y) = s.split_once(',')
             .ok_or(IntervalParseError::InvalidInterval)?;
 
-        let lb = if x.starts_with("(-∞") { 
+        let lb = if x.trim_end() == "(-∞" { 
             Bound::Infinite
         } else if let Some(res) = x.strip_prefix('(') {
             Bound::Exclude(T::from_str(res)
@@ -481,7 +481,7 @@ impl<T> FromStr for RawInterval<T> where T: Ord + FromStr {
             return Err(IntervalParseError::InvalidInterval);
         };
 
-        let ub = if y.ends_with("∞)") { 
+        let ub = if matches!(y.trim_start(), "∞)" | "+∞)") { 
             Bound::Infinite
         } else if y.ends_with(')') {
             let end = y.len() - 1;
-- 
2.43.0


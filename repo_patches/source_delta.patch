From 0c4f487360046eaa17c0513b49678f920ba109d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:52 +0000
Subject: [PATCH 01/17] fix: bounds-check the range passed to SliceHash::hash

SliceHash is a public, safe trait. Its implementations for String and [u8]
sliced with get_unchecked, so an out-of-range argument was undefined
behaviour reachable from safe code.
---
 frozen-collections-core/src/traits/slice_hash.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/traits/slice_hash.rs b/frozen-collections-core/src/traits/slice_hash.rs
index 9bbb91c..b803aa5 100644
--- a/frozen-collections-core/src/traits/slice_hash.rs
+++ b/frozen-collections-core/src/traits/slice_hash.rs
@@ -4,6 +4,10 @@ use std::ops::Range;
 /// Enables hashing over a slice of an input.
 pub trait SliceHash {
     /// Hash only a slice.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the range is out of bounds.
     #[must_use]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64;
 }
@@ -12,7 +16,7 @@ impl SliceHash for String {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.as_bytes().get_unchecked(range) };
+        let b = &self.as_bytes()[range];
         h.write(b);
         h.finish()
     }
@@ -22,7 +26,7 @@ impl SliceHash for [u8] {
     #[inline]
     fn hash<BH: BuildHasher>(&self, bh: &BH, range: Range<usize>) -> u64 {
         let mut h = bh.build_hasher();
-        let b = unsafe { &self.get_unchecked(range) };
+        let b = &self[range];
         h.write(b);
         h.finish()
     }
-- 
2.43.0


From 82ca7b9e165759f2e757cee905a8219fa8b1f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 02/17] fix: keep right-justified subslices within the key

When looking for a unique right-justified subslice longer than one element,
the analyzer computed a start that left less than subslice_len elements
before the end of the key, so building a FrozenMap or FrozenSet from
ordinary strings of different lengths panicked with an out-of-range slice
index.
---
 frozen-collections-core/src/analyzers/slice_key_analyzer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 674ab2d..3579510 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -194,7 +194,7 @@ where
         let sub = if left_justified {
             &s[subslice_index..subslice_index + subslice_len]
         } else {
-            let start = s.len() - subslice_index - 1;
+            let start = s.len() - subslice_index - subslice_len;
             &s[start..start + subslice_len]
         };
 
-- 
2.43.0


From 5de7f51019ee0887339ebb5815571eeec7115869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 03/17] fix: use one hash for short keys of a LeftSliceMap

A key shorter than the hashed range was placed in the table by hashing
out-of-range bytes, while lookups use 0 as its hash code. Building the map
from such keys was undefined behaviour, and they could not be found.
---
 .../src/specialized_maps/left_slice_map.rs            | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index bd4a22e..c55de0d 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -31,20 +31,17 @@ where
 {
     #[must_use]
     pub fn from_vec_with_hasher(payload: Vec<(K, V)>, range: Range<usize>, bh: BH) -> Self {
-        let codes = payload.iter().map(|entry| {
-            let key = &entry.0;
+        let hash_key = |key: &K| {
             if key.len() >= range.end {
                 key.hash(&bh, range.clone())
             } else {
                 0
             }
-        });
-        let code_analysis = analyze_hash_codes(codes);
+        };
+        let code_analysis = analyze_hash_codes(payload.iter().map(|entry| hash_key(&entry.0)));
 
         Self {
-            table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, range.clone())
-            }),
+            table: HashTable::new(payload, code_analysis.num_hash_slots, hash_key),
             bh,
             range,
         }
-- 
2.43.0


From 5b394a740b429bc117e7b0505f7322e8e6526f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 04/17] fix: hash the right-justified slice of RightSliceMap
 keys

The range counts back from the end of the key, so the bytes it names are
len-range.end..len-range.start. The map hashed the reversed (empty or
out-of-bounds) range, tested the wrong end of it against the key's length,
and hashed keys shorter than the range while building the table: undefined
behaviour for a FrozenMap or FrozenSet built from ordinary strings.
---
 .../src/specialized_maps/right_slice_map.rs     | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 889db70..6a84e6b 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -31,20 +31,17 @@ where
 {
     #[must_use]
     pub fn from_vec_with_hasher(payload: Vec<(K, V)>, range: Range<usize>, bh: BH) -> Self {
-        let codes = payload.iter().map(|entry| {
-            let key = &entry.0;
+        let hash_key = |key: &K| {
             if key.len() >= range.end {
-                key.hash(&bh, key.len() - range.start..key.len() - range.end)
+                key.hash(&bh, key.len() - range.end..key.len() - range.start)
             } else {
                 0
             }
-        });
+        };
+        let code_analysis = analyze_hash_codes(payload.iter().map(|entry| hash_key(&entry.0)));
 
-        let code_analysis = analyze_hash_codes(codes);
         Self {
-            table: HashTable::new(payload, code_analysis.num_hash_slots, |k| {
-                k.hash(&bh, k.len() - range.start..k.len() - range.end)
-            }),
+            table: HashTable::new(payload, code_analysis.num_hash_slots, hash_key),
             bh,
             range,
         }
@@ -76,10 +73,10 @@ where
     where
         Q: SliceHash + Len,
     {
-        let hash_code = if key.len() >= self.range.start {
+        let hash_code = if key.len() >= self.range.end {
             key.hash(
                 &self.bh,
-                key.len() - self.range.start..key.len() - self.range.end,
+                key.len() - self.range.end..key.len() - self.range.start,
             )
         } else {
             0
-- 
2.43.0


From 42f6f1a6ce57af4a14da4c64ee1b36e136fc9c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 05/17] fix: count the remaining items of a set iterator

Iter::len already excludes the items that were consumed; count subtracted
them a second time, so it was wrong, or underflowed, on an iterator that
had been advanced.
---
 frozen-collections-core/src/specialized_sets/iterators.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 96c2045..678c478 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -37,7 +37,7 @@ impl<'a, T> Iterator for Iter<'a, T> {
     where
         Self: Sized,
     {
-        self.len() - self.index
+        self.len()
     }
 }
 
-- 
2.43.0


From 8d3b4578d23c565ae0d5fc54e3c0429c3097d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 06/17] fix: return the remaining size from Union::size_hint

The lower bound was the full length of the first set, however many items
had already been returned.
---
 .../src/specialized_sets/iterators.rs           | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_sets/iterators.rs b/frozen-collections-core/src/specialized_sets/iterators.rs
index 678c478..daa8b91 100644
--- a/frozen-collections-core/src/specialized_sets/iterators.rs
+++ b/frozen-collections-core/src/specialized_sets/iterators.rs
@@ -182,7 +182,22 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.s1.len(), self.s1.len().checked_add(self.s2.len()))
+        let (s1_lower, s1_upper) = self.s1_iter.size_hint();
+        let (s2_lower, s2_upper) = self.s2_iter.size_hint();
+
+        // every remaining item of the set that is iterated first will be returned
+        let lower = if self.s1.len() > self.s2.len() {
+            s1_lower
+        } else {
+            s2_lower
+        };
+
+        let upper = match (s1_upper, s2_upper) {
+            (Some(s1_upper), Some(s2_upper)) => s1_upper.checked_add(s2_upper),
+            _ => None,
+        };
+
+        (lower, upper)
     }
 }
 
-- 
2.43.0


From a9cf8ed3ffbe90c011c5fef57b928f4fdffe37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:08 +0000
Subject: [PATCH 07/17] fix: don't overflow the key type when analyzing integer
 keys

Both the number of keys and the distance between the smallest and largest
one were computed in the key's own type, which overflows for example for
256 u8 keys or for the i8 keys -100 and 100.
---
 .../src/analyzers/int_key_analyzer.rs         | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/int_key_analyzer.rs b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
index 5c5774e..87c2884 100644
--- a/frozen-collections-core/src/analyzers/int_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/int_key_analyzer.rs
@@ -18,22 +18,39 @@ where
 {
     let mut min = K::max_value();
     let mut max = K::min_value();
-    let mut count = K::zero();
+    let mut count = 0;
     for key in keys {
         min = min.min(key);
         max = max.max(key);
-        count = count + K::one();
+        count += 1;
     }
 
-    if count == K::zero() {
+    if count == 0 {
         IntKeyAnalysisResult::Normal
-    } else if max.sub(min) == count - K::one() {
+    } else if distance(min, max) == Some(count - 1) {
         IntKeyAnalysisResult::Range
     } else {
         IntKeyAnalysisResult::Normal
     }
 }
 
+/// Returns the distance from `min` up to `max`, or `None` if it doesn't fit a `usize`.
+///
+/// The distance between two signed integers may not be representable in their own type.
+#[inline]
+pub fn distance<K>(min: K, max: K) -> Option<usize>
+where
+    K: PrimInt,
+{
+    match max.checked_sub(&min) {
+        Some(distance) => distance.to_usize(),
+        None => max
+            .to_usize()?
+            .checked_add((!min).to_usize()?)?
+            .checked_add(1),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8c1a42b971d9466679308f85c51e1f99e8226f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 08/17] fix: index wide ranges of signed keys in
 IntegerRangeMap

key - min overflows the key type when a signed range spans more than half
of it, such as -100..=99 for i8.
---
 .../src/specialized_maps/integer_range_map.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index e30533b..d050c3f 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -6,6 +6,7 @@ use std::ops::{Index, IndexMut};
 
 use num_traits::PrimInt;
 
+use crate::analyzers::int_key_analyzer::distance;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 
@@ -40,8 +41,8 @@ where
         let max = payload[payload.len() - 1].0;
 
         assert_eq!(
-            max.sub(min).to_usize().unwrap(),
-            payload.len() - 1,
+            distance(min, max),
+            Some(payload.len() - 1),
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
@@ -62,7 +63,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(*self.min.borrow(), *key)?;
             Some(&self.entries[index].1)
         } else {
             None
@@ -77,7 +78,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(*self.min.borrow(), *key)?;
             Some(&mut self.entries[index].1)
         } else {
             None
@@ -119,7 +120,7 @@ impl<K, V> IntegerRangeMap<K, V> {
         Q: PrimInt,
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
-            let index = (*key - *self.min.borrow()).to_usize()?;
+            let index = distance(*self.min.borrow(), *key)?;
             Some((&self.entries[index].0, &self.entries[index].1))
         } else {
             None
-- 
2.43.0


From 70115f09d1c0b69c0eda7c379ccadb047848cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:09 +0000
Subject: [PATCH 09/17] fix: look up 0 in an empty IntegerRangeMap

An empty map records 0 as its smallest and largest key, so looking up that
key indexed an empty slice and panicked.
---
 .../src/specialized_maps/integer_range_map.rs              | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index d050c3f..8c82f97 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -64,7 +64,7 @@ impl<K, V> IntegerRangeMap<K, V> {
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
             let index = distance(*self.min.borrow(), *key)?;
-            Some(&self.entries[index].1)
+            Some(&self.entries.get(index)?.1)
         } else {
             None
         }
@@ -79,7 +79,7 @@ impl<K, V> IntegerRangeMap<K, V> {
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
             let index = distance(*self.min.borrow(), *key)?;
-            Some(&mut self.entries[index].1)
+            Some(&mut self.entries.get_mut(index)?.1)
         } else {
             None
         }
@@ -121,7 +121,8 @@ impl<K, V> IntegerRangeMap<K, V> {
     {
         if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
             let index = distance(*self.min.borrow(), *key)?;
-            Some((&self.entries[index].0, &self.entries[index].1))
+            let entry = self.entries.get(index)?;
+            Some((&entry.0, &entry.1))
         } else {
             None
         }
-- 
2.43.0


From 1525a249474c22b77d81de5d9b300a628a9fd314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:10 +0000
Subject: [PATCH 10/17] fix: reject repeated keys hiding a gap in
 IntegerRangeMap

Comparing the distance between the first and last key with the number of
entries accepts keys such as 0, 0, 2, 3, which aren't contiguous, and then
answers for a key that was never supplied.
---
 .../src/specialized_maps/integer_range_map.rs              | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 8c82f97..14a244a 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -40,9 +40,10 @@ where
         let min = payload[0].0;
         let max = payload[payload.len() - 1].0;
 
-        assert_eq!(
-            distance(min, max),
-            Some(payload.len() - 1),
+        assert!(
+            payload
+                .windows(2)
+                .all(|x| x[0].0.checked_add(&K::one()) == Some(x[1].0)),
             "IntegerRangeMap requires that the map keys be in a continuous range"
         );
 
-- 
2.43.0


From 52dc12dc27d58cd68056302e6b0eccb0d89d4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:44 +0000
Subject: [PATCH 11/17] fix: don't derive get_many_mut results from shared
 references

get_many_mut transmuted the &V returned by get to &mut V, which is
undefined behaviour however the references are used. It also relied on the
key's Eq to keep the references apart, so that an inconsistent Eq led to
aliased mutable references. Find the entries first, make sure they're all
different, and derive the references from the mutable borrow of the map.
---
 .../src/facades/frozen_map.rs                 | 44 +++++++++++--------
 .../src/specialized_maps/common_map.rs        | 27 +++---------
 .../src/specialized_maps/integer_map.rs       | 27 +++---------
 .../src/specialized_maps/integer_range_map.rs | 28 ++++--------
 .../src/specialized_maps/left_slice_map.rs    | 27 +++---------
 .../src/specialized_maps/length_map.rs        | 27 +++---------
 .../src/specialized_maps/many_mut.rs          | 18 ++++++++
 .../src/specialized_maps/mod.rs               |  1 +
 .../src/specialized_maps/right_slice_map.rs   | 27 +++---------
 .../src/specialized_maps/scanning_map.rs      | 27 +++---------
 10 files changed, 89 insertions(+), 164 deletions(-)
 create mode 100644 frozen-collections-core/src/specialized_maps/many_mut.rs

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2d080a4..2b74065 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -3,7 +3,6 @@ use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
 use std::mem::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Index;
 use std::ops::IndexMut;
 
@@ -489,26 +488,35 @@ where
     /// ]);
     /// assert_eq!(got, None);
     /// ```
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<const N: usize>(&mut self, keys: [&K; N]) -> Option<[&mut V; N]> {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
+        match &mut self.map_impl {
+            MapTypes::Scanning(m) => m.get_many_mut(keys),
+            MapTypes::CommonSmall(m) => m.get_many_mut(keys),
+            MapTypes::CommonLarge(m) => m.get_many_mut(keys),
+            MapTypes::U32Small(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &u32>(key) }))
             }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
-
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
+            MapTypes::U32Large(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &u32>(key) }))
+            }
+            MapTypes::U32Range(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &u32>(key) }))
+            }
+            MapTypes::LeftStringSliceSmall(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &String>(key) }))
+            }
+            MapTypes::LeftStringSliceLarge(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &String>(key) }))
+            }
+            MapTypes::RightStringSliceSmall(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &String>(key) }))
+            }
+            MapTypes::RightStringSliceLarge(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &String>(key) }))
+            }
+            MapTypes::StringLengthSmall(m) => {
+                m.get_many_mut(keys.map(|key| unsafe { transmute::<&K, &String>(key) }))
             }
-
-            Some(result.assume_init())
         }
     }
 
diff --git a/frozen-collections-core/src/specialized_maps/common_map.rs b/frozen-collections-core/src/specialized_maps/common_map.rs
index d638b71..c6e819f 100644
--- a/frozen-collections-core/src/specialized_maps/common_map.rs
+++ b/frozen-collections-core/src/specialized_maps/common_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -11,6 +9,7 @@ use num_traits::{PrimInt, Unsigned};
 
 use crate::analyzers::hash_code_analyzer::analyze_hash_codes;
 use crate::specialized_maps::hash_table::HashTable;
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 
@@ -117,31 +116,17 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: Hash + Eq,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
-            }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let indices = keys.map(|key| {
+            let mut range = self.get_hash_info(key);
+            range.find(|i| key.eq(self.table.entries[*i].0.borrow()))
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.table.entries, indices)
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_map.rs b/frozen-collections-core/src/specialized_maps/integer_map.rs
index 7042e39..04797e8 100644
--- a/frozen-collections-core/src/specialized_maps/integer_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -9,6 +7,7 @@ use num_traits::{AsPrimitive, PrimInt, Unsigned};
 
 use crate::analyzers::hash_code_analyzer::analyze_hash_codes;
 use crate::specialized_maps::hash_table::HashTable;
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 
@@ -82,31 +81,17 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: PrimInt + AsPrimitive<u64>,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
-            }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let indices = keys.map(|key| {
+            let mut range = self.get_hash_info(key);
+            range.find(|i| key.eq(self.table.entries[*i].0.borrow()))
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.table.entries, indices)
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/integer_range_map.rs b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
index 14a244a..5c87eaf 100644
--- a/frozen-collections-core/src/specialized_maps/integer_range_map.rs
+++ b/frozen-collections-core/src/specialized_maps/integer_range_map.rs
@@ -1,12 +1,11 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
 use num_traits::PrimInt;
 
 use crate::analyzers::int_key_analyzer::distance;
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 
@@ -86,31 +85,20 @@ impl<K, V> IntegerRangeMap<K, V> {
         }
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: PrimInt,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
+        let indices = keys.map(|key| {
+            if *key >= *self.min.borrow() && *key <= *self.max.borrow() {
+                distance(*self.min.borrow(), *key)
+            } else {
+                None
             }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.entries, indices)
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/left_slice_map.rs b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
index c55de0d..c465cca 100644
--- a/frozen-collections-core/src/specialized_maps/left_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/left_slice_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -11,6 +9,7 @@ use num_traits::{PrimInt, Unsigned};
 
 use crate::analyzers::hash_code_analyzer::analyze_hash_codes;
 use crate::specialized_maps::hash_table::HashTable;
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 use crate::traits::slice_hash::SliceHash;
@@ -136,31 +135,17 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: SliceHash + Len + Eq,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
-            }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let indices = keys.map(|key| {
+            let mut range = self.get_hash_info(key);
+            range.find(|i| key.eq(self.table.entries[*i].0.borrow()))
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.table.entries, indices)
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/length_map.rs b/frozen-collections-core/src/specialized_maps/length_map.rs
index 5718997..86cf747 100644
--- a/frozen-collections-core/src/specialized_maps/length_map.rs
+++ b/frozen-collections-core/src/specialized_maps/length_map.rs
@@ -1,7 +1,5 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -10,6 +8,7 @@ use num_traits::{PrimInt, Unsigned};
 
 use crate::analyzers::hash_code_analyzer::analyze_hash_codes;
 use crate::specialized_maps::hash_table::HashTable;
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 
@@ -102,31 +101,17 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: Len + Eq,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
-            }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let indices = keys.map(|key| {
+            let mut range = self.get_hash_info(key);
+            range.find(|i| key.eq(self.table.entries[*i].0.borrow()))
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.table.entries, indices)
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/many_mut.rs b/frozen-collections-core/src/specialized_maps/many_mut.rs
new file mode 100644
index 0000000..dea3703
--- /dev/null
+++ b/frozen-collections-core/src/specialized_maps/many_mut.rs
@@ -0,0 +1,18 @@
+/// Gets mutable references to the values of several distinct entries at once.
+///
+/// Returns `None` if an entry is missing, or is asked for more than once.
+pub fn get_many_mut<'a, K, V, const N: usize>(
+    entries: &'a mut [(K, V)],
+    indices: [Option<usize>; N],
+) -> Option<[&'a mut V; N]> {
+    for i in 0..N {
+        if indices[i]? >= entries.len() || indices[..i].contains(&indices[i]) {
+            return None;
+        }
+    }
+
+    let entries = entries.as_mut_ptr();
+
+    // SAFETY: the indices are all in range, and no two of them are the same
+    Some(indices.map(|index| unsafe { &mut (*entries.add(index.unwrap_unchecked())).1 }))
+}
diff --git a/frozen-collections-core/src/specialized_maps/mod.rs b/frozen-collections-core/src/specialized_maps/mod.rs
index 6a3d6ca..f908af2 100644
--- a/frozen-collections-core/src/specialized_maps/mod.rs
+++ b/frozen-collections-core/src/specialized_maps/mod.rs
@@ -20,5 +20,6 @@ mod integer_range_map;
 mod iterators;
 mod left_slice_map;
 mod length_map;
+mod many_mut;
 mod right_slice_map;
 mod scanning_map;
diff --git a/frozen-collections-core/src/specialized_maps/right_slice_map.rs b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
index 6a84e6b..619f667 100644
--- a/frozen-collections-core/src/specialized_maps/right_slice_map.rs
+++ b/frozen-collections-core/src/specialized_maps/right_slice_map.rs
@@ -2,8 +2,6 @@ use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::BuildHasher;
 use std::hash::RandomState;
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::Range;
 use std::ops::{Index, IndexMut};
 
@@ -11,6 +9,7 @@ use num_traits::{PrimInt, Unsigned};
 
 use crate::analyzers::hash_code_analyzer::analyze_hash_codes;
 use crate::specialized_maps::hash_table::HashTable;
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 use crate::traits::slice_hash::SliceHash;
@@ -139,31 +138,17 @@ where
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: SliceHash + Len + Eq,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
-            }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let indices = keys.map(|key| {
+            let mut range = self.get_hash_info(key);
+            range.find(|i| key.eq(self.table.entries[*i].0.borrow()))
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.table.entries, indices)
     }
 
     #[inline]
diff --git a/frozen-collections-core/src/specialized_maps/scanning_map.rs b/frozen-collections-core/src/specialized_maps/scanning_map.rs
index b09d24c..871f951 100644
--- a/frozen-collections-core/src/specialized_maps/scanning_map.rs
+++ b/frozen-collections-core/src/specialized_maps/scanning_map.rs
@@ -1,9 +1,8 @@
 use std::borrow::Borrow;
 use std::fmt::{Debug, Formatter, Result};
-use std::intrinsics::transmute;
-use std::mem::MaybeUninit;
 use std::ops::{Index, IndexMut};
 
+use crate::specialized_maps::many_mut::get_many_mut;
 use crate::specialized_maps::{Iter, Keys, Values};
 use crate::traits::len::Len;
 
@@ -74,31 +73,17 @@ impl<K, V> ScanningMap<K, V> {
         None
     }
 
-    #[allow(mutable_transmutes)]
     pub fn get_many_mut<Q, const N: usize>(&mut self, keys: [&Q; N]) -> Option<[&mut V; N]>
     where
         K: Borrow<Q>,
         Q: Eq,
     {
-        // ensure key uniqueness (assumes "keys" is a relatively small array)
-        for i in 0..keys.len() {
-            for j in 0..i {
-                if keys[j].eq(keys[i]) {
-                    return None;
-                }
-            }
-        }
-
-        unsafe {
-            let mut result: MaybeUninit<[&mut V; N]> = MaybeUninit::uninit();
-            let p = result.as_mut_ptr();
+        let indices = keys.map(|key| {
+            let mut entries = self.entries.iter();
+            entries.position(|entry| key.eq(entry.0.borrow()))
+        });
 
-            for (i, key) in keys.iter().enumerate() {
-                *(*p).get_unchecked_mut(i) = transmute(self.get(key)?);
-            }
-
-            Some(result.assume_init())
-        }
+        get_many_mut(&mut self.entries, indices)
     }
 
     #[inline]
-- 
2.43.0


From 0b368fa31622f3fb9698cf21d05ec39c92ddff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:22 +0000
Subject: [PATCH 12/17] fix: keep one entry per key in FrozenMap and FrozenSet

Repeated keys were all kept: len and iteration counted each of them, get
returned an arbitrary one, equality and set operations were wrong, and u32
keys such as 0, 0, 2, 3 were taken for a range, so that a map answered for
a key it was never given. Keep the last entry supplied for a key, as
collecting into a HashMap does.
---
 frozen-collections-core/src/facades/dedup.rs     | 16 ++++++++++++++++
 .../src/facades/frozen_map.rs                    |  5 ++++-
 .../src/facades/frozen_set.rs                    |  5 ++++-
 frozen-collections-core/src/facades/mod.rs       |  1 +
 4 files changed, 25 insertions(+), 2 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/dedup.rs

diff --git a/frozen-collections-core/src/facades/dedup.rs b/frozen-collections-core/src/facades/dedup.rs
new file mode 100644
index 0000000..1ed56c6
--- /dev/null
+++ b/frozen-collections-core/src/facades/dedup.rs
@@ -0,0 +1,16 @@
+use std::collections::HashSet;
+use std::hash::Hash;
+
+/// Removes the items whose key is repeated later in the vector.
+pub fn dedup_by_key_keep_last<T, K, F>(items: &mut Vec<T>, key: F)
+where
+    K: Hash + Eq,
+    F: Fn(&T) -> &K,
+{
+    let mut unique = HashSet::with_capacity(items.len());
+    let mut keep: Vec<bool> = items.iter().rev().map(|x| unique.insert(key(x))).collect();
+
+    if unique.len() < items.len() {
+        items.retain(|_| keep.pop().unwrap());
+    }
+}
diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 2b74065..038c6cc 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -10,6 +10,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::dedup::dedup_by_key_keep_last;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -208,7 +209,9 @@ where
         Self::from_iter_with_hasher(payload, bh)
     }
 
-    fn new(payload: Vec<(K, V)>, bh: BH) -> Self {
+    fn new(mut payload: Vec<(K, V)>, bh: BH) -> Self {
+        dedup_by_key_keep_last(&mut payload, |x| &x.0);
+
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index 22cefd9..f16cd3e 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -9,6 +9,7 @@ use bitvec::macros::internal::funty::Fundamental;
 
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
+use crate::facades::dedup::dedup_by_key_keep_last;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -194,7 +195,9 @@ where
         Self::new(Vec::from_iter(payload), bh)
     }
 
-    fn new(payload: Vec<T>, bh: BH) -> Self {
+    fn new(mut payload: Vec<T>, bh: BH) -> Self {
+        dedup_by_key_keep_last(&mut payload, |x| x);
+
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index 4dabde2..e627789 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -1,6 +1,7 @@
 pub use frozen_map::*;
 pub use frozen_set::*;
 
+mod dedup;
 mod frozen_map;
 mod frozen_set;
 
-- 
2.43.0


From cfe292b37dd80545a7a893eb379f12cac7d4122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/17] fix: let frozen_map! accept contiguous integer keys

The macro named IntegerRangeMap with a capacity argument it doesn't take,
so that three or more consecutive integer keys didn't compile.
---
 frozen-collections-core/src/macros/frozen_map.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index 2de7e4e..a919f84 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -186,6 +186,16 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
             m
         }),
 
+        _ if int_analysis == IntKeyAnalysisResult::Range => quote!(
+        {
+            let m: ::frozen_collections::specialized_maps::#map_type<#ty, _> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
+            #(
+                (#kv_pairs),
+            )*
+            ]);
+            m
+        }),
+
         _ => quote!(
         {
             let m: ::frozen_collections::specialized_maps::#map_type<#ty, _, #payload_size> = ::frozen_collections::specialized_maps::#map_type::from_vec(vec![
-- 
2.43.0


From 3e6d0a06b8b1bd180bdd7c3b62fdf29c41b9d470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:58 +0000
Subject: [PATCH 14/17] fix: honour the key type given to frozen_map! for small
 maps

With fewer than three entries, the declared key type was dropped: integer
keys fell back to i32, and an empty map had no key type at all.
---
 frozen-collections-core/src/macros/frozen_map.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/macros/frozen_map.rs b/frozen-collections-core/src/macros/frozen_map.rs
index a919f84..06c8dd1 100644
--- a/frozen-collections-core/src/macros/frozen_map.rs
+++ b/frozen-collections-core/src/macros/frozen_map.rs
@@ -70,10 +70,11 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
     };
 
     let mut kv_pairs = input.entries;
+    let mut ty = input.ty;
 
     if kv_pairs.len() < 3 {
         return quote!({
-            let m = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
+            let m: ::frozen_collections::specialized_maps::ScanningMap<#ty, _> = ::frozen_collections::specialized_maps::ScanningMap::from_vec(vec![
             #(
                 (#kv_pairs),
             )*
@@ -82,7 +83,6 @@ pub fn frozen_map_macro(args: TokenStream) -> TokenStream {
         });
     }
 
-    let mut ty = input.ty;
     let type_name = format!("{}", ty.to_token_stream());
 
     let mut variety = KeyVariety::Integer;
-- 
2.43.0


From e8b2dfd28e358d655f8f6c5bfac20ed5a36b9f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:18 +0000
Subject: [PATCH 15/17] fix: tell key types apart by identity rather than by
 name

---
 .../src/facades/frozen_map.rs                 |  6 ++--
 .../src/facades/frozen_set.rs                 |  6 ++--
 frozen-collections-core/src/facades/mod.rs    |  1 +
 .../src/facades/same_type.rs                  | 32 +++++++++++++++++++
 4 files changed, 39 insertions(+), 6 deletions(-)
 create mode 100644 frozen-collections-core/src/facades/same_type.rs

diff --git a/frozen-collections-core/src/facades/frozen_map.rs b/frozen-collections-core/src/facades/frozen_map.rs
index 038c6cc..94984a8 100644
--- a/frozen-collections-core/src/facades/frozen_map.rs
+++ b/frozen-collections-core/src/facades/frozen_map.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::fmt::{Debug, Formatter, Result};
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -11,6 +10,7 @@ use bitvec::macros::internal::funty::Fundamental;
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
 use crate::facades::dedup::dedup_by_key_keep_last;
+use crate::facades::same_type::is_same_type;
 use crate::specialized_maps::*;
 use crate::traits::len::Len;
 
@@ -215,9 +215,9 @@ where
         Self {
             map_impl: if payload.len() < 4 {
                 MapTypes::Scanning(ScanningMap::from_vec(payload))
-            } else if type_name::<K>() == type_name::<u32>() {
+            } else if is_same_type::<K, u32>() {
                 Self::new_u32_map(payload)
-            } else if type_name::<K>() == type_name::<String>() {
+            } else if is_same_type::<K, String>() {
                 Self::new_string_map(payload, bh)
             } else {
                 Self::new_common_map(payload, bh)
diff --git a/frozen-collections-core/src/facades/frozen_set.rs b/frozen-collections-core/src/facades/frozen_set.rs
index f16cd3e..4e1a5fc 100644
--- a/frozen-collections-core/src/facades/frozen_set.rs
+++ b/frozen-collections-core/src/facades/frozen_set.rs
@@ -1,4 +1,3 @@
-use std::any::type_name;
 use std::collections::HashSet;
 use std::hash::RandomState;
 use std::hash::{BuildHasher, Hash};
@@ -10,6 +9,7 @@ use bitvec::macros::internal::funty::Fundamental;
 use crate::analyzers::int_key_analyzer::{analyze_int_keys, IntKeyAnalysisResult};
 use crate::analyzers::slice_key_analyzer::{analyze_slice_keys, SliceKeyAnalysisResult};
 use crate::facades::dedup::dedup_by_key_keep_last;
+use crate::facades::same_type::is_same_type;
 use crate::specialized_sets::{
     CommonSet, IntegerRangeSet, IntegerSet, Iter, LeftSliceSet, LengthSet, RightSliceSet,
     ScanningSet, Set,
@@ -201,9 +201,9 @@ where
         Self {
             set_impl: if payload.len() < 4 {
                 SetTypes::Scanning(ScanningSet::from_vec(payload))
-            } else if type_name::<T>() == type_name::<u32>() {
+            } else if is_same_type::<T, u32>() {
                 Self::new_u32_set(payload)
-            } else if type_name::<T>() == type_name::<String>() {
+            } else if is_same_type::<T, String>() {
                 Self::new_string_set(payload, bh)
             } else {
                 Self::new_common_set(payload, bh)
diff --git a/frozen-collections-core/src/facades/mod.rs b/frozen-collections-core/src/facades/mod.rs
index e627789..880f78d 100644
--- a/frozen-collections-core/src/facades/mod.rs
+++ b/frozen-collections-core/src/facades/mod.rs
@@ -4,6 +4,7 @@ pub use frozen_set::*;
 mod dedup;
 mod frozen_map;
 mod frozen_set;
+mod same_type;
 
 #[cfg(test)]
 mod frozen_map_tests;
diff --git a/frozen-collections-core/src/facades/same_type.rs b/frozen-collections-core/src/facades/same_type.rs
new file mode 100644
index 0000000..4114d27
--- /dev/null
+++ b/frozen-collections-core/src/facades/same_type.rs
@@ -0,0 +1,32 @@
+use std::any::TypeId;
+use std::marker::PhantomData;
+use std::mem::transmute;
+
+trait AnyTypeId {
+    fn any_type_id(&self) -> TypeId
+    where
+        Self: 'static;
+}
+
+impl<T> AnyTypeId for PhantomData<T> {
+    fn any_type_id(&self) -> TypeId
+    where
+        Self: 'static,
+    {
+        TypeId::of::<T>()
+    }
+}
+
+/// Determines whether two types are the same, give or take lifetimes.
+///
+/// The name of a type isn't enough to tell, as types from different crates can have the same name.
+pub fn is_same_type<T, U: 'static>() -> bool {
+    let phantom = PhantomData::<T>;
+
+    // SAFETY: the reference doesn't outlive this function and no `T` exists behind it.
+    let id = unsafe {
+        transmute::<&dyn AnyTypeId, &(dyn AnyTypeId + 'static)>(&phantom).any_type_id()
+    };
+
+    id == TypeId::of::<U>()
+}
-- 
2.43.0


From 1e16ce9376e1843363269596722d191999499b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 16/17] fix: don't trust the capacity type for unchecked access

---
 .../src/specialized_maps/hash_table.rs                    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 3fc85f9..305e32b 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -104,7 +104,13 @@ where
         let hash_slot_index = (hash_code % self.num_slots).as_usize();
         let hash_slot = unsafe { self.slots.get_unchecked(hash_slot_index) };
 
-        hash_slot.min_index.to_usize().unwrap()..hash_slot.max_index.to_usize().unwrap()
+        let min_index = hash_slot.min_index.to_usize().unwrap();
+        let max_index = hash_slot.max_index.to_usize().unwrap();
+
+        // callers rely on the range for unchecked access, and S isn't necessarily well-behaved
+        assert!(min_index <= max_index && max_index <= self.entries.len());
+
+        min_index..max_index
     }
 }
 
-- 
2.43.0


From aa1a1cb8c5f99ffe85d7bba6d70d46c8130131df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 17/17] fix: support capacity types larger than usize

---
 frozen-collections-core/src/specialized_maps/hash_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frozen-collections-core/src/specialized_maps/hash_table.rs b/frozen-collections-core/src/specialized_maps/hash_table.rs
index 305e32b..6ea9d3f 100644
--- a/frozen-collections-core/src/specialized_maps/hash_table.rs
+++ b/frozen-collections-core/src/specialized_maps/hash_table.rs
@@ -40,7 +40,7 @@ where
                 }]),
                 entries: Box::new([]),
             };
-        } else if payload.len() > S::max_value().to_usize().unwrap() {
+        } else if S::from(payload.len()).is_none() {
             panic!("Too many payload entries for the map size S")
         }
 
-- 
2.43.0


From 25ee00284fe630a81c289c375c1d511c73e7f42a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:40:30 +0000
Subject: [PATCH 01/11] fix: scalar collections must not overflow when keys
 span the entire index range

---
 .../src/analyzers/scalar_key_analyzer.rs                    | 6 +++++-
 frozen-collections-core/src/maps/dense_scalar_lookup_map.rs | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
index db83611..b8c010c 100644
--- a/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/scalar_key_analyzer.rs
@@ -32,7 +32,11 @@ pub fn analyze_scalar_keys(keys: impl Iterator<Item: Scalar>) -> ScalarKeyAnalys
         return ScalarKeyAnalysisResult::General;
     }
 
-    let needed_count = max - min + 1;
+    // If the keys span the whole index space, the size of the range isn't representable
+    let Some(needed_count) = (max - min).checked_add(1) else {
+        return ScalarKeyAnalysisResult::General;
+    };
+
     if needed_count == count {
         ScalarKeyAnalysisResult::DenseRange
     } else if needed_count <= ALWAYS_SPARSE_THRESHOLD || needed_count < count.saturating_mul(MAX_SPARSE_MULTIPLIER) {
diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index a3ced24..6c8628b 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -51,7 +51,7 @@ impl<K, V> DenseScalarLookupMap<K, V> {
         let min = entries[0].0.index();
         let max = entries[entries.len() - 1].0.index();
 
-        if entries.len() == max - min + 1 {
+        if entries.len() - 1 == max - min {
             Ok(Self::from_sorted_and_dedupped(entries))
         } else {
             Err("keys must be in a contiguous range <= usize::MAX in size".to_string())
-- 
2.43.0


From 6cd6804c912dba18e4045ea29a005ab8eea589d6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:40:55 +0000
Subject: [PATCH 02/11] fix: string collections can be deserialized from owned
 or escaped strings

---
 frozen-collections-core/src/fz_maps/fz_string_map.rs | 2 +-
 frozen-collections-core/src/fz_sets/fz_string_set.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index c33cdf7..a91dd2f 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -524,7 +524,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(&'de str, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index 6acc3e8..a842ecb 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -299,7 +299,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(&str, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
-- 
2.43.0


From 9c5d6ab4fdbdda6087c2d31a02928f1a0df04ab5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:41:13 +0000
Subject: [PATCH 03/11] fix: set union iterators must not overstate their
 remaining size

---
 frozen-collections-core/src/sets/iterators.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/sets/iterators.rs b/frozen-collections-core/src/sets/iterators.rs
index 8e09c62..20253e5 100644
--- a/frozen-collections-core/src/sets/iterators.rs
+++ b/frozen-collections-core/src/sets/iterators.rs
@@ -1,5 +1,5 @@
 use crate::traits::{Set, SetIteration, SetOps};
-use core::cmp::{max, min};
+use core::cmp::min;
 use core::fmt::{Debug, Formatter};
 use core::iter::{Chain, FusedIterator};
 
@@ -178,7 +178,11 @@ where
             }
         }
 
-        (max(h1.0, h2.0), max_bound)
+        // The iterator over the larger set is drained first and all its items are returned. Items
+        // from the iterator over the smaller set may however be skipped.
+        let min_bound = if self.s1.len() > self.s2.len() { h1.0 } else { h2.0 };
+
+        (min_bound, max_bound)
     }
 }
 
-- 
2.43.0


From ea4964b80efbe765e382022e53d45bd177910eb8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:41:32 +0000
Subject: [PATCH 04/11] fix: don't trust size hints from deserializers when
 allocating memory

---
 frozen-collections-core/src/fz_maps/fz_hash_map.rs   |  3 ++-
 .../src/fz_maps/fz_ordered_map.rs                    |  3 ++-
 frozen-collections-core/src/fz_maps/fz_scalar_map.rs |  3 ++-
 frozen-collections-core/src/fz_maps/fz_string_map.rs |  3 ++-
 frozen-collections-core/src/fz_sets/fz_hash_set.rs   |  3 ++-
 .../src/fz_sets/fz_ordered_set.rs                    |  3 ++-
 frozen-collections-core/src/fz_sets/fz_scalar_set.rs |  3 ++-
 frozen-collections-core/src/fz_sets/fz_string_set.rs |  3 ++-
 frozen-collections-core/src/utils/hints.rs           | 12 ++++++++++++
 9 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/frozen-collections-core/src/fz_maps/fz_hash_map.rs b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
index 847e9a6..3489501 100644
--- a/frozen-collections-core/src/fz_maps/fz_hash_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_hash_map.rs
@@ -18,6 +18,7 @@ use alloc::vec::Vec;
 #[cfg(feature = "serde")]
 use {
     crate::maps::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::marker::PhantomData,
     serde::de::{MapAccess, Visitor},
     serde::ser::SerializeMap,
@@ -401,7 +402,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = vec_with_untrusted_capacity(map.size_hint());
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
index 0574d2a..4d313cb 100644
--- a/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_ordered_map.rs
@@ -15,6 +15,7 @@ use alloc::vec::Vec;
 #[cfg(feature = "serde")]
 use {
     crate::maps::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::marker::PhantomData,
     serde::de::{MapAccess, Visitor},
     serde::ser::SerializeMap,
@@ -338,7 +339,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = vec_with_untrusted_capacity(map.size_hint());
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
index 7ab287f..89a1001 100644
--- a/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_scalar_map.rs
@@ -19,6 +19,7 @@ use crate::hashers::ScalarHasher;
 #[cfg(feature = "serde")]
 use {
     crate::maps::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::marker::PhantomData,
     serde::de::{MapAccess, Visitor},
     serde::ser::SerializeMap,
@@ -423,7 +424,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v = vec_with_untrusted_capacity(map.size_hint());
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_maps/fz_string_map.rs b/frozen-collections-core/src/fz_maps/fz_string_map.rs
index a91dd2f..860bea3 100644
--- a/frozen-collections-core/src/fz_maps/fz_string_map.rs
+++ b/frozen-collections-core/src/fz_maps/fz_string_map.rs
@@ -17,6 +17,7 @@ use {alloc::boxed::Box, alloc::string::ToString, alloc::vec::Vec};
 #[cfg(feature = "serde")]
 use {
     crate::maps::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     serde::de::{MapAccess, Visitor},
     serde::ser::SerializeMap,
     serde::{Deserialize, Deserializer, Serialize, Serializer},
@@ -524,7 +525,7 @@ where
     where
         M: MapAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, _)> = Vec::with_capacity(map.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, _)> = vec_with_untrusted_capacity(map.size_hint());
         while let Some(x) = map.next_entry()? {
             v.push(x);
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_hash_set.rs b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
index 16a7f87..a23f104 100644
--- a/frozen-collections-core/src/fz_sets/fz_hash_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_hash_set.rs
@@ -19,6 +19,7 @@ use alloc::vec::Vec;
 #[cfg(feature = "serde")]
 use {
     crate::sets::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::fmt::Formatter,
     core::marker::PhantomData,
     serde::de::{SeqAccess, Visitor},
@@ -315,7 +316,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = vec_with_untrusted_capacity(seq.size_hint());
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
index 54081ef..4a01004 100644
--- a/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_ordered_set.rs
@@ -17,6 +17,7 @@ use alloc::vec::Vec;
 #[cfg(feature = "serde")]
 use {
     crate::sets::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::fmt::Formatter,
     core::marker::PhantomData,
     serde::de::{SeqAccess, Visitor},
@@ -261,7 +262,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = vec_with_untrusted_capacity(seq.size_hint());
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
index f03e289..047d17e 100644
--- a/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_scalar_set.rs
@@ -17,6 +17,7 @@ use alloc::vec::Vec;
 #[cfg(feature = "serde")]
 use {
     crate::sets::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::fmt::Formatter,
     core::marker::PhantomData,
     serde::de::{SeqAccess, Visitor},
@@ -255,7 +256,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v = vec_with_untrusted_capacity(seq.size_hint());
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/fz_sets/fz_string_set.rs b/frozen-collections-core/src/fz_sets/fz_string_set.rs
index a842ecb..be9a16d 100644
--- a/frozen-collections-core/src/fz_sets/fz_string_set.rs
+++ b/frozen-collections-core/src/fz_sets/fz_string_set.rs
@@ -14,6 +14,7 @@ use {alloc::boxed::Box, alloc::vec::Vec};
 #[cfg(feature = "serde")]
 use {
     crate::sets::decl_macros::serialize_trait_funcs,
+    crate::utils::vec_with_untrusted_capacity,
     core::fmt::Formatter,
     core::marker::PhantomData,
     serde::de::{SeqAccess, Visitor},
@@ -299,7 +300,7 @@ where
     where
         M: SeqAccess<'de>,
     {
-        let mut v: Vec<(Box<str>, ())> = Vec::with_capacity(seq.size_hint().unwrap_or(0));
+        let mut v: Vec<(Box<str>, ())> = vec_with_untrusted_capacity(seq.size_hint());
         while let Some(x) = seq.next_element()? {
             v.push((x, ()));
         }
diff --git a/frozen-collections-core/src/utils/hints.rs b/frozen-collections-core/src/utils/hints.rs
index ca94c31..0569468 100644
--- a/frozen-collections-core/src/utils/hints.rs
+++ b/frozen-collections-core/src/utils/hints.rs
@@ -1,8 +1,20 @@
+#[cfg(all(feature = "serde", not(feature = "std")))]
+use alloc::vec::Vec;
+
 /// Indicate that a code path should be treated as cold code
 #[inline]
 #[cold]
 pub const fn cold() {}
 
+/// Creates a vector with room for the number of items given by an untrusted size hint, within reason.
+#[cfg(feature = "serde")]
+pub fn vec_with_untrusted_capacity<T>(size_hint: Option<usize>) -> Vec<T> {
+    const MAX_PREALLOCATED_BYTES: usize = 1024 * 1024;
+
+    let max_capacity = MAX_PREALLOCATED_BYTES / size_of::<T>().max(1);
+    Vec::with_capacity(size_hint.unwrap_or(0).min(max_capacity))
+}
+
 /*
 /// Prefetch the cache line where the given data lives.
 pub fn prefetch_for_read<T>(s: &[T], index: usize) {
-- 
2.43.0


From 7357c4348a390146a8be15ea2deab64cee75453e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 05/11] fix: get_disjoint_mut must not invalidate the
 references it returns

---
 .../src/maps/decl_macros.rs                   | 28 ++++++++++---------
 .../src/traits/map_extras.rs                  |  9 +++++-
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index cfdaac1..a73802f 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -230,7 +230,7 @@ macro_rules! get_disjoint_mut_funcs {
         where
             Q: ?Sized + Comparable<K>,
         {
-            get_disjoint_mut_funcs!(@unsafe_body, self, keys);
+            get_disjoint_mut_funcs!(@unsafe_body, self, keys, entries);
         }
     };
 
@@ -248,7 +248,7 @@ macro_rules! get_disjoint_mut_funcs {
         where
             Q: Comparable<K> + Scalar,
         {
-            get_disjoint_mut_funcs!(@unsafe_body, self, keys);
+            get_disjoint_mut_funcs!(@unsafe_body, self, keys, entries);
         }
     };
 
@@ -262,17 +262,19 @@ macro_rules! get_disjoint_mut_funcs {
         return unsafe { $self.get_disjoint_unchecked_mut($keys) };
     };
 
-    (@unsafe_body, $self:ident, $keys:ident) => {
-        let ptrs: [Option<::core::ptr::NonNull<V>>; N] = ::core::array::from_fn(|i| {
-            $self.get_mut($keys[i]).map(|value| {
-                let v = value as *mut V;
-                ::core::ptr::NonNull::new(v).unwrap()
-            })
+    (@unsafe_body, $self:ident, $keys:ident, $($entries:ident)+) => {
+        // Locate the values without creating any mutable references.
+        let base = $self$(. $entries)+.as_ptr();
+        let offsets: [Option<usize>; N] = ::core::array::from_fn(|i| {
+            $self.get($keys[i]).map(|value| ::core::ptr::from_ref(value).addr() - base.addr())
         });
 
-        return ptrs.map(|ptr| ptr.map(|mut ptr|
-            // SAFETY: pointers all safely acquired above
-            unsafe { ptr.as_mut() }
+        // All mutable references must be derived from the same pointer, otherwise they'd invalidate one another.
+        let base = $self$(. $entries)+.as_mut_ptr();
+        return offsets.map(|offset| offset.map(|offset|
+            // SAFETY: The offsets were acquired above from live references to values within the entries, and the
+            // caller is responsible for ensuring they're all different.
+            unsafe { &mut *base.byte_add(offset).cast::<V>() }
         ));
     };
 }
@@ -341,7 +343,7 @@ macro_rules! hash_primary_funcs {
             Q: ?Sized + Equivalent<K>,
             H: Hasher<Q>,
         {
-            get_disjoint_mut_funcs!(@unsafe_body, self, keys);
+            get_disjoint_mut_funcs!(@unsafe_body, self, keys, entries entries);
         }
     };
 }
@@ -563,7 +565,7 @@ macro_rules! scan_primary_funcs {
         where
             Q: ?Sized + Equivalent<K>,
         {
-            get_disjoint_mut_funcs!(@unsafe_body, self, keys);
+            get_disjoint_mut_funcs!(@unsafe_body, self, keys, entries);
         }
     };
 }
diff --git a/frozen-collections-core/src/traits/map_extras.rs b/frozen-collections-core/src/traits/map_extras.rs
index 8eb01cb..8bb8ab3 100644
--- a/frozen-collections-core/src/traits/map_extras.rs
+++ b/frozen-collections-core/src/traits/map_extras.rs
@@ -48,7 +48,14 @@ where
     }
 
     unsafe fn get_disjoint_unchecked_mut<const N: usize>(&mut self, keys: [&Q; N]) -> [Option<&mut V>; N] {
-        get_disjoint_mut_funcs!(@unsafe_body, self, keys);
+        let ptrs: [Option<core::ptr::NonNull<V>>; N] = core::array::from_fn(|i| self.get_mut(keys[i]).map(core::ptr::NonNull::from));
+
+        ptrs.map(|ptr| {
+            ptr.map(|mut ptr| {
+                // SAFETY: pointers all safely acquired above
+                unsafe { ptr.as_mut() }
+            })
+        })
     }
 }
 
-- 
2.43.0


From 85554bcfd9273d4b99fc19e20599892d1afe9aa0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:43:09 +0000
Subject: [PATCH 06/11] fix: get_disjoint_mut must never return aliasing
 references

---
 .../src/maps/decl_macros.rs                   | 44 +++++++++++++------
 .../src/traits/map_extras.rs                  | 26 ++++++++---
 frozen-collections-core/src/utils/dedup.rs    | 14 ++++++
 3 files changed, 65 insertions(+), 19 deletions(-)

diff --git a/frozen-collections-core/src/maps/decl_macros.rs b/frozen-collections-core/src/maps/decl_macros.rs
index a73802f..d539249 100644
--- a/frozen-collections-core/src/maps/decl_macros.rs
+++ b/frozen-collections-core/src/maps/decl_macros.rs
@@ -222,7 +222,7 @@ macro_rules! get_disjoint_mut_funcs {
         where
             Q: ?Sized + Eq + Comparable<K>,
         {
-            get_disjoint_mut_funcs!(@safe_body, self, keys);
+            get_disjoint_mut_funcs!(@safe_body, self, keys, entries);
         }
 
         #[doc = include_str!("../doc_snippets/get_disjoint_unchecked_mut.md")]
@@ -240,7 +240,7 @@ macro_rules! get_disjoint_mut_funcs {
         where
             Q: Eq + Comparable<K> + Scalar,
         {
-            get_disjoint_mut_funcs!(@safe_body, self, keys);
+            get_disjoint_mut_funcs!(@safe_body, self, keys, entries);
         }
 
         #[doc = include_str!("../doc_snippets/get_disjoint_unchecked_mut.md")]
@@ -252,31 +252,47 @@ macro_rules! get_disjoint_mut_funcs {
         }
     };
 
-    (@safe_body, $self:ident, $keys:ident) => {
+    (@safe_body, $self:ident, $keys:ident, $($entries:ident)+) => {
         if crate::utils::has_duplicates(&$keys) {
             crate::utils::cold();
             panic!("duplicate keys found");
         }
 
+        let offsets = get_disjoint_mut_funcs!(@offsets, $self, $keys, $($entries)+);
+
+        // Keys that aren't equal to one another can nevertheless select the same entry, in which case
+        // we'd be returning multiple mutable references to the same value.
+        if crate::utils::has_duplicate_items(&offsets) {
+            crate::utils::cold();
+            panic!("duplicate keys found");
+        }
+
         // SAFETY: We've validated that the caller isn't asking for duplicate keys
-        return unsafe { $self.get_disjoint_unchecked_mut($keys) };
+        return unsafe { get_disjoint_mut_funcs!(@refs, $self, offsets, $($entries)+) };
     };
 
     (@unsafe_body, $self:ident, $keys:ident, $($entries:ident)+) => {
-        // Locate the values without creating any mutable references.
+        let offsets = get_disjoint_mut_funcs!(@offsets, $self, $keys, $($entries)+);
+
+        // SAFETY: The caller is responsible for ensuring that the keys are disjoint
+        return unsafe { get_disjoint_mut_funcs!(@refs, $self, offsets, $($entries)+) };
+    };
+
+    // Locate the values without creating any mutable references.
+    (@offsets, $self:ident, $keys:ident, $($entries:ident)+) => {{
         let base = $self$(. $entries)+.as_ptr();
         let offsets: [Option<usize>; N] = ::core::array::from_fn(|i| {
             $self.get($keys[i]).map(|value| ::core::ptr::from_ref(value).addr() - base.addr())
         });
 
-        // All mutable references must be derived from the same pointer, otherwise they'd invalidate one another.
+        offsets
+    }};
+
+    // All mutable references must be derived from the same pointer, otherwise they'd invalidate one another.
+    (@refs, $self:ident, $offsets:ident, $($entries:ident)+) => {{
         let base = $self$(. $entries)+.as_mut_ptr();
-        return offsets.map(|offset| offset.map(|offset|
-            // SAFETY: The offsets were acquired above from live references to values within the entries, and the
-            // caller is responsible for ensuring they're all different.
-            unsafe { &mut *base.byte_add(offset).cast::<V>() }
-        ));
-    };
+        $offsets.map(|offset| offset.map(|offset| &mut *base.byte_add(offset).cast::<V>()))
+    }};
 }
 
 macro_rules! hash_primary_funcs {
@@ -334,7 +350,7 @@ macro_rules! hash_primary_funcs {
             Q: ?Sized + Eq + Equivalent<K>,
             H: Hasher<Q>,
         {
-            get_disjoint_mut_funcs!(@safe_body, self, keys);
+            get_disjoint_mut_funcs!(@safe_body, self, keys, entries entries);
         }
 
         #[doc = include_str!("../doc_snippets/get_disjoint_unchecked_mut.md")]
@@ -557,7 +573,7 @@ macro_rules! scan_primary_funcs {
         where
             Q: ?Sized + Eq + Equivalent<K>,
         {
-            get_disjoint_mut_funcs!(@safe_body, self, keys);
+            get_disjoint_mut_funcs!(@safe_body, self, keys, entries);
         }
 
         #[doc = include_str!("../doc_snippets/get_disjoint_unchecked_mut.md")]
diff --git a/frozen-collections-core/src/traits/map_extras.rs b/frozen-collections-core/src/traits/map_extras.rs
index 8bb8ab3..4a7ac2e 100644
--- a/frozen-collections-core/src/traits/map_extras.rs
+++ b/frozen-collections-core/src/traits/map_extras.rs
@@ -1,10 +1,7 @@
 use core::hash::{BuildHasher, Hash};
 
 #[cfg(feature = "std")]
-use {
-    crate::maps::decl_macros::{get_disjoint_mut_funcs, map_extras_trait_funcs},
-    core::borrow::Borrow,
-};
+use {crate::maps::decl_macros::map_extras_trait_funcs, core::borrow::Borrow};
 
 /// Extra abstractions for maps.
 pub trait MapExtras<K, V, Q: ?Sized = K> {
@@ -44,7 +41,26 @@ where
     }
 
     fn get_disjoint_mut<const N: usize>(&mut self, keys: [&Q; N]) -> [Option<&mut V>; N] {
-        get_disjoint_mut_funcs!(@safe_body, self, keys);
+        if crate::utils::has_duplicates(&keys) {
+            crate::utils::cold();
+            panic!("duplicate keys found");
+        }
+
+        let ptrs: [Option<core::ptr::NonNull<V>>; N] = core::array::from_fn(|i| self.get_mut(keys[i]).map(core::ptr::NonNull::from));
+
+        // Keys that aren't equal to one another can nevertheless select the same entry, in which case
+        // we'd be returning multiple mutable references to the same value.
+        if size_of::<V>() != 0 && crate::utils::has_duplicate_items(&ptrs) {
+            crate::utils::cold();
+            panic!("duplicate keys found");
+        }
+
+        ptrs.map(|ptr| {
+            ptr.map(|mut ptr| {
+                // SAFETY: pointers all safely acquired above, and known to be distinct
+                unsafe { ptr.as_mut() }
+            })
+        })
     }
 
     unsafe fn get_disjoint_unchecked_mut<const N: usize>(&mut self, keys: [&Q; N]) -> [Option<&mut V>; N] {
diff --git a/frozen-collections-core/src/utils/dedup.rs b/frozen-collections-core/src/utils/dedup.rs
index e823914..912871e 100644
--- a/frozen-collections-core/src/utils/dedup.rs
+++ b/frozen-collections-core/src/utils/dedup.rs
@@ -185,6 +185,20 @@ where
     false
 }
 
+/// Look for the first duplicate value if any, disregarding `None` values (assumes `values` is a relatively small array).
+pub fn has_duplicate_items<T>(values: &[Option<T>]) -> bool
+where
+    T: Eq,
+{
+    for i in 0..values.len() {
+        if values[i].is_some() && values[..i].contains(&values[i]) {
+            return true;
+        }
+    }
+
+    false
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 5e9d284031d833a8e78ae7f8bbd3b115f4dd601b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:43:25 +0000
Subject: [PATCH 07/11] fix: scalar lookups must stay within bounds given an
 inconsistent Scalar implementation

---
 .../src/maps/dense_scalar_lookup_map.rs                   | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
index 6c8628b..3a17ee7 100644
--- a/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
+++ b/frozen-collections-core/src/maps/dense_scalar_lookup_map.rs
@@ -67,9 +67,13 @@ impl<K, V> DenseScalarLookupMap<K, V> {
     where
         K: Scalar,
     {
+        // The upper bound is derived from the number of entries rather than from the last key, such that lookups
+        // are kept within bounds even if the keys have an inconsistent `Scalar` implementation.
+        let min = entries[0].0.index();
+
         Self {
-            min: entries[0].0.index(),
-            max: entries[entries.len() - 1].0.index(),
+            min,
+            max: min.saturating_add(entries.len() - 1),
             entries: entries.into_boxed_slice(),
         }
     }
-- 
2.43.0


From 871e2a5acf7aaae3ea25baa54726249e583284a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:24 +0000
Subject: [PATCH 08/11] fix: the macros feature builds for targets with 32-bit
 pointers

processor.rs handled i64 and u64 literals as scalars unconditionally, but
they only implement Scalar where pointers are 64 bits wide.
---
 frozen-collections-core/src/macros/processor.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/frozen-collections-core/src/macros/processor.rs b/frozen-collections-core/src/macros/processor.rs
index 1faf060..eb20db7 100644
--- a/frozen-collections-core/src/macros/processor.rs
+++ b/frozen-collections-core/src/macros/processor.rs
@@ -69,12 +69,24 @@ pub(super) fn process(payload: Payload, emitter: CollectionEmitter, macro_kind:
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I8) => handle_literal_scalar_keys::<i8>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I16) => handle_literal_scalar_keys::<i16>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I32) => handle_literal_scalar_keys::<i32>(emitter, entries, ""),
+        #[cfg(target_pointer_width = "64")]
         EffectiveKeyKind::AllLiteralScalars(ScalarType::I64) => handle_literal_scalar_keys::<i64>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::ISize) => handle_literal_scalar_keys::<isize>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::U8) => handle_literal_scalar_keys::<u8>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::U16) => handle_literal_scalar_keys::<u16>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::U32) => handle_literal_scalar_keys::<u32>(emitter, entries, ""),
+        #[cfg(target_pointer_width = "64")]
         EffectiveKeyKind::AllLiteralScalars(ScalarType::U64) => handle_literal_scalar_keys::<u64>(emitter, entries, ""),
+        // 64-bit integers only implement `Scalar` when pointers are 64 bits wide
+        #[cfg(not(target_pointer_width = "64"))]
+        EffectiveKeyKind::AllLiteralScalars(ScalarType::I64 | ScalarType::U64) => match macro_kind {
+            MacroKind::Hashed => handle_hashed_keys(emitter, entries),
+            MacroKind::Ordered => handle_ordered_keys(emitter, entries),
+            MacroKind::Scalar | MacroKind::String => Err(syn::Error::new(
+                Span::call_site(),
+                "64-bit scalar keys aren't supported on this platform",
+            )),
+        },
         EffectiveKeyKind::AllLiteralScalars(ScalarType::USize) => handle_literal_scalar_keys::<usize>(emitter, entries, ""),
         EffectiveKeyKind::AllLiteralScalars(ScalarType::Undecided) => handle_literal_scalar_keys::<i32>(emitter, entries, "i32"),
         EffectiveKeyKind::LiteralAndExpressionScalars => handle_non_literal_scalar_keys(emitter, entries),
-- 
2.43.0


From 1de1956f46c9124a8fbb369663c4278cec2f84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:00 +0000
Subject: [PATCH 09/11] fix: removing repeated keys no longer takes quadratic
 time

Building a hash map or set went through the list of repeated entries for
each entry, such that a list of 320,000 entries most of which repeat a key
took 16 s instead of some milliseconds. The list is now a set, as it is in
the other functions of the module.
---
 frozen-collections-core/src/utils/dedup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/utils/dedup.rs b/frozen-collections-core/src/utils/dedup.rs
index 912871e..f1e6b9b 100644
--- a/frozen-collections-core/src/utils/dedup.rs
+++ b/frozen-collections-core/src/utils/dedup.rs
@@ -46,14 +46,14 @@ impl<T> DeduppedVec<T> {
 
     pub fn using_hash(mut entries: Vec<T>, hasher: impl Fn(&T) -> u64, eq: impl Fn(&T, &T) -> bool) -> Self {
         if entries.len() >= 2 {
-            let mut dupes = Vec::new();
+            let mut dupes = HashbrownSet::new();
             let mut keep = HashbrownTable::with_capacity(entries.len());
             for (index, value) in entries.iter().enumerate() {
                 let hash = hasher(value);
 
                 let r = keep.find_entry(hash, |other| eq(value, &entries[*other]));
                 if let Ok(entry) = r {
-                    dupes.push(*entry.get());
+                    _ = dupes.insert(*entry.get());
                     _ = entry.remove();
                 }
 
-- 
2.43.0


From af7c98fe1a5f7d7b10bed07e64e3efb8c0b909d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:00 +0000
Subject: [PATCH 10/11] fix: strings that share a length or subslice no longer
 share a hash code in numbers

The analysis of string keys let 5% of the keys have the same length or
subslice in common, however many that makes, and lookups of these keys went
through all of them. Cap the number of keys that may share one.
---
 .../src/analyzers/slice_key_analyzer.rs       | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
index 1e10b85..e999818 100644
--- a/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
+++ b/frozen-collections-core/src/analyzers/slice_key_analyzer.rs
@@ -2,11 +2,13 @@ use core::cmp::{max, min};
 use core::hash::{BuildHasher, Hash};
 use core::ops::Range;
 use hashbrown::HashMap as HashbrownMap;
-use hashbrown::HashSet as HashbrownSet;
 
 #[cfg(not(feature = "std"))]
 use alloc::vec::Vec;
 
+/// The most keys we let share a length or subslice, since looking up one of them involves going through all the others.
+const MAX_IDENTICAL: usize = 4;
+
 /// How to treat keys which are slices for the best performance.
 #[derive(PartialEq, Eq, Debug)]
 pub enum SliceKeyAnalysisResult {
@@ -58,7 +60,7 @@ where
 fn analyze_lengths<T>(keys: &Vec<&[T]>) -> SliceKeyAnalysisResult {
     const ACCEPTABLE_DUPLICATE_RATIO: usize = 20; // 5% duplicates are acceptable
 
-    let max_identical = keys.len() / ACCEPTABLE_DUPLICATE_RATIO;
+    let max_identical = min(keys.len() / ACCEPTABLE_DUPLICATE_RATIO, MAX_IDENTICAL);
     let mut lengths = HashbrownMap::<usize, usize>::new();
     for s in keys {
         let v = lengths.get_mut(&s.len());
@@ -124,8 +126,8 @@ where
     // tolerate a certain number of duplicate subslices
     let acceptable_duplicates = keys.len() / ACCEPTABLE_DUPLICATE_RATIO;
 
-    // this set is reused for each call to is_sufficiently_unique
-    let mut set = HashbrownSet::with_capacity(keys.len());
+    // this map is reused for each call to is_sufficiently_unique
+    let mut counts = HashbrownMap::with_capacity(keys.len());
 
     // for each subslice length, prefer the shortest length that provides enough uniqueness
     let max_subslice_len = min(min_len, MAX_SUBSLICE_LENGTH_LIMIT);
@@ -136,7 +138,7 @@ where
         // If any is above our threshold, we're done.
         let mut subslice_index = prefix_len;
         while subslice_index <= min_len - subslice_len {
-            if is_sufficiently_unique(keys, subslice_index, subslice_len, true, &mut set, acceptable_duplicates, bh) {
+            if is_sufficiently_unique(keys, subslice_index, subslice_len, true, &mut counts, acceptable_duplicates, bh) {
                 return if subslice_len == max_len {
                     SliceKeyAnalysisResult::General
                 } else {
@@ -156,7 +158,7 @@ where
             // If any is above our threshold, we're done.
             subslice_index = suffix_len;
             while subslice_index <= min_len - subslice_len {
-                if is_sufficiently_unique(keys, subslice_index, subslice_len, false, &mut set, acceptable_duplicates, bh) {
+                if is_sufficiently_unique(keys, subslice_index, subslice_len, false, &mut counts, acceptable_duplicates, bh) {
                     return SliceKeyAnalysisResult::RightHandSubslice(subslice_index..subslice_index + subslice_len);
                 }
 
@@ -176,7 +178,7 @@ fn is_sufficiently_unique<T, BH>(
     subslice_index: usize,
     subslice_len: usize,
     left_justified: bool,
-    set: &mut HashbrownSet<u64>,
+    counts: &mut HashbrownMap<u64, usize>,
     mut acceptable_duplicates: usize,
     bh: &BH,
 ) -> bool
@@ -184,7 +186,7 @@ where
     T: Hash,
     BH: BuildHasher,
 {
-    set.clear();
+    counts.clear();
 
     for s in keys {
         let sub = if left_justified {
@@ -194,8 +196,11 @@ where
             &s[start..start + subslice_len]
         };
 
-        if !set.insert(bh.hash_one(sub)) {
-            if acceptable_duplicates == 0 {
+        let count = counts.entry(bh.hash_one(sub)).or_insert(0);
+        *count += 1;
+
+        if *count > 1 {
+            if acceptable_duplicates == 0 || *count > MAX_IDENTICAL {
                 return false;
             }
 
-- 
2.43.0


From 53756af3f4e02e39dbfce8c08de00d305fb8aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:30 +0000
Subject: [PATCH 11/11] fix: variables declared through a macro that is given
 their name can be used

---
 .../src/emit/collection_emitter.rs                 | 14 ++++++++++++--
 frozen-collections-core/src/macros/macro_api.rs    |  2 ++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/frozen-collections-core/src/emit/collection_emitter.rs b/frozen-collections-core/src/emit/collection_emitter.rs
index 9337cf1..9ff4d86 100644
--- a/frozen-collections-core/src/emit/collection_emitter.rs
+++ b/frozen-collections-core/src/emit/collection_emitter.rs
@@ -5,7 +5,7 @@ use crate::hashers::{BridgeHasher, LeftRangeHasher, LengthHasher, RightRangeHash
 use crate::traits::{Hasher, Scalar};
 use crate::utils::{DeduppedVec, SortedAndDeduppedVec};
 use foldhash::fast::FixedState;
-use proc_macro2::{Literal, TokenStream};
+use proc_macro2::{Literal, Span, TokenStream};
 use quote::{ToTokens, format_ident, quote};
 use syn::{Type, Visibility, parse_quote};
 
@@ -83,6 +83,7 @@ pub struct CollectionEmitter {
     key_type: Type,
     pub(crate) value_type: Option<Type>,
     symbol_name: Option<String>,
+    symbol_span: Span,
     alias_name: Option<String>,
     const_keys: bool,
     const_values: bool,
@@ -117,6 +118,7 @@ impl CollectionEmitter {
             key_type: key_type.clone(),
             value_type: None,
             symbol_name: None,
+            symbol_span: Span::call_site(),
             alias_name: None,
             const_keys: false,
             const_values: false,
@@ -169,6 +171,14 @@ impl CollectionEmitter {
         self
     }
 
+    /// Specifies where the symbol's name comes from, which determines where the name can be used.
+    #[cfg(feature = "macros")]
+    #[must_use]
+    pub(crate) const fn symbol_span(mut self, symbol_span: Span) -> Self {
+        self.symbol_span = symbol_span;
+        self
+    }
+
     /// Specifies the name of the alias type that will be generated for the collection.
     ///
     /// This is the name used as an alias to the generated collection type. If
@@ -502,7 +512,7 @@ impl CollectionEmitter {
                 )
             }
         } else if let Some(symbol_name) = self.symbol_name.as_ref() {
-            let symbol_name = format_ident!("{}", symbol_name);
+            let symbol_name = format_ident!("{}", symbol_name, span = self.symbol_span);
             let mutable = if self.is_mutable { quote!(mut) } else { quote!() };
 
             if let Some(alias_name) = self.alias_name.as_ref() {
diff --git a/frozen-collections-core/src/macros/macro_api.rs b/frozen-collections-core/src/macros/macro_api.rs
index 771da89..444fa1f 100644
--- a/frozen-collections-core/src/macros/macro_api.rs
+++ b/frozen-collections-core/src/macros/macro_api.rs
@@ -93,6 +93,7 @@ fn fz_map_macro(args: TokenStream, macro_kind: MacroKind) -> syn::Result<TokenSt
                 .value_type(&map.value_type)
                 .alias_name(map.type_name.to_string().as_str())
                 .symbol_name(map.var_name.to_string().as_str())
+                .symbol_span(map.var_name.span())
                 .mutable(map.is_mutable)
                 .static_instance(map.is_static)
                 .visibility(map.visibility);
@@ -114,6 +115,7 @@ fn fz_set_macro(args: TokenStream, macro_kind: MacroKind) -> syn::Result<TokenSt
             let emitter = CollectionEmitter::new(&set.value_type)
                 .alias_name(set.type_name.to_string().as_str())
                 .symbol_name(set.var_name.to_string().as_str())
+                .symbol_span(set.var_name.span())
                 .mutable(set.is_mutable)
                 .static_instance(set.is_static)
                 .visibility(set.visibility);
-- 
2.43.0


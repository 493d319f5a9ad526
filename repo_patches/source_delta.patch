From 2d90914dd46f12ec6913469cbdb563414e75fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 1/6] fix: return None for an out of bounds Flatten view

---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..949e3cc 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        (index < self.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0
+                    .view(index.strict_mul(N).strict_add(idx))
+                    .expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From 42441f3c0a95078a3f245c678c9ae85b1fb54d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 2/6] fix: return None for the largest index in offset views

---
 src/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..48c1a8a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = self.offsets.owned(index.checked_add(1)?);
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,7 +700,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
+        let idx = self.start.checked_add(index)?;
         if idx < self.end {
             self.collection.data.view(idx)
         } else {
-- 
2.43.0


From 5244b8af3c9f30ff515d90c6f69941bb06b86fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 3/6] fix: stop at the first None when collecting a bitmap

---
 src/bitmap/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..4549668 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -398,6 +398,7 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
         let mut bits: usize = 0;
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +458,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +487,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From 8a716e03bb8a56ffed34bbdd4b4e41acce26298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 4/6] fix: seal FixedSize, Nullability and Offset with explicit
 impls

---
 src/fixed_size.rs  | 20 +++++++++++++++++++-
 src/nullability.rs |  3 ++-
 src/offset.rs      |  4 +++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/fixed_size.rs b/src/fixed_size.rs
index f9a0866..198e2cc 100644
--- a/src/fixed_size.rs
+++ b/src/fixed_size.rs
@@ -87,5 +87,23 @@ impl<T: FixedSize, const N: usize> FixedSize for FixedSizeArray<T, N> {}
 
 mod sealed {
     pub trait Sealed {}
-    impl<T: super::FixedSize> Sealed for T {}
+
+    impl Sealed for u8 {}
+    impl Sealed for u16 {}
+    impl Sealed for u32 {}
+    impl Sealed for u64 {}
+    impl Sealed for u128 {}
+    impl Sealed for usize {}
+
+    impl Sealed for i8 {}
+    impl Sealed for i16 {}
+    impl Sealed for i32 {}
+    impl Sealed for i64 {}
+    impl Sealed for i128 {}
+    impl Sealed for isize {}
+
+    impl Sealed for f32 {}
+    impl Sealed for f64 {}
+
+    impl<T: super::FixedSize, const N: usize> Sealed for super::FixedSizeArray<T, N> {}
 }
diff --git a/src/nullability.rs b/src/nullability.rs
index 66fc857..071d86a 100644
--- a/src/nullability.rs
+++ b/src/nullability.rs
@@ -90,7 +90,8 @@ mod sealed {
     pub trait Sealed {}
 
     /// Prevent downstream implementations of [`super::Nullability`].
-    impl<T> Sealed for T where T: super::Nullability {}
+    impl Sealed for super::NonNullable {}
+    impl Sealed for super::Nullable {}
 }
 
 /// Non-nullable types.
diff --git a/src/offset.rs b/src/offset.rs
index 48c1a8a..68a669a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -77,7 +77,9 @@ pub trait Offset:
 
 mod sealed {
     pub trait Sealed {}
-    impl<T: super::Offset> Sealed for T {}
+
+    impl Sealed for i32 {}
+    impl Sealed for i64 {}
 }
 
 impl Offset for i32 {
-- 
2.43.0


From 3d762a620ac13387249573f2a978992674d79dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 5/6] fix: size allocations by the lower size bound only

---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 68a669a..413edf6 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -347,8 +347,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -370,8 +370,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..6e6d98f 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -454,9 +454,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -483,8 +482,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From 739446424ee49d79b66919efef0cb4ce8f919252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 6/6] fix: ignore a partial trailing group in Flatten

---
 src/collection/flatten.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 949e3cc..d6dc9ba 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -119,6 +119,19 @@ impl<C: Collection, const N: usize> Flatten<C, N> {
     }
 }
 
+impl<C: CollectionRealloc, const N: usize> Flatten<C, N> {
+    /// Drops child items beyond the last complete group, left behind by an
+    /// extension that was interrupted by a panicking iterator.
+    fn truncate_partial(&mut self) {
+        let len = self.0.len();
+        if let Some(partial) = len.checked_rem(N)
+            && partial != 0
+        {
+            self.0.truncate(len.strict_sub(partial));
+        }
+    }
+}
+
 impl<C: Collection, const N: usize> ChildRef for Flatten<C, N> {
     type Child = C;
 
@@ -135,6 +148,7 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
 
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
+        self.truncate_partial();
         self.0.extend(iter.into_iter().flatten());
     }
 }
@@ -222,6 +236,7 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
+        self.truncate_partial();
         self.0.try_extend(iter.into_iter().flatten())
     }
 
@@ -305,6 +320,10 @@ impl<const N: usize, I: ExactSizeIterator> Iterator for ArrayChunks<N, I> {
     type Item = [I::Item; N];
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Do not yield a partial trailing group.
+        if self.0.len() < N {
+            return None;
+        }
         let first = self.0.next()?;
         let mut items = array::from_fn(|_| None);
         items[0] = Some(first);
-- 
2.43.0


From a53b583827f0c70a5288c764c25fa8ca8c75e4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 1/7] fix: Flatten::view returns None past the end instead of
 panicking

---
 src/collection/flatten.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..84d8475 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,15 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        let start = index.checked_mul(N)?;
+        let end = start.checked_add(N)?;
+        (end <= self.0.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0
+                    .view(start.strict_add(idx))
+                    .expect("collection contains complete chunk")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From 7ec1764aecbc9e5ef50c4b759d798b5ae4a6cfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 2/7] fix: list reads at the largest index return None instead
 of overflowing

---
 src/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..48c1a8a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = self.offsets.owned(index.checked_add(1)?);
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,7 +700,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
+        let idx = self.start.checked_add(index)?;
         if idx < self.end {
             self.collection.data.view(idx)
         } else {
-- 
2.43.0


From 9a668f6cbc2ca0304b968d0aad1ccd26ba62385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:46 +0000
Subject: [PATCH 3/7] fix: a nullable append that panics leaves no items
 without validity

---
 src/validity.rs | 90 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 56 insertions(+), 34 deletions(-)

diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..69457d5 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -364,6 +364,42 @@ impl<
         }
         Ok(())
     }
+
+    /// Starts an append to the materialized bitmap and the collection.
+    fn uncommitted(&mut self) -> Uncommitted<'_, T, Storage> {
+        let bitmap = self
+            .bitmap
+            .as_mut()
+            .expect("validity bitmap is materialized");
+        let committed = bitmap.len();
+        self.collection.truncate(committed);
+        Uncommitted {
+            collection: &mut self.collection,
+            bitmap,
+            committed,
+        }
+    }
+}
+
+/// An append in progress, which discards everything beyond the committed items
+/// when it ends, also when an item iterator panics or an allocation fails.
+struct Uncommitted<
+    'validity,
+    T: CollectionRealloc,
+    Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>,
+> {
+    collection: &'validity mut T,
+    bitmap: &'validity mut Bitmap<Storage>,
+    committed: usize,
+}
+
+impl<T: CollectionRealloc, Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> Drop
+    for Uncommitted<'_, T, Storage>
+{
+    fn drop(&mut self) {
+        self.bitmap.truncate(self.committed);
+        self.collection.truncate(self.committed);
+    }
 }
 
 impl<
@@ -399,23 +435,19 @@ impl<
 {
     fn extend<I: IntoIterator<Item = Option<U>>>(&mut self, iter: I) {
         self.materialize_bitmap();
-        let bitmap_len = self
-            .bitmap
-            .as_ref()
-            .expect("validity bitmap is materialized")
-            .len();
-        self.collection.truncate(bitmap_len);
+        let mut uncommitted = self.uncommitted();
 
         // Buffer validity and flush it to the bitmap per chunk, instead of
         // extending the bitmap bit by bit: bulk bitmap extension uses the bit
         // packing fast path. The bitmap is extended after the items of a
         // chunk are committed to the collection, so a panicking iterator can
-        // not add validity for items that never arrive.
+        // not add validity for items that never arrive. Items of a chunk
+        // without validity are discarded.
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            uncommitted.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,10 +457,8 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
-                .as_mut()
-                .expect("validity bitmap is materialized")
-                .extend(validity.iter().take(count));
+            uncommitted.bitmap.extend(validity.iter().take(count));
+            uncommitted.committed = uncommitted.bitmap.len();
             if count < VALIDITY_CHUNK {
                 break;
             }
@@ -512,39 +542,31 @@ impl<
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        let len = self.len();
         self.try_materialize_bitmap()?;
-        self.collection.truncate(len);
+        let mut uncommitted = self.uncommitted();
 
         let mut items = iter.into_iter();
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            let values = items
-                .by_ref()
-                .take(VALIDITY_CHUNK)
-                .inspect(|item| {
-                    validity[count] = item.is_some();
-                    count = count.strict_add(1);
-                })
-                .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
-                return Err(error);
-            }
-            if let Err(error) = self
+            uncommitted.collection.try_extend(
+                items
+                    .by_ref()
+                    .take(VALIDITY_CHUNK)
+                    .inspect(|item| {
+                        validity[count] = item.is_some();
+                        count = count.strict_add(1);
+                    })
+                    .map(Option::unwrap_or_default),
+            )?;
+            uncommitted
                 .bitmap
-                .as_mut()
-                .expect("validity bitmap is materialized")
-                .try_extend(validity.into_iter().take(count))
-            {
-                self.truncate(len);
-                return Err(error);
-            }
+                .try_extend(validity.into_iter().take(count))?;
             if count < VALIDITY_CHUNK {
                 break;
             }
         }
+        uncommitted.committed = uncommitted.bitmap.len();
         Ok(())
     }
 
-- 
2.43.0


From 164598d4a3ca7262622e7e941a900cfa05caa38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 4/7] fix: a fixed-size list append that panics leaves no
 incomplete item

---
 src/collection/flatten.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 84d8475..ba7e160 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -133,9 +133,24 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
     }
 }
 
+/// Drops an incomplete trailing chunk, so that a panicking iterator can not
+/// leave a child length that is not a multiple of `N`.
+struct CompleteChunks<'collection, C: CollectionRealloc, const N: usize>(&'collection mut C);
+
+impl<C: CollectionRealloc, const N: usize> Drop for CompleteChunks<'_, C, N> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        let incomplete = len.checked_rem(N).unwrap_or_default();
+        if incomplete != 0 {
+            self.0.truncate(len.strict_sub(incomplete));
+        }
+    }
+}
+
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
-        self.0.extend(iter.into_iter().flatten());
+        let chunks = CompleteChunks::<C, N>(&mut self.0);
+        chunks.0.extend(iter.into_iter().flatten());
     }
 }
 
@@ -224,7 +239,8 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        self.0.try_extend(iter.into_iter().flatten())
+        let chunks = CompleteChunks::<C, N>(&mut self.0);
+        chunks.0.try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 0332e8a679ffc5fc3815cff0979e949ae78583fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 5/7] fix: collecting bits stops at the iterator's first end

---
 src/bitmap/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..02a7515 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -396,8 +396,10 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
 {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut bits: usize = 0;
+        // Fuse because packing looks for more items after the first `None`.
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +459,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +488,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From b7d983437ad2e6807231627cd516162042e967c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:04 +0000
Subject: [PATCH 6/7] fix: construction reserves for the items an iterator
 promises, not its upper bound

---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 48c1a8a..3da3c16 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 69457d5..ebd9c6c 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -410,8 +410,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -484,9 +484,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -513,8 +512,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From 1a77788440420d454f0a44bb89889f6e1a6a2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 7/7] fix: exported child arrays stay valid after their parent
 is released

---
 narrow-ffi/src/export/fixed_size_list.rs    | 12 ++--
 narrow-ffi/src/export/mod.rs                | 68 ++++++++-------------
 narrow-ffi/src/export/variable_size_list.rs | 12 ++--
 3 files changed, 36 insertions(+), 56 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index 843244a..b5d3210 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, ffi::CString, format};
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, ffi::CString, format, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -34,8 +34,8 @@ where
         [ptr::null()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -71,8 +71,8 @@ where
         [validity.unwrap_or(ptr::null())]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 22e14f2..c061976 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -2,8 +2,9 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, sync::Arc, vec::Vec};
 use core::{
+    any::Any,
     ffi::{CStr, c_void},
     fmt, ptr,
 };
@@ -149,8 +150,8 @@ trait ArrowArrayLayout: Length + Sized {
     /// Returns the array's buffer pointers.
     fn buffers(&self) -> Self::Buffers;
 
-    /// Returns the array's child pointers.
-    fn children(&self) -> Result<Self::Children, ExportError> {
+    /// Returns the array's children, which retain `owner`.
+    fn children(&self, _owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
         Ok(Self::Children::default())
     }
 
@@ -159,8 +160,12 @@ trait ArrowArrayLayout: Length + Sized {
         ptr::null_mut()
     }
 
-    /// Builds a child [`ArrowArray`] borrowing storage retained by its parent.
-    fn child_array(&self) -> Result<ArrowArray, ExportError>
+    /// Builds an [`ArrowArray`] for this layout, retaining the `owner` of its
+    /// storage.
+    ///
+    /// Consumers may move a child array out of its parent and release the
+    /// parent, so every array of an export retains the owner by itself.
+    fn array(&self, owner: &Arc<dyn Any>) -> Result<ArrowArray, ExportError>
     where
         Self: 'static,
     {
@@ -169,14 +174,16 @@ trait ArrowArrayLayout: Length + Sized {
             return Err(ExportError::NonZeroOffset { offset });
         }
 
+        // Convert platform-sized layout metadata into the Arrow C ABI fields.
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let mut private = Box::new(ArrayData::<(), Self>::new(
-            (),
-            self.buffers(),
-            self.children()?,
-        ));
+        let mut private = Box::new(ArrayData::<Self> {
+            buffers: self.buffers(),
+            children: self.children(owner)?,
+            child_pointers: Vec::new(),
+            _owner: Arc::clone(owner),
+        });
         private.set_child_pointers();
 
         Ok(private.into_array(length, null_count, dictionary))
@@ -187,55 +194,28 @@ trait ArrowArrayLayout: Length + Sized {
     where
         Self: 'static,
     {
-        let offset = self.offset();
-        if offset != 0 {
-            return Err(ExportError::NonZeroOffset { offset });
-        }
-
         // Pin the layout before asking it for pointers into its storage.
-        let mut private = Box::new(ArrayData::<Self, Self> {
-            buffers: Self::Buffers::default(),
-            children: Self::Children::default(),
-            child_pointers: Vec::new(),
-            owner: self,
-        });
-        private.buffers = private.owner.buffers();
-        private.children = private.owner.children()?;
-        private.set_child_pointers();
-
-        // Convert platform-sized layout metadata into the Arrow C ABI fields.
-        let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
-        let null_count = private.owner.null_count();
-        let dictionary = private.owner.dictionary();
-        let array = private.into_array(length, null_count, dictionary);
+        let layout = Arc::new(self);
+        let owner: Arc<dyn Any> = Arc::<Self>::clone(&layout);
+        let array = layout.array(&owner)?;
 
         Ok((array, Self::schema()))
     }
 }
 
 /// Data retained by `ArrowArray::private_data` for an array export.
-struct ArrayData<Owner, Layout: ArrowArrayLayout> {
+struct ArrayData<Layout: ArrowArrayLayout> {
     /// Arrow C Data buffer pointers.
     buffers: Layout::Buffers,
     /// Child arrays owned by the export.
     children: Layout::Children,
     /// Arrow C Data child pointers.
     child_pointers: Vec<*mut ArrowArray>,
-    /// Owner retained until the array is released.
-    owner: Owner,
+    /// Owner of the storage, retained until the array is released.
+    _owner: Arc<dyn Any>,
 }
 
-impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout> {
-    /// Creates private data for an exported array.
-    fn new(owner: Owner, buffers: Layout::Buffers, children: Layout::Children) -> Self {
-        Self {
-            buffers,
-            children,
-            child_pointers: Vec::new(),
-            owner,
-        }
-    }
-
+impl<Layout: ArrowArrayLayout + 'static> ArrayData<Layout> {
     /// Updates child pointers after the child arrays are pinned.
     fn set_child_pointers(&mut self) {
         self.child_pointers = self
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 5689dab..6a0958f 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::boxed::Box;
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -37,8 +37,8 @@ where
         [ptr::null(), offsets.as_ptr().cast()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -80,8 +80,8 @@ where
         ]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
-- 
2.43.0


From c6b670d546d69813b35374e20fd6b729407b6e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 1/9] fix: return None for an out-of-range fixed-size-list view
 instead of panicking

---
 src/collection/flatten.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 12903d5..755d7d0 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -154,11 +154,13 @@ impl<C: Collection, const N: usize> Collection for Flatten<C, N> {
     type Owned = [C::Owned; N];
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        Some(FlattenView(array::from_fn(|idx| {
-            self.0
-                .view(index.strict_mul(N).strict_add(idx))
-                .expect("out of bounds")
-        })))
+        let start = index.checked_mul(N)?;
+        let end = start.checked_add(N)?;
+        (end <= self.0.len()).then(|| {
+            FlattenView(array::from_fn(|idx| {
+                self.0.view(start.strict_add(idx)).expect("out of bounds")
+            }))
+        })
     }
 
     type Iter<'collection>
-- 
2.43.0


From d00e2d74ce2ce54b672d359da6eb702a289c80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:14 +0000
Subject: [PATCH 2/9] fix: return None for list indices that overflow instead
 of panicking

---
 src/offset.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index a549595..48c1a8a 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -443,7 +443,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U: FromIterator<T::Owne
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
         let start = self.offsets.owned(index);
-        let end = self.offsets.owned(index.strict_add(1));
+        let end = self.offsets.owned(index.checked_add(1)?);
         start.zip(end).map(|(s, e)| OffsetView {
             collection: self,
             start: s.as_usize(),
@@ -700,7 +700,7 @@ impl<T: Collection, OffsetItem: Offset, Storage: Buffer, U> Collection
     type Owned = T::Owned;
 
     fn view(&self, index: usize) -> Option<Self::View<'_>> {
-        let idx = self.start.strict_add(index);
+        let idx = self.start.checked_add(index)?;
         if idx < self.end {
             self.collection.data.view(idx)
         } else {
-- 
2.43.0


From 342cddf631127ed53b377ff70e64076afe82564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 3/9] fix: stop bitmap constructors at the first None of a
 resumable iterator

---
 src/bitmap/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 0e51160..034dbb4 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -396,8 +396,11 @@ impl<T: Borrow<bool>, Storage: Buffer<For<u8>: CollectionAlloc>> FromIterator<T>
 {
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut bits: usize = 0;
+        // Fuse to prevent a resumable iterator from writing bits beyond the
+        // first `None`.
         let buffer = iter
             .into_iter()
+            .fuse()
             .inspect(|_| {
                 bits = bits.strict_add(1);
             })
@@ -457,6 +460,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
@@ -485,6 +489,7 @@ impl<Storage: Buffer<For<u8>: CollectionAllocIn>> CollectionAllocIn for Bitmap<S
         let mut bits: usize = 0;
         let buffer = Storage::For::<u8>::try_from_iter_in(
             iter.into_iter()
+                .fuse()
                 .inspect(|_| bits = bits.strict_add(1))
                 .bit_packed(),
             alloc,
-- 
2.43.0


From 729b356f72dadb7ff9bf3225f0c6d9c824446951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 4/9] fix: preallocate from the lower size bound of an
 iterator, not its upper bound

---
 src/offset.rs   |  8 ++++----
 src/validity.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/offset.rs b/src/offset.rs
index 48c1a8a..3da3c16 100644
--- a/src/offset.rs
+++ b/src/offset.rs
@@ -345,8 +345,8 @@ where
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc);
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::with_capacity_in(lower_bound, alloc);
         offsets.extend(items);
         offsets
     }
@@ -368,8 +368,8 @@ where
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut offsets = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut offsets = Self::try_with_capacity_in(lower_bound, alloc)?;
         offsets.try_extend(items)?;
         Ok(offsets)
     }
diff --git a/src/validity.rs b/src/validity.rs
index 57d00f1..6e6d98f 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -374,8 +374,8 @@ impl<
 {
     fn from_iter<I: IntoIterator<Item = Option<U>>>(iter: I) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap = Bitmap::with_capacity(upper_bound.unwrap_or(lower_bound));
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::with_capacity(lower_bound);
         let collection = items
             .inspect(|opt| bitmap.extend(iter::once(opt.is_some())))
             .map(Option::unwrap_or_default)
@@ -454,9 +454,8 @@ impl<
 
     fn from_iter_in<I: IntoIterator<Item = Self::Owned>>(iter: I, alloc: Self::Alloc) -> Self {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut bitmap =
-            Bitmap::<Storage>::with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc.clone());
+        let (lower_bound, _) = items.size_hint();
+        let mut bitmap = Bitmap::<Storage>::with_capacity_in(lower_bound, alloc.clone());
         let collection = T::from_iter_in(
             items
                 .inspect(|item| bitmap.extend(iter::once(item.is_some())))
@@ -483,8 +482,8 @@ impl<
         alloc: Self::Alloc,
     ) -> Result<Self, AllocError> {
         let items = iter.into_iter();
-        let (lower_bound, upper_bound) = items.size_hint();
-        let mut validity = Self::try_with_capacity_in(upper_bound.unwrap_or(lower_bound), alloc)?;
+        let (lower_bound, _) = items.size_hint();
+        let mut validity = Self::try_with_capacity_in(lower_bound, alloc)?;
         validity.try_extend(items)?;
         Ok(validity)
     }
-- 
2.43.0


From dce1e44fd1c77ba16da3497f6806ee4398c0f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 5/9] fix: drop the partial fixed-size list a panicking
 extension leaves behind

---
 src/collection/flatten.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/collection/flatten.rs b/src/collection/flatten.rs
index 755d7d0..9762c0c 100644
--- a/src/collection/flatten.rs
+++ b/src/collection/flatten.rs
@@ -135,7 +135,21 @@ impl<C: Collection, const N: usize> Length for Flatten<C, N> {
 
 impl<C: CollectionRealloc, const N: usize> Extend<[C::Owned; N]> for Flatten<C, N> {
     fn extend<I: IntoIterator<Item = [C::Owned; N]>>(&mut self, iter: I) {
-        self.0.extend(iter.into_iter().flatten());
+        let guard = WholeItems::<C, N>(&mut self.0);
+        guard.0.extend(iter.into_iter().flatten());
+    }
+}
+
+/// Truncates a child collection to a whole number of items when dropped: a
+/// panicking extension can leave a partial item at the end of the child.
+struct WholeItems<'child, C: CollectionRealloc, const N: usize>(&'child mut C);
+
+impl<C: CollectionRealloc, const N: usize> Drop for WholeItems<'_, C, N> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        if let Some(partial @ 1..) = len.checked_rem(N) {
+            self.0.truncate(len.strict_sub(partial));
+        }
     }
 }
 
@@ -222,7 +236,8 @@ impl<C: CollectionRealloc, const N: usize> CollectionRealloc for Flatten<C, N> {
         &mut self,
         iter: I,
     ) -> Result<(), AllocError> {
-        self.0.try_extend(iter.into_iter().flatten())
+        let guard = WholeItems::<C, N>(&mut self.0);
+        guard.0.try_extend(iter.into_iter().flatten())
     }
 
     fn reserve(&mut self, additional: usize) {
-- 
2.43.0


From 644e9224fc405f2a75523f3db46c58f8566fac9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 6/9] fix: drop values without committed validity after a
 panicking extension

---
 src/validity.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/validity.rs b/src/validity.rs
index 6e6d98f..76b751c 100644
--- a/src/validity.rs
+++ b/src/validity.rs
@@ -391,6 +391,20 @@ impl<
 /// [`Extend::extend`] for [`Validity`].
 const VALIDITY_CHUNK: usize = 1024;
 
+/// Drops the items of a collection without committed validity when dropped: a
+/// panicking extension can leave items of an incomplete chunk in the
+/// collection.
+struct CommittedItems<'validity, T: CollectionRealloc, Storage: Buffer>(
+    &'validity mut Validity<T, Storage>,
+);
+
+impl<T: CollectionRealloc, Storage: Buffer> Drop for CommittedItems<'_, T, Storage> {
+    fn drop(&mut self) {
+        let len = self.0.len();
+        self.0.collection.truncate(len);
+    }
+}
+
 impl<
     U: Default,
     T: CollectionRealloc<Owned = U>,
@@ -405,6 +419,7 @@ impl<
             .expect("validity bitmap is materialized")
             .len();
         self.collection.truncate(bitmap_len);
+        let guard = CommittedItems(self);
 
         // Buffer validity and flush it to the bitmap per chunk, instead of
         // extending the bitmap bit by bit: bulk bitmap extension uses the bit
@@ -415,7 +430,7 @@ impl<
         loop {
             let mut validity = [false; VALIDITY_CHUNK];
             let mut count: usize = 0;
-            self.collection.extend(
+            guard.0.collection.extend(
                 items
                     .by_ref()
                     .take(VALIDITY_CHUNK)
@@ -425,7 +440,9 @@ impl<
                     })
                     .map(Option::unwrap_or_default),
             );
-            self.bitmap
+            guard
+                .0
+                .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .extend(validity.iter().take(count));
@@ -514,6 +531,7 @@ impl<
         let len = self.len();
         self.try_materialize_bitmap()?;
         self.collection.truncate(len);
+        let guard = CommittedItems(self);
 
         let mut items = iter.into_iter();
         loop {
@@ -527,17 +545,18 @@ impl<
                     count = count.strict_add(1);
                 })
                 .map(Option::unwrap_or_default);
-            if let Err(error) = self.collection.try_extend(values) {
-                self.truncate(len);
+            if let Err(error) = guard.0.collection.try_extend(values) {
+                guard.0.truncate(len);
                 return Err(error);
             }
-            if let Err(error) = self
+            if let Err(error) = guard
+                .0
                 .bitmap
                 .as_mut()
                 .expect("validity bitmap is materialized")
                 .try_extend(validity.into_iter().take(count))
             {
-                self.truncate(len);
+                guard.0.truncate(len);
                 return Err(error);
             }
             if count < VALIDITY_CHUNK {
-- 
2.43.0


From 140a77bdc2fc0ad1f6cb59defe9f9b87f31d17ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 7/9] fix: keep exported storage alive for children moved out
 of their parent

---
 narrow-ffi/src/export/fixed_size_list.rs    | 12 ++---
 narrow-ffi/src/export/mod.rs                | 54 ++++++++-------------
 narrow-ffi/src/export/variable_size_list.rs | 12 ++---
 3 files changed, 33 insertions(+), 45 deletions(-)

diff --git a/narrow-ffi/src/export/fixed_size_list.rs b/narrow-ffi/src/export/fixed_size_list.rs
index 843244a..b5d3210 100644
--- a/narrow-ffi/src/export/fixed_size_list.rs
+++ b/narrow-ffi/src/export/fixed_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, ffi::CString, format};
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, ffi::CString, format, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -34,8 +34,8 @@ where
         [ptr::null()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -71,8 +71,8 @@ where
         [validity.unwrap_or(ptr::null())]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
diff --git a/narrow-ffi/src/export/mod.rs b/narrow-ffi/src/export/mod.rs
index 22e14f2..056810d 100644
--- a/narrow-ffi/src/export/mod.rs
+++ b/narrow-ffi/src/export/mod.rs
@@ -2,8 +2,9 @@
 
 extern crate alloc;
 
-use alloc::{boxed::Box, vec::Vec};
+use alloc::{boxed::Box, sync::Arc, vec::Vec};
 use core::{
+    any::Any,
     ffi::{CStr, c_void},
     fmt, ptr,
 };
@@ -149,8 +150,8 @@ trait ArrowArrayLayout: Length + Sized {
     /// Returns the array's buffer pointers.
     fn buffers(&self) -> Self::Buffers;
 
-    /// Returns the array's child pointers.
-    fn children(&self) -> Result<Self::Children, ExportError> {
+    /// Returns the array's children, which share ownership of `owner`.
+    fn children(&self, _owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
         Ok(Self::Children::default())
     }
 
@@ -159,8 +160,12 @@ trait ArrowArrayLayout: Length + Sized {
         ptr::null_mut()
     }
 
-    /// Builds a child [`ArrowArray`] borrowing storage retained by its parent.
-    fn child_array(&self) -> Result<ArrowArray, ExportError>
+    /// Builds an [`ArrowArray`] sharing ownership of `owner`, which must retain
+    /// the storage of this layout.
+    ///
+    /// Every array owns its storage: the Arrow C Data Interface allows a
+    /// consumer to move a child out of its parent and release the parent.
+    fn array(&self, owner: &Arc<dyn Any>) -> Result<ArrowArray, ExportError>
     where
         Self: 'static,
     {
@@ -172,10 +177,10 @@ trait ArrowArrayLayout: Length + Sized {
         let length = i64::try_from(self.len()).expect("array length exceeds i64");
         let null_count = self.null_count();
         let dictionary = self.dictionary();
-        let mut private = Box::new(ArrayData::<(), Self>::new(
-            (),
+        let mut private = Box::new(ArrayData::<Self>::new(
+            Arc::clone(owner),
             self.buffers(),
-            self.children()?,
+            self.children(owner)?,
         ));
         private.set_child_pointers();
 
@@ -187,34 +192,17 @@ trait ArrowArrayLayout: Length + Sized {
     where
         Self: 'static,
     {
-        let offset = self.offset();
-        if offset != 0 {
-            return Err(ExportError::NonZeroOffset { offset });
-        }
-
         // Pin the layout before asking it for pointers into its storage.
-        let mut private = Box::new(ArrayData::<Self, Self> {
-            buffers: Self::Buffers::default(),
-            children: Self::Children::default(),
-            child_pointers: Vec::new(),
-            owner: self,
-        });
-        private.buffers = private.owner.buffers();
-        private.children = private.owner.children()?;
-        private.set_child_pointers();
-
-        // Convert platform-sized layout metadata into the Arrow C ABI fields.
-        let length = i64::try_from(private.owner.len()).expect("array length exceeds i64");
-        let null_count = private.owner.null_count();
-        let dictionary = private.owner.dictionary();
-        let array = private.into_array(length, null_count, dictionary);
+        let layout = Arc::new(self);
+        let owner: Arc<dyn Any> = Arc::<Self>::clone(&layout);
+        let array = layout.array(&owner)?;
 
         Ok((array, Self::schema()))
     }
 }
 
 /// Data retained by `ArrowArray::private_data` for an array export.
-struct ArrayData<Owner, Layout: ArrowArrayLayout> {
+struct ArrayData<Layout: ArrowArrayLayout> {
     /// Arrow C Data buffer pointers.
     buffers: Layout::Buffers,
     /// Child arrays owned by the export.
@@ -222,17 +210,17 @@ struct ArrayData<Owner, Layout: ArrowArrayLayout> {
     /// Arrow C Data child pointers.
     child_pointers: Vec<*mut ArrowArray>,
     /// Owner retained until the array is released.
-    owner: Owner,
+    _owner: Arc<dyn Any>,
 }
 
-impl<Owner: 'static, Layout: ArrowArrayLayout + 'static> ArrayData<Owner, Layout> {
+impl<Layout: ArrowArrayLayout + 'static> ArrayData<Layout> {
     /// Creates private data for an exported array.
-    fn new(owner: Owner, buffers: Layout::Buffers, children: Layout::Children) -> Self {
+    fn new(owner: Arc<dyn Any>, buffers: Layout::Buffers, children: Layout::Children) -> Self {
         Self {
             buffers,
             children,
             child_pointers: Vec::new(),
-            owner,
+            _owner: owner,
         }
     }
 
diff --git a/narrow-ffi/src/export/variable_size_list.rs b/narrow-ffi/src/export/variable_size_list.rs
index 5689dab..6a0958f 100644
--- a/narrow-ffi/src/export/variable_size_list.rs
+++ b/narrow-ffi/src/export/variable_size_list.rs
@@ -2,8 +2,8 @@
 
 extern crate alloc;
 
-use alloc::boxed::Box;
-use core::{borrow::Borrow, ffi::c_void, ptr};
+use alloc::{boxed::Box, sync::Arc};
+use core::{any::Any, borrow::Borrow, ffi::c_void, ptr};
 
 use narrow::{
     bitmap::ValidityBitmap,
@@ -37,8 +37,8 @@ where
         [ptr::null(), offsets.as_ptr().cast()]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().array(owner)?])
     }
 }
 
@@ -80,8 +80,8 @@ where
         ]
     }
 
-    fn children(&self) -> Result<Self::Children, ExportError> {
-        Ok([self.buffer_ref().child_ref().child_ref().child_array()?])
+    fn children(&self, owner: &Arc<dyn Any>) -> Result<Self::Children, ExportError> {
+        Ok([self.buffer_ref().child_ref().child_ref().array(owner)?])
     }
 }
 
-- 
2.43.0


From 492e0c4fe4c1deecb897844e77c15e4b57cf71c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 8/9] fix: count spare bitmap bytes as capacity when reserving

---
 src/bitmap/mod.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bitmap/mod.rs b/src/bitmap/mod.rs
index 034dbb4..353c099 100644
--- a/src/bitmap/mod.rs
+++ b/src/bitmap/mod.rs
@@ -280,6 +280,15 @@ impl<Storage: Buffer> Bitmap<Storage> {
             8_usize.strict_sub(trailing_bits)
         }
     }
+
+    /// Returns the number of bytes missing from the buffer to store
+    /// `additional` bits after the logical end of this bitmap. Bytes already in
+    /// the buffer beyond the logical end are overwritten by an extension.
+    fn missing_bytes(&self, additional: usize) -> usize {
+        let used_bytes = self.byte_index(self.bits.strict_add(self.trailing_bits()));
+        let spare_bytes = self.buffer.borrow().len().saturating_sub(used_bytes);
+        bytes_for_bits(additional.saturating_sub(self.trailing_bits())).saturating_sub(spare_bytes)
+    }
 }
 
 impl<Storage: Buffer<For<u8>: Clone>> Clone for Bitmap<Storage> {
@@ -545,10 +554,7 @@ impl<Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> CollectionRe
     }
 
     fn try_reserve(&mut self, additional: usize) -> Result<(), AllocError> {
-        if let Some(bits) = additional.checked_sub(self.trailing_bits()) {
-            self.buffer.try_reserve(bytes_for_bits(bits))?;
-        }
-        Ok(())
+        self.buffer.try_reserve(self.missing_bytes(additional))
     }
 
     fn try_extend<I: IntoIterator<Item = Self::Owned>>(
@@ -599,9 +605,7 @@ impl<Storage: Buffer<For<u8>: BorrowMut<[u8]> + CollectionRealloc>> CollectionRe
     }
 
     fn reserve(&mut self, additional: usize) {
-        if let Some(bits) = additional.checked_sub(self.trailing_bits()) {
-            self.buffer.reserve(bytes_for_bits(bits));
-        }
+        self.buffer.reserve(self.missing_bytes(additional));
     }
 
     fn truncate(&mut self, len: usize) {
-- 
2.43.0


From 19e83b5f2ac57f81f306a8388a6e8cd4b6d0cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:37 +0000
Subject: [PATCH 9/9] fix: fallible construction of boxed storage aborted when
 shrinking was refused

`Box::try_from_iter_in` collected into a vector and shrank it with
`Vec::into_boxed_slice`, which aborts the process when the allocator
refuses. Move the items into an exact allocation made fallibly instead.
---
 src/collection/box.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/collection/box.rs b/src/collection/box.rs
index 1965fea..6a817e8 100644
--- a/src/collection/box.rs
+++ b/src/collection/box.rs
@@ -52,6 +52,13 @@ impl<T: for<'any> AsView<'any>> CollectionAllocIn for Box<[T]> {
         iter: I,
         (): Self::Alloc,
     ) -> Result<Self, AllocError> {
-        <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ()).map(Vec::into_boxed_slice)
+        let mut items = <Vec<T> as CollectionAllocIn>::try_from_iter_in(iter, ())?;
+        if items.len() < items.capacity() {
+            // `Vec::into_boxed_slice` would shrink, and abort when that fails.
+            let mut exact = <Vec<T> as CollectionAllocIn>::try_with_capacity_in(items.len(), ())?;
+            exact.append(&mut items);
+            items = exact;
+        }
+        Ok(items.into_boxed_slice())
     }
 }
-- 
2.43.0


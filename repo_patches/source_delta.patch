From b7e5ebcf87076b4adb9e1f25fbb97563b43818f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 01/19] fix: reserve only the blocks needed

reserve (and so extend and append) asked for one block too many when the
desired capacity was a multiple of the block, reallocating within the
reported capacity.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 +-
 enum_vec/src/vec_u128/mod.rs     | 2 +-
 enum_vec/src/vec_u16/mod.rs      | 2 +-
 enum_vec/src/vec_u32/mod.rs      | 2 +-
 enum_vec/src/vec_u64/mod.rs      | 2 +-
 enum_vec/src/vec_u8/mod.rs       | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 2ffe467..373f58d 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -142,7 +142,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b92800e..ad9a7c0 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -141,7 +141,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b59a139..61848d5 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -141,7 +141,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9a22f41..959a845 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -141,7 +141,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 05af01d..d77b204 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -141,7 +141,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fd2e0a4..fe716d0 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -141,7 +141,7 @@ impl<T: EnumLike> EnumVec<T> {
         //}
         // Always resize storage until we can be sure that
         // self.storage.len() == self.storage.capacity()
-        self.storage.resize(desired_cap / Self::ELEMS_PER_BLOCK + 1, 0);
+        self.storage.resize(Self::blocks_for_elements(desired_cap), 0);
     }
     /// Shrinks the capacity as much as possible.
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From 0e771c2be40c32d0a7a6a2ed5fb910c54dec3cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 02/19] fix: split_off wrote past the new vector's storage

with_capacity leaves the storage empty, so the unchecked writes went past
its length: undefined behaviour, and clones of the result were broken.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 373f58d..39976d7 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -449,6 +449,8 @@ other.clear();
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The storage must be initialized before using set_raw_unchecked
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index ad9a7c0..f6385c0 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The storage must be initialized before using set_raw_unchecked
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 61848d5..8e20513 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The storage must be initialized before using set_raw_unchecked
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 959a845..862e738 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The storage must be initialized before using set_raw_unchecked
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index d77b204..2a97360 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The storage must be initialized before using set_raw_unchecked
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index fe716d0..8e08835 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -447,6 +447,8 @@ impl<T: EnumLike> EnumVec<T> {
 
         let other_len = self.len() - at;
         let mut other = Self::with_capacity(other_len);
+        // The storage must be initialized before using set_raw_unchecked
+        other.reserve(other_len);
         unsafe {
             other.set_len(other_len);
             for i in 0..other_len {
-- 
2.43.0


From 6a8b02022890c38e4f3c7ff78140643a6b6c5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 03/19] fix: append left the other vector's length when
 block-aligned

The storage was moved but the length of `other` was not reset, so reading
it accessed memory out of bounds.
---
 enum_vec/src/smallvec_u32/mod.rs | 4 ++--
 enum_vec/src/vec_u128/mod.rs     | 4 ++--
 enum_vec/src/vec_u16/mod.rs      | 4 ++--
 enum_vec/src/vec_u32/mod.rs      | 4 ++--
 enum_vec/src/vec_u64/mod.rs      | 4 ++--
 enum_vec/src/vec_u8/mod.rs       | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 39976d7..8530511 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -408,9 +408,9 @@ other.clear();
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f6385c0..f8ee784 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -406,9 +406,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 8e20513..43a9345 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -406,9 +406,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 862e738..a1750a0 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -406,9 +406,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 2a97360..ce87f38 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -406,9 +406,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 8e08835..3a9cc37 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -406,9 +406,9 @@ impl<T: EnumLike> EnumVec<T> {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
             }
-
-            other.clear();
         }
+
+        other.clear();
     }
     /// Sets the length to zero, removing all the elements.
     /// ```
-- 
2.43.0


From 0686b5e265b0a73f5ec4724e069b3057b292d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 04/19] fix: remove mixed the unused bits of a block into its
 last element

When the element width does not divide the block size the unused high bits
are undefined, but they were shifted into the last position.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 8530511..6bd09ef 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -277,6 +277,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused high bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f8ee784..f19e67b 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused high bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 43a9345..460c553 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused high bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index a1750a0..54656d7 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused high bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index ce87f38..fdfafe5 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused high bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 3a9cc37..50ad1de 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -276,6 +276,8 @@ impl<T: EnumLike> EnumVec<T> {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             *block >>= Self::BITS_PER_ELEM;
+            // The unused high bits may contain garbage
+            *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
 
             last
-- 
2.43.0


From 4952baea0c69239b2030e07cf9146d72c0089658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 05/19] fix: insert and remove with elements as wide as the
 block

Shifting a block by its whole width overflows.
---
 enum_vec/src/smallvec_u32/mod.rs | 4 ++--
 enum_vec/src/vec_u128/mod.rs     | 4 ++--
 enum_vec/src/vec_u16/mod.rs      | 4 ++--
 enum_vec/src/vec_u32/mod.rs      | 4 ++--
 enum_vec/src/vec_u64/mod.rs      | 4 ++--
 enum_vec/src/vec_u8/mod.rs       | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 6bd09ef..5acb84f 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -209,7 +209,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -276,7 +276,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused high bits may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index f19e67b..838114e 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused high bits may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 460c553..bf44909 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused high bits may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 54656d7..9552c1a 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused high bits may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index fdfafe5..5af0b4f 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused high bits may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 50ad1de..00e8069 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -208,7 +208,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-            *block <<= Self::BITS_PER_ELEM;
+            *block = block.checked_shl(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             *block |= at_zero;
 
             last
@@ -275,7 +275,7 @@ impl<T: EnumLike> EnumVec<T> {
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last = *block & Self::ELEMENT_MASK;
             let end_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
-            *block >>= Self::BITS_PER_ELEM;
+            *block = block.checked_shr(Self::BITS_PER_ELEM as u32).unwrap_or(0);
             // The unused high bits may contain garbage
             *block &= !(Self::ELEMENT_MASK << end_bit_offset);
             *block |= at_zero << end_bit_offset;
-- 
2.43.0


From 3f0453b1c04b7b3dda095568c6af5b5b21d0b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 06/19] fix: from_elem and resize used a quadratic amount of
 memory

The storage was grown by count_blocks blocks count_blocks times.
---
 enum_vec/src/smallvec_u32/mod.rs | 6 ++----
 enum_vec/src/vec_u128/mod.rs     | 6 ++----
 enum_vec/src/vec_u16/mod.rs      | 6 ++----
 enum_vec/src/vec_u32/mod.rs      | 6 ++----
 enum_vec/src/vec_u64/mod.rs      | 6 ++----
 enum_vec/src/vec_u8/mod.rs       | 6 ++----
 6 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 5acb84f..c320e43 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -516,10 +516,8 @@ other.clear();
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 838114e..226c047 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -514,10 +514,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index bf44909..2894ad4 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -514,10 +514,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9552c1a..104b8b8 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -514,10 +514,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index 5af0b4f..c14e9cd 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -514,10 +514,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 00e8069..913061b 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -514,10 +514,8 @@ impl<T: EnumLike> EnumVec<T> {
 
             // Now fill the itermediate blocks using memcpy, this is
             // the optimization
-            for _ in 0..count_blocks {
-                let storage_len = self.storage.len();
-                self.storage.resize(storage_len + count_blocks, block_value);
-            }
+            let storage_len = self.storage.len();
+            self.storage.resize(storage_len + count_blocks, block_value);
 
             unsafe {
                 self.set_len(old_len + count_blocks * Self::ELEMS_PER_BLOCK);
-- 
2.43.0


From 5879b68836edeb2586a50e7a989e2c32dff2894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 07/19] fix: types with more than 2^32 variants were truncated
 to 32 bits

vec_u64 and vec_u128 accept them, but BITS_PER_ELEM stopped at 32.
---
 enum_vec/src/smallvec_u32/mod.rs | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u128/mod.rs     | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u16/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u32/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u64/mod.rs      | 34 +++++++++++++++++++++++++++++++-
 enum_vec/src/vec_u8/mod.rs       | 34 +++++++++++++++++++++++++++++++-
 6 files changed, 198 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index c320e43..015b1e8 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -66,6 +66,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -81,7 +113,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 226c047..4d51eee 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 2894ad4..b25f332 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 104b8b8..b54f5ec 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index c14e9cd..ce8b34e 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         //+ Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 913061b..a3c55d1 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -65,6 +65,38 @@ impl<T: EnumLike> EnumVec<T> {
         + (T::NUM_VARIANTS > (1 << 29)) as usize
         + (T::NUM_VARIANTS > (1 << 30)) as usize
         + (T::NUM_VARIANTS > (1 << 31)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 32)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 33)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 34)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 35)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 36)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 37)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 38)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 39)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 40)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 41)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 42)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 43)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 44)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 45)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 46)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 47)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 48)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 49)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 50)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 51)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 52)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 53)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 54)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 55)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 56)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 57)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 58)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 59)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 60)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 61)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 62)) as usize
+        + (T::NUM_VARIANTS as u64 > (1 << 63)) as usize
         + Self::ERROR_TOO_MANY_VARIANTS
         + Self::ERROR_ZERO_SIZED;
 
@@ -80,7 +112,7 @@ impl<T: EnumLike> EnumVec<T> {
 
     const ELEMS_PER_BLOCK: usize = STORAGE_BLOCK_SIZE / Self::BITS_PER_ELEM;
     // While wrapping_shl is not const fn, we support at most 64 bits per element
-    const ELEMENT_MASK: StorageBlock = ((1u64 << Self::BITS_PER_ELEM) - 1) as StorageBlock;
+    const ELEMENT_MASK: StorageBlock = (!0u64 >> (64 - Self::BITS_PER_ELEM)) as StorageBlock;
     pub fn new() -> Self {
         Default::default()
     }
-- 
2.43.0


From 452ec39d8e39de0aec3fa50a6db683ffed55c57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 08/19] fix: arrays encoded their items through uninitialized
 values

This is undefined behaviour, and aborts for item types that have invalid
bit patterns. The items are Copy.
---
 enum_like/src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index 035954f..ec6812c 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -364,15 +364,12 @@ macro_rules! array_impls {
     } => {
 unsafe impl<$T0: EnumLike> EnumLike for [$T0; $N] {
     const NUM_VARIANTS: usize = <($($T,)+)>::NUM_VARIANTS;
-    fn to_discr(mut self) -> usize {
-        use std::mem;
-        unsafe {
+    fn to_discr(self) -> usize {
         (
             $(
-                mem::replace(&mut self[$N - 1 - $idx], mem::uninitialized()),
+                self[$N - 1 - $idx],
             )+
         ).to_discr()
-        }
     }
     fn from_discr(x: usize) -> Self {
         let t = <($($T,)+)>::from_discr(x);
-- 
2.43.0


From 10aa76bff9f2b079578acf062fcdfc97ffabdcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 09/19] fix: Values::nth overflowed on large arguments

---
 enum_like/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/enum_like/src/lib.rs b/enum_like/src/lib.rs
index ec6812c..e8dc8cc 100644
--- a/enum_like/src/lib.rs
+++ b/enum_like/src/lib.rs
@@ -627,7 +627,7 @@ impl<T: EnumLike> Iterator for Values<T> {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        if self.current + n < self.max {
+        if n < self.max - self.current {
             self.current += n;
 
             self.next()
-- 
2.43.0


From 4535987762bd49b960ee7910472f852bdaa36850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 10/19] fix: insert past the end silently appended

It now panics like Vec::insert.
---
 enum_vec/src/smallvec_u32/mod.rs | 2 ++
 enum_vec/src/vec_u128/mod.rs     | 2 ++
 enum_vec/src/vec_u16/mod.rs      | 2 ++
 enum_vec/src/vec_u32/mod.rs      | 2 ++
 enum_vec/src/vec_u64/mod.rs      | 2 ++
 enum_vec/src/vec_u8/mod.rs       | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 015b1e8..89d648e 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -238,6 +238,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 4d51eee..b5bd9d7 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -237,6 +237,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index b25f332..204d07c 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -237,6 +237,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index b54f5ec..f006eed 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -237,6 +237,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index ce8b34e..a6402fc 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -237,6 +237,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index a3c55d1..efe14cf 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -237,6 +237,8 @@ impl<T: EnumLike> EnumVec<T> {
     /// assert_eq!(ev.len(), 127 + 4);
     /// ```
     pub fn insert(&mut self, index: usize, element: T) {
+        assert!(index <= self.len(), "`index` out of bounds");
+
         let shift_storage = |block: &mut StorageBlock, at_zero: StorageBlock| {
             let last_bit_offset = (Self::ELEMS_PER_BLOCK - 1) * Self::BITS_PER_ELEM;
             let last = *block >> last_bit_offset & Self::ELEMENT_MASK;
-- 
2.43.0


From 446b5d77044c5f3b0bee0126219b4b20b160f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 11/19] fix: extend exposed elements that never arrived

The length was raised by the size hint before taking the items, so when
the iterator panicked or was shorter than its hint the vector kept
elements that were never stored.
---
 enum_vec/src/smallvec_u32/mod.rs | 11 +++--------
 enum_vec/src/vec_u128/mod.rs     | 11 +++--------
 enum_vec/src/vec_u16/mod.rs      | 11 +++--------
 enum_vec/src/vec_u32/mod.rs      | 11 +++--------
 enum_vec/src/vec_u64/mod.rs      | 11 +++--------
 enum_vec/src/vec_u8/mod.rs       | 11 +++--------
 6 files changed, 18 insertions(+), 48 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 89d648e..7a107f2 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -943,17 +943,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow as the elements arrive, because the
+        // iterator may panic or be shorter than its size hint
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index b5bd9d7..be4bfee 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -941,17 +941,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow as the elements arrive, because the
+        // iterator may panic or be shorter than its size hint
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 204d07c..8ea6f7c 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -941,17 +941,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow as the elements arrive, because the
+        // iterator may panic or be shorter than its size hint
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index f006eed..e144f57 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -941,17 +941,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow as the elements arrive, because the
+        // iterator may panic or be shorter than its size hint
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index a6402fc..b1d65b9 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -941,17 +941,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow as the elements arrive, because the
+        // iterator may panic or be shorter than its size hint
         for elem in iter {
             self.push(elem);
         }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index efe14cf..b841432 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -941,17 +941,12 @@ impl<T: EnumLike> Default for EnumVec<T> {
 
 impl<T: EnumLike> Extend<T> for EnumVec<T> {
     fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
-        let mut iter = iter.into_iter();
+        let iter = iter.into_iter();
         let iter_len = iter.size_hint().0;
-        let self_len = self.len();
         // We could resize and use set_raw_unchecked, for speed
         self.reserve(iter_len);
-        self.num_elements += iter_len;
-        for i in 0..iter_len {
-            self.set(self_len + i, iter.next().unwrap());
-        }
-
-        // Push the remaining elements, if any
+        // The length must only grow as the elements arrive, because the
+        // iterator may panic or be shorter than its size hint
         for elem in iter {
             self.push(elem);
         }
-- 
2.43.0


From ad70b0c254f6536d5bc3be67657104c366a5bfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 12/19] fix: derive for data enums with empty variants such as
 A() or A {}

The macro panicked at compile time instead of treating them as unit variants.
---
 enum_like_derive/src/lib.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/enum_like_derive/src/lib.rs b/enum_like_derive/src/lib.rs
index 4fe8443..fa0096c 100644
--- a/enum_like_derive/src/lib.rs
+++ b/enum_like_derive/src/lib.rs
@@ -126,8 +126,9 @@ impl MatchArm {
         let offset = self.offset;
         let name = &self.name;
         if self.data_fields == 0 {
+            // "{}" is valid for A, A() and A {}
             quote!(
-                #parent::#name => #offset,
+                #parent::#name {} => #offset,
             )
         } else {
             let field_names = &self.field_names;
@@ -159,7 +160,7 @@ impl MatchArm {
         let name = &self.name;
         if self.data_fields == 0 {
             quote!(
-                #offset => #parent::#name,
+                #offset => #parent::#name {},
             )
         } else {
             let range_high = &self.range_high;
@@ -206,14 +207,12 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
     // First push the data-less variants
     // enum { A, B, C }
     // This is important because we need the offset, otherwise everything breaks
+    // A() and A {} are also data-less
     for v in variants {
-        match v.fields {
-            Fields::Unit => {
-                let name = v.ident;
-                let idx = x.len() as usize;
-                x.push(MatchArm::unit(name, idx));
-            }
-            _ => {}
+        if v.fields.iter().next().is_none() {
+            let name = v.ident;
+            let idx = x.len() as usize;
+            x.push(MatchArm::unit(name, idx));
         }
     }
 
@@ -235,10 +234,11 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
     // }
     for v in variants {
         match v.fields {
+            // We already handled these
+            ref f if f.iter().next().is_none() => {}
             Fields::Unnamed(ref fu) => {
                 // Ok(x): 1 element
                 // A(0, 1, 2): 3 elements
-                assert!(fu.unnamed.len() > 0, "This is a unit field, wtf");
                 let m = MatchArm::from_fields(
                     v.ident,
                     &fu.unnamed,
@@ -248,7 +248,6 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
                 x.push(m);
             }
             Fields::Named(ref fu) => {
-                assert!(fu.named.len() > 0, "This is a named unit field, wtf");
                 let m = MatchArm::from_fields(
                     v.ident,
                     &fu.named,
@@ -257,7 +256,7 @@ fn all_variants_of(variants: &Punctuated<Variant, Comma>) -> Vec<MatchArm> {
                 );
                 x.push(m);
             }
-            Fields::Unit => {} // We already handled these
+            Fields::Unit => {}
         }
     }
 
-- 
2.43.0


From 3ec22f665a8b0566c27766bfc8f1f50ac41cb290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:13 +0000
Subject: [PATCH 13/19] fix: EnumSet::from_bit_set accepted invalid
 discriminants

Safe code could make the set decode numbers that encode no value, which
implementations of the unsafe EnumLike trait may rely on never happening.
---
 enum_set/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index d921812..457f6eb 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -40,7 +40,14 @@ impl<E: EnumLike> EnumSet<E> {
     }
 
     /// Constructs an `EnumSet` from a `BitSet`.
+    ///
+    /// Panics if the `BitSet` contains a number which is not the discriminant
+    /// of any value of `E`.
     pub fn from_bit_set(inner: BitSet) -> Self {
+        assert!(
+            inner.iter().all(|x| x < E::NUM_VARIANTS),
+            "invalid discriminant in `BitSet`"
+        );
         Self {
             inner,
             _phantom: PhantomData,
-- 
2.43.0


From e5c5fb7cafe5de3b42478d98fd3ee6d88791c159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 14/19] fix: set iterators reported an upper bound below the
 elements left

bit-set forgets the elements left in the current block, so a set of three
elements claimed to have at most one.
---
 enum_set/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index 457f6eb..a2fff91 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -231,7 +231,9 @@ impl<E: EnumLike, I: Iterator<Item=usize>> Iterator for WrapIter<E, I> {
         self.inner.next().map(|x| E::from_discr(x))
     }
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.inner.size_hint()
+        // The upper bound of the bit-set iterators is too low: it only counts
+        // one element for the current block
+        (self.inner.size_hint().0, Some(E::NUM_VARIANTS))
     }
 }
 
-- 
2.43.0


From 84341a30d8aeff710905c3609887539e55f60a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 15/19] fix: derive's variable names could be captured by the
 user's items

A constant named x made every data variant of a derived enum decode to a
panic, and one named value did not compile.
---
 enum_like_derive/src/lib.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/enum_like_derive/src/lib.rs b/enum_like_derive/src/lib.rs
index fa0096c..15f6eb9 100644
--- a/enum_like_derive/src/lib.rs
+++ b/enum_like_derive/src/lib.rs
@@ -137,7 +137,7 @@ impl MatchArm {
             let offset = &quote!(#offset + #range_high);
             let xfield_names: Vec<_> = field_names
                 .iter()
-                .map(|f| Ident::from(format!("x{}", f)))
+                .map(|f| Ident::from(format!("__{}", f)))
                 .collect();
             let to_discr_0 = to_discr_body(
                 field_names,
@@ -167,11 +167,11 @@ impl MatchArm {
             let field_names = &self.field_names;
             let type_names = &self.type_names;
             let range_high_next = self.print_next_range_high();
-            let value = &quote!(x - #offset - (#range_high));
+            let value = &quote!(__value - #offset - (#range_high));
             let from_discr_0 = from_discr_body(field_names, type_names, value);
             quote!(
-                x if x >= (#offset + #range_high)
-                    && x < (#offset + #range_high_next) =>
+                __value if __value >= (#offset + #range_high)
+                    && __value < (#offset + #range_high_next) =>
                 #parent::#name {
                     #from_discr_0
                 },
@@ -288,8 +288,8 @@ fn generate_rusty_enum_code(
         generics,
         quote! {
             const NUM_VARIANTS: usize = #enum_count;
-            fn from_discr(value: usize) -> Self {
-                match value {
+            fn from_discr(__value: usize) -> Self {
+                match __value {
                     #(
                         #match_arm_from
                     )*
@@ -329,8 +329,8 @@ fn generate_c_enum_code(
         generics,
         quote! {
             const NUM_VARIANTS: usize = #enum_count;
-            fn from_discr(value: usize) -> Self {
-                match value {
+            fn from_discr(__value: usize) -> Self {
+                match __value {
                     #(
                         #counter_a => #repeat_name_a::#variant_a,
                     )*
@@ -380,7 +380,7 @@ fn generate_unit_struct_impl(
         generics,
         quote! {
             const NUM_VARIANTS: usize = 1usize;
-            fn from_discr(_value: usize) -> Self {
+            fn from_discr(_: usize) -> Self {
                 #name #hack
             }
             fn to_discr(self) -> usize {
@@ -396,7 +396,7 @@ fn generate_struct_many_elem(
     field_names: &[Tokens],
     type_names: &[Tokens],
 ) -> Tokens {
-    let value = &quote!(value);
+    let value = &quote!(__value);
     let from_discr_0 = from_discr_body(field_names, type_names, value);
     let offset = &quote!(0usize);
     let to_discr_0 = to_discr_body(field_names, type_names, offset, None);
@@ -407,7 +407,7 @@ fn generate_struct_many_elem(
         generics,
         quote! {
             const NUM_VARIANTS: usize = #total_num_variants;
-            fn from_discr(value: usize) -> Self {
+            fn from_discr(__value: usize) -> Self {
                 Self {
                     #from_discr_0
                 }
-- 
2.43.0


From ced13daceb0fce899ac00cae916849bd92f8bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 16/19] fix: EnumSet took types of more values than usize
 counts

Different values of such a type share a discriminant, so that a set
confused them. Only some of the ways to use such a type were refused.
---
 enum_set/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/enum_set/src/lib.rs b/enum_set/src/lib.rs
index a2fff91..9e3b728 100644
--- a/enum_set/src/lib.rs
+++ b/enum_set/src/lib.rs
@@ -159,6 +159,9 @@ impl<E: EnumLike> EnumSet<E> {
 
     /// Returns `true` if the value was not already present in the set
     pub fn insert(&mut self, value: E) -> bool {
+        // Refuse (at compile time) types with more values than `usize` can
+        // tell apart: some of them would share their discriminants
+        let _max = E::NUM_VARIANTS;
         let d = value.to_discr();
         self.inner.insert(d)
     }
-- 
2.43.0


From ba24e14ed9d9700497a221d37313bc8052d40ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:50 +0000
Subject: [PATCH 17/19] fix: one block too few for close to usize::MAX elements

The rounding up saturated: on 32-bit targets, where so many elements do
fit in memory, the elements of the last block were lost.
---
 enum_vec/src/smallvec_u32/mod.rs | 3 ++-
 enum_vec/src/vec_u128/mod.rs     | 3 ++-
 enum_vec/src/vec_u16/mod.rs      | 3 ++-
 enum_vec/src/vec_u32/mod.rs      | 3 ++-
 enum_vec/src/vec_u64/mod.rs      | 3 ++-
 enum_vec/src/vec_u8/mod.rs       | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 7a107f2..f6deff4 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -640,7 +640,8 @@ other.clear();
     }
 
     fn blocks_for_elements(n: usize) -> usize {
-        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK
+        // Rounded up; the sum n + ELEMS_PER_BLOCK - 1 could overflow
+        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
     }
 
     pub fn iter<'a>(&'a self) -> EnumVecIter<'a, T> {
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index be4bfee..71e3b85 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -638,7 +638,8 @@ impl<T: EnumLike> EnumVec<T> {
     }
 
     fn blocks_for_elements(n: usize) -> usize {
-        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK
+        // Rounded up; the sum n + ELEMS_PER_BLOCK - 1 could overflow
+        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
     }
 
     pub fn iter<'a>(&'a self) -> EnumVecIter<'a, T> {
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 8ea6f7c..7855f2d 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -638,7 +638,8 @@ impl<T: EnumLike> EnumVec<T> {
     }
 
     fn blocks_for_elements(n: usize) -> usize {
-        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK
+        // Rounded up; the sum n + ELEMS_PER_BLOCK - 1 could overflow
+        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
     }
 
     pub fn iter<'a>(&'a self) -> EnumVecIter<'a, T> {
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index e144f57..9db816e 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -638,7 +638,8 @@ impl<T: EnumLike> EnumVec<T> {
     }
 
     fn blocks_for_elements(n: usize) -> usize {
-        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK
+        // Rounded up; the sum n + ELEMS_PER_BLOCK - 1 could overflow
+        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
     }
 
     pub fn iter<'a>(&'a self) -> EnumVecIter<'a, T> {
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b1d65b9..b78bc4d 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -638,7 +638,8 @@ impl<T: EnumLike> EnumVec<T> {
     }
 
     fn blocks_for_elements(n: usize) -> usize {
-        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK
+        // Rounded up; the sum n + ELEMS_PER_BLOCK - 1 could overflow
+        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
     }
 
     pub fn iter<'a>(&'a self) -> EnumVecIter<'a, T> {
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index b841432..65bfaad 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -638,7 +638,8 @@ impl<T: EnumLike> EnumVec<T> {
     }
 
     fn blocks_for_elements(n: usize) -> usize {
-        n.saturating_add(Self::ELEMS_PER_BLOCK - 1) / Self::ELEMS_PER_BLOCK
+        // Rounded up; the sum n + ELEMS_PER_BLOCK - 1 could overflow
+        n / Self::ELEMS_PER_BLOCK + (n % Self::ELEMS_PER_BLOCK != 0) as usize
     }
 
     pub fn iter<'a>(&'a self) -> EnumVecIter<'a, T> {
-- 
2.43.0


From 98f90371e3776e616cf00ca77156748bbe948500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 18/19] fix: insert and remove in the block before usize::MAX

The end of that block overflows usize: on 32-bit targets, where so many
elements do fit in memory, the wrong elements were moved.
---
 enum_vec/src/smallvec_u32/mod.rs | 4 ++--
 enum_vec/src/vec_u128/mod.rs     | 4 ++--
 enum_vec/src/vec_u16/mod.rs      | 4 ++--
 enum_vec/src/vec_u32/mod.rs      | 4 ++--
 enum_vec/src/vec_u64/mod.rs      | 4 ++--
 enum_vec/src/vec_u8/mod.rs       | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index f6deff4..6d2699f 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -258,7 +258,7 @@ impl<T: EnumLike> EnumVec<T> {
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
-            let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;
+            let slow_limit = (index - slow_insert).saturating_add(Self::ELEMS_PER_BLOCK);
             let slow_limit = cmp::min(slow_limit, self_len);
             while i < slow_limit {
                 unsafe {
@@ -320,7 +320,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let mut i = index;
         let length = self.len() - 1;
-        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;
+        let block_limit = (1 + Self::block_index(i).0).saturating_mul(Self::ELEMS_PER_BLOCK);
         let slow_limit = cmp::min(length, block_limit);
         while i < slow_limit {
             unsafe { // safe: i + 1 < self.len()
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 71e3b85..3394490 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -257,7 +257,7 @@ impl<T: EnumLike> EnumVec<T> {
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
-            let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;
+            let slow_limit = (index - slow_insert).saturating_add(Self::ELEMS_PER_BLOCK);
             let slow_limit = cmp::min(slow_limit, self_len);
             while i < slow_limit {
                 unsafe {
@@ -319,7 +319,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let mut i = index;
         let length = self.len() - 1;
-        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;
+        let block_limit = (1 + Self::block_index(i).0).saturating_mul(Self::ELEMS_PER_BLOCK);
         let slow_limit = cmp::min(length, block_limit);
         while i < slow_limit {
             unsafe { // safe: i + 1 < self.len()
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 7855f2d..28b9554 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -257,7 +257,7 @@ impl<T: EnumLike> EnumVec<T> {
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
-            let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;
+            let slow_limit = (index - slow_insert).saturating_add(Self::ELEMS_PER_BLOCK);
             let slow_limit = cmp::min(slow_limit, self_len);
             while i < slow_limit {
                 unsafe {
@@ -319,7 +319,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let mut i = index;
         let length = self.len() - 1;
-        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;
+        let block_limit = (1 + Self::block_index(i).0).saturating_mul(Self::ELEMS_PER_BLOCK);
         let slow_limit = cmp::min(length, block_limit);
         while i < slow_limit {
             unsafe { // safe: i + 1 < self.len()
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 9db816e..3eecb8a 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -257,7 +257,7 @@ impl<T: EnumLike> EnumVec<T> {
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
-            let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;
+            let slow_limit = (index - slow_insert).saturating_add(Self::ELEMS_PER_BLOCK);
             let slow_limit = cmp::min(slow_limit, self_len);
             while i < slow_limit {
                 unsafe {
@@ -319,7 +319,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let mut i = index;
         let length = self.len() - 1;
-        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;
+        let block_limit = (1 + Self::block_index(i).0).saturating_mul(Self::ELEMS_PER_BLOCK);
         let slow_limit = cmp::min(length, block_limit);
         while i < slow_limit {
             unsafe { // safe: i + 1 < self.len()
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b78bc4d..b5d5f72 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -257,7 +257,7 @@ impl<T: EnumLike> EnumVec<T> {
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
-            let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;
+            let slow_limit = (index - slow_insert).saturating_add(Self::ELEMS_PER_BLOCK);
             let slow_limit = cmp::min(slow_limit, self_len);
             while i < slow_limit {
                 unsafe {
@@ -319,7 +319,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let mut i = index;
         let length = self.len() - 1;
-        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;
+        let block_limit = (1 + Self::block_index(i).0).saturating_mul(Self::ELEMS_PER_BLOCK);
         let slow_limit = cmp::min(length, block_limit);
         while i < slow_limit {
             unsafe { // safe: i + 1 < self.len()
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index 65bfaad..d7b12de 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -257,7 +257,7 @@ impl<T: EnumLike> EnumVec<T> {
         let mut i = index;
         // Skip this part if index % Self::ELEMS_PER_BLOCK == 0
         if slow_insert > 0 {
-            let slow_limit = index - slow_insert + Self::ELEMS_PER_BLOCK;
+            let slow_limit = (index - slow_insert).saturating_add(Self::ELEMS_PER_BLOCK);
             let slow_limit = cmp::min(slow_limit, self_len);
             while i < slow_limit {
                 unsafe {
@@ -319,7 +319,7 @@ impl<T: EnumLike> EnumVec<T> {
 
         let mut i = index;
         let length = self.len() - 1;
-        let block_limit = (1 + Self::block_index(i).0) * Self::ELEMS_PER_BLOCK;
+        let block_limit = (1 + Self::block_index(i).0).saturating_mul(Self::ELEMS_PER_BLOCK);
         let slow_limit = cmp::min(length, block_limit);
         while i < slow_limit {
             unsafe { // safe: i + 1 < self.len()
-- 
2.43.0


From 25c89e38929b469b7f1e4473203643ed7dc0c796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:09 +0000
Subject: [PATCH 19/19] fix: append wrapped the length around

of block-aligned vectors that have more than usize::MAX elements
together, which fit in memory on 32-bit targets.
---
 enum_vec/src/smallvec_u32/mod.rs | 5 +++--
 enum_vec/src/vec_u128/mod.rs     | 5 +++--
 enum_vec/src/vec_u16/mod.rs      | 5 +++--
 enum_vec/src/vec_u32/mod.rs      | 5 +++--
 enum_vec/src/vec_u64/mod.rs      | 5 +++--
 enum_vec/src/vec_u8/mod.rs       | 5 +++--
 6 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/enum_vec/src/smallvec_u32/mod.rs b/enum_vec/src/smallvec_u32/mod.rs
index 6d2699f..c4ff7b0 100644
--- a/enum_vec/src/smallvec_u32/mod.rs
+++ b/enum_vec/src/smallvec_u32/mod.rs
@@ -425,6 +425,7 @@ impl<T: EnumLike> EnumVec<T> {
     pub fn append(&mut self, other: &mut Self) {
         let other_len = other.len();
         let self_len = self.len();
+        let new_len = self_len.checked_add(other_len).expect("capacity overflow");
         if self.len() % Self::ELEMS_PER_BLOCK == 0 {
             // If the last block is full, we can just append the raw
             // representation
@@ -434,12 +435,12 @@ impl<T: EnumLike> EnumVec<T> {
             other.fix_storage();
             self.storage.extend_from_slice(&other.storage);
 other.clear();
-            self.num_elements += other_len;
+            self.num_elements = new_len;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
             unsafe { // We just reserved space
-                self.set_len(self_len + other_len);
+                self.set_len(new_len);
                 for i in 0..other_len {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
diff --git a/enum_vec/src/vec_u128/mod.rs b/enum_vec/src/vec_u128/mod.rs
index 3394490..37263db 100644
--- a/enum_vec/src/vec_u128/mod.rs
+++ b/enum_vec/src/vec_u128/mod.rs
@@ -424,6 +424,7 @@ impl<T: EnumLike> EnumVec<T> {
     pub fn append(&mut self, other: &mut Self) {
         let other_len = other.len();
         let self_len = self.len();
+        let new_len = self_len.checked_add(other_len).expect("capacity overflow");
         if self.len() % Self::ELEMS_PER_BLOCK == 0 {
             // If the last block is full, we can just append the raw
             // representation
@@ -432,12 +433,12 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
-            self.num_elements += other_len;
+            self.num_elements = new_len;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
             unsafe { // We just reserved space
-                self.set_len(self_len + other_len);
+                self.set_len(new_len);
                 for i in 0..other_len {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
diff --git a/enum_vec/src/vec_u16/mod.rs b/enum_vec/src/vec_u16/mod.rs
index 28b9554..e3a9a2f 100644
--- a/enum_vec/src/vec_u16/mod.rs
+++ b/enum_vec/src/vec_u16/mod.rs
@@ -424,6 +424,7 @@ impl<T: EnumLike> EnumVec<T> {
     pub fn append(&mut self, other: &mut Self) {
         let other_len = other.len();
         let self_len = self.len();
+        let new_len = self_len.checked_add(other_len).expect("capacity overflow");
         if self.len() % Self::ELEMS_PER_BLOCK == 0 {
             // If the last block is full, we can just append the raw
             // representation
@@ -432,12 +433,12 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
-            self.num_elements += other_len;
+            self.num_elements = new_len;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
             unsafe { // We just reserved space
-                self.set_len(self_len + other_len);
+                self.set_len(new_len);
                 for i in 0..other_len {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
diff --git a/enum_vec/src/vec_u32/mod.rs b/enum_vec/src/vec_u32/mod.rs
index 3eecb8a..45e0cfd 100644
--- a/enum_vec/src/vec_u32/mod.rs
+++ b/enum_vec/src/vec_u32/mod.rs
@@ -424,6 +424,7 @@ impl<T: EnumLike> EnumVec<T> {
     pub fn append(&mut self, other: &mut Self) {
         let other_len = other.len();
         let self_len = self.len();
+        let new_len = self_len.checked_add(other_len).expect("capacity overflow");
         if self.len() % Self::ELEMS_PER_BLOCK == 0 {
             // If the last block is full, we can just append the raw
             // representation
@@ -432,12 +433,12 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
-            self.num_elements += other_len;
+            self.num_elements = new_len;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
             unsafe { // We just reserved space
-                self.set_len(self_len + other_len);
+                self.set_len(new_len);
                 for i in 0..other_len {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
diff --git a/enum_vec/src/vec_u64/mod.rs b/enum_vec/src/vec_u64/mod.rs
index b5d5f72..f759dd4 100644
--- a/enum_vec/src/vec_u64/mod.rs
+++ b/enum_vec/src/vec_u64/mod.rs
@@ -424,6 +424,7 @@ impl<T: EnumLike> EnumVec<T> {
     pub fn append(&mut self, other: &mut Self) {
         let other_len = other.len();
         let self_len = self.len();
+        let new_len = self_len.checked_add(other_len).expect("capacity overflow");
         if self.len() % Self::ELEMS_PER_BLOCK == 0 {
             // If the last block is full, we can just append the raw
             // representation
@@ -432,12 +433,12 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
-            self.num_elements += other_len;
+            self.num_elements = new_len;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
             unsafe { // We just reserved space
-                self.set_len(self_len + other_len);
+                self.set_len(new_len);
                 for i in 0..other_len {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
diff --git a/enum_vec/src/vec_u8/mod.rs b/enum_vec/src/vec_u8/mod.rs
index d7b12de..e49ba76 100644
--- a/enum_vec/src/vec_u8/mod.rs
+++ b/enum_vec/src/vec_u8/mod.rs
@@ -424,6 +424,7 @@ impl<T: EnumLike> EnumVec<T> {
     pub fn append(&mut self, other: &mut Self) {
         let other_len = other.len();
         let self_len = self.len();
+        let new_len = self_len.checked_add(other_len).expect("capacity overflow");
         if self.len() % Self::ELEMS_PER_BLOCK == 0 {
             // If the last block is full, we can just append the raw
             // representation
@@ -432,12 +433,12 @@ impl<T: EnumLike> EnumVec<T> {
             self.fix_storage();
             other.fix_storage();
             self.storage.append(&mut other.storage);
-            self.num_elements += other_len;
+            self.num_elements = new_len;
         } else {
             // Otherwise, just push every element
             self.reserve(other_len);
             unsafe { // We just reserved space
-                self.set_len(self_len + other_len);
+                self.set_len(new_len);
                 for i in 0..other_len {
                     self.set_raw_unchecked(self_len + i, other.get_raw_unchecked(i));
                 }
-- 
2.43.0


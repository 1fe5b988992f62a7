From 94dc5053b19e1904547e84d62ae5cf284259227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 01/13] fix: report an out-of-range cell offset of u32::MAX
 instead of panicking

Every caller of cell_range_from_data_offset passes an offset read from the
hive. An offset of 0xffffffff in the base block or in a list item is just
another offset beyond the end of the data and yields InvalidHeaderSize now.
---
 src/hive.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index a6db2db..c2341ba 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -113,9 +113,6 @@ where
     }
 
     pub(crate) fn cell_range_from_data_offset(&self, data_offset: u32) -> Result<Range<usize>> {
-        // Only valid data offsets are accepted here.
-        assert!(data_offset != u32::MAX);
-
         // Accept only u32 data offsets, but convert them into usize right away for
         // slice range operations and fearless calculations.
         let data_offset = data_offset as usize;
-- 
2.43.0


From 685dd09648730d74d8c4300403250b95636438b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 02/13] fix: reject cells with a size of 0

Subtracting the cell header size from 0 underflows: it panics with overflow
checks and later panics on an invalid slice range without them.
---
 src/hive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index c2341ba..3543854 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -132,7 +132,8 @@ where
         let cell_size = header.size.get();
 
         // A cell with size > 0 is unallocated and shouldn't be processed any further by us.
-        if cell_size > 0 {
+        // The same goes for a cell with size 0, which cannot even hold its own header.
+        if cell_size >= 0 {
             return Err(NtHiveError::UnallocatedCell {
                 offset: self.offset_of_data_offset(data_offset),
                 size: cell_size,
-- 
2.43.0


From 8b6d5598b443e9cd258218b981d519626007d662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 03/13] fix: report a wrong hive signature instead of panicking

The signature is the very first field, hence its offset is 0.
---
 src/hive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index 3543854..f231846 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -174,7 +174,7 @@ where
         let field_address = field as *const T as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
-        assert!(field_address > base_address);
+        assert!(field_address >= base_address);
         field_address - base_address
     }
 
-- 
2.43.0


From feeceafd801a810a11a1f276aebe162fbce4fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 04/13] fix: report the offset of DWORD/QWORD data of a wrong
 size

offset_of_field was called with the address of the local slice reference and
not of the slice itself. The reported offset was therefore a meaningless
difference of a stack and a buffer address. If the stack happened to lie below
the buffer, it even failed the assertion in offset_of_field.
---
 src/hive.rs      | 4 ++--
 src/key_value.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hive.rs b/src/hive.rs
index f231846..c2de608 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -170,8 +170,8 @@ where
     /// Note that this function primarily exists to provide absolute hive file offsets when reporting errors.
     /// It cannot be used to index into the hive bytes, because they are initially split into `base_block`
     /// and `data`.
-    pub(crate) fn offset_of_field<T>(&self, field: &T) -> usize {
-        let field_address = field as *const T as usize;
+    pub(crate) fn offset_of_field<T: ?Sized>(&self, field: &T) -> usize {
+        let field_address = field as *const T as *const u8 as usize;
         let base_address = Ref::bytes(&self.base_block).as_ptr() as usize;
 
         assert!(field_address >= base_address);
diff --git a/src/key_value.rs b/src/key_value.rs
index 1cde3b9..d54fb10 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -267,7 +267,7 @@ where
             // DWORD data must be exactly 4 bytes long.
             if data.len() != mem::size_of::<u32>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u32>(),
                     actual: data.len(),
                 });
@@ -329,7 +329,7 @@ where
             // QWORD data must be exactly 8 bytes long.
             if data.len() != mem::size_of::<u64>() {
                 return Err(NtHiveError::InvalidDataSize {
-                    offset: self.hive.offset_of_field(&data),
+                    offset: self.hive.offset_of_field(data),
                     expected: mem::size_of::<u64>(),
                     actual: data.len(),
                 });
-- 
2.43.0


From 5ab60386294fdb7b4ac778c560ef836447ba8688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 05/13] fix: exhaust the iterators when nth() is called with a
 huge index

If the multiplication or addition overflowed, nth() returned None without
advancing, so that the next call to next() returned an item again.
---
 src/big_data.rs        | 22 ++++++++--------------
 src/helpers.rs         |  9 +++++++++
 src/index_root.rs      |  6 ++----
 src/key_values_list.rs | 22 +++++++++++-----------
 src/leaf.rs            | 15 ++++-----------
 5 files changed, 34 insertions(+), 40 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index a015deb..55fed6b 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -12,7 +12,7 @@ use zerocopy::{
 };
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 
 /// Number of bytes that a single Big Data segment can hold.
@@ -168,9 +168,7 @@ impl Iterator for BigDataListItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<BigDataListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(&mut self.items_range, n, mem::size_of::<BigDataListItem>());
         self.next()
     }
 
@@ -266,17 +264,13 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(BIG_DATA_SEGMENT_SIZE)?;
+        let bytes_to_skip = n.saturating_mul(BIG_DATA_SEGMENT_SIZE);
         self.bytes_left = self.bytes_left.saturating_sub(bytes_to_skip);
-        if self.bytes_left == 0 {
-            return None;
-        }
-
-        // This calculation is safe considering that we have checked the
-        // multiplication and subtraction above.
-        self.big_data_list_item_ranges.items_range.start += n * mem::size_of::<BigDataListItem>();
-
+        skip_items(
+            &mut self.big_data_list_item_ranges.items_range,
+            n,
+            mem::size_of::<BigDataListItem>(),
+        );
         self.next()
     }
 
diff --git a/src/helpers.rs b/src/helpers.rs
index 731f541..18b6003 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,6 +1,7 @@
 // Copyright 2019-2021 Colin Finck <colin@reactos.org>
 // SPDX-License-Identifier: GPL-2.0-or-later
 
+use core::cmp;
 use core::ops::Range;
 
 macro_rules! iter_try {
@@ -30,6 +31,14 @@ pub(crate) fn byte_subrange(range: &Range<usize>, byte_count: usize) -> Option<R
     Some(range.start..subrange_end)
 }
 
+/// Advance the start of the given `Range<usize>` by `count` items of `item_size` bytes each.
+///
+/// `count` is arbitrary. If fewer items are left, the resulting range is empty.
+pub(crate) fn skip_items(range: &mut Range<usize>, count: usize, item_size: usize) {
+    let bytes_to_skip = count.saturating_mul(item_size);
+    range.start = cmp::min(range.start.saturating_add(bytes_to_skip), range.end);
+}
+
 #[cfg(test)]
 pub mod tests {
     use std::fs::File;
diff --git a/src/index_root.rs b/src/index_root.rs
index c93682c..b2061d0 100644
--- a/src/index_root.rs
+++ b/src/index_root.rs
@@ -12,7 +12,7 @@ use zerocopy::{
 };
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 use crate::key_node::{KeyNode, KeyNodeMut};
 use crate::leaf::LeafItemRanges;
@@ -96,9 +96,7 @@ impl Iterator for IndexRootItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<IndexRootItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(&mut self.items_range, n, mem::size_of::<IndexRootItem>());
         self.next()
     }
 
diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index 0db5d85..b0ff0c4 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -9,7 +9,7 @@ use zerocopy::byteorder::LittleEndian;
 use zerocopy::{FromBytes, Immutable, IntoBytes, KnownLayout, Ref, SplitByteSlice, Unaligned, U32};
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 use crate::key_value::KeyValue;
 
@@ -97,9 +97,11 @@ impl Iterator for KeyValuesListItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(
+            &mut self.items_range,
+            n,
+            mem::size_of::<KeyValuesListItem>(),
+        );
         self.next()
     }
 
@@ -171,13 +173,11 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(mem::size_of::<KeyValuesListItem>())?;
-        self.key_values_list_item_ranges.items_range.start = self
-            .key_values_list_item_ranges
-            .items_range
-            .start
-            .checked_add(bytes_to_skip)?;
+        skip_items(
+            &mut self.key_values_list_item_ranges.items_range,
+            n,
+            mem::size_of::<KeyValuesListItem>(),
+        );
         self.next()
     }
 
diff --git a/src/leaf.rs b/src/leaf.rs
index b347910..8824cfe 100644
--- a/src/leaf.rs
+++ b/src/leaf.rs
@@ -12,7 +12,7 @@ use zerocopy::{
 };
 
 use crate::error::{NtHiveError, Result};
-use crate::helpers::byte_subrange;
+use crate::helpers::{byte_subrange, skip_items};
 use crate::hive::Hive;
 use crate::index_root::IndexRootItemRange;
 use crate::key_node::{KeyNode, KeyNodeMut};
@@ -204,9 +204,7 @@ impl Iterator for LeafItemRanges {
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_type.item_size())?;
-        self.items_range.start = self.items_range.start.checked_add(bytes_to_skip)?;
+        skip_items(&mut self.items_range, n, self.leaf_type.item_size());
         self.next()
     }
 
@@ -286,13 +284,8 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        // `n` is arbitrary and usize, so we may hit boundaries here. Check that!
-        let bytes_to_skip = n.checked_mul(self.leaf_item_ranges.leaf_type.item_size())?;
-        self.leaf_item_ranges.items_range.start = self
-            .leaf_item_ranges
-            .items_range
-            .start
-            .checked_add(bytes_to_skip)?;
+        let item_size = self.leaf_item_ranges.leaf_type.item_size();
+        skip_items(&mut self.leaf_item_ranges.items_range, n, item_size);
         self.next()
     }
 
-- 
2.43.0


From 3dc886be9bad5362cb41044fc29b3428b6f19516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 06/13] fix: do not count surplus segments in BigDataSlices

A Big Data segment list may have more segments than the data size calls for.
next() ignores them, but size_hint(), len(), count(), and last() did not.
---
 src/big_data.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/big_data.rs b/src/big_data.rs
index 55fed6b..6cf2147 100644
--- a/src/big_data.rs
+++ b/src/big_data.rs
@@ -251,7 +251,8 @@ where
     }
 
     fn count(self) -> usize {
-        self.big_data_list_item_ranges.count()
+        let (size, _) = self.size_hint();
+        size
     }
 
     fn last(mut self) -> Option<Self::Item> {
@@ -275,7 +276,10 @@ where
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        self.big_data_list_item_ranges.size_hint()
+        // The segment list may contain more segments than the data needs, so only count
+        // the ones that are going to be returned.
+        let size = self.bytes_left.div_ceil(BIG_DATA_SEGMENT_SIZE);
+        (size, Some(size))
     }
 }
 
-- 
2.43.0


From 9ba4c547aa250ff2317e52aaf68d24f5e12756bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 07/13] fix: read large values of hives that predate Big Data

Big Data structures were introduced with hive version 1.4. Version 1.3 hives,
which pass our validation, store data of more than 16344 bytes in one cell.
---
 src/hive.rs      | 10 ++++++++++
 src/key_value.rs |  2 +-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index c2de608..ea3c769 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -204,6 +204,16 @@ where
         KeyNode::from_cell_range(self, cell_range)
     }
 
+    /// Returns whether data that doesn't fit into [`BIG_DATA_SEGMENT_SIZE`] bytes is stored in
+    /// Big Data structures in this hive.
+    ///
+    /// Hives of previous versions store data of any size in a single cell.
+    ///
+    /// [`BIG_DATA_SEGMENT_SIZE`]: crate::big_data::BIG_DATA_SEGMENT_SIZE
+    pub(crate) fn supports_big_data(&self) -> bool {
+        self.minor_version() >= HiveMinorVersion::WindowsXPBeta as u32
+    }
+
     /// Performs basic validations on the header of this hive.
     ///
     /// If you read the hive via [`Hive::new`], these validations have already been performed.
diff --git a/src/key_value.rs b/src/key_value.rs
index d54fb10..46a98e8 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -167,7 +167,7 @@ where
             let data_end = data_start + data_size;
 
             Ok(KeyValueData::Small(&self.hive.data[data_start..data_end]))
-        } else if data_size <= BIG_DATA_SEGMENT_SIZE {
+        } else if data_size <= BIG_DATA_SEGMENT_SIZE || !self.hive.supports_big_data() {
             // The entire data is stored in a single cell referenced by `data_offset`.
             let cell_range = self
                 .hive
-- 
2.43.0


From ecaf129256ddd160df5995516a32827579047dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 08/13] fix: return the error when the name of a Key Value
 cannot be read

value() returned such a Key Value as if its name had matched.
---
 src/key_node.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/key_node.rs b/src/key_node.rs
index 4d604e5..5bcc9f9 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -357,21 +357,19 @@ impl KeyNodeItemRange {
     where
         B: SplitByteSlice,
     {
-        let mut values = iter_try!(self.values(hive)?);
+        let values = iter_try!(self.values(hive)?);
 
         // Key Values are not sorted, so we can only iterate until we find a match.
-        values.find(|key_value| {
-            let key_value = match key_value {
-                Ok(key_value) => key_value,
-                Err(_) => return true,
-            };
-            let key_value_name = match key_value.name() {
-                Ok(name) => name,
-                Err(_) => return true,
-            };
-
-            key_value_name == name
-        })
+        for key_value in values {
+            let key_value = iter_try!(key_value);
+            let key_value_name = iter_try!(key_value.name());
+
+            if key_value_name == name {
+                return Some(Ok(key_value));
+            }
+        }
+
+        None
     }
 
     fn values<'h, B>(&self, hive: &'h Hive<B>) -> Option<Result<KeyValues<'h, B>>>
-- 
2.43.0


From 170a6406ea1e903e359454c6e893902e37f257bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 09/13] fix: fuse RegMultiSZStrings

It implements FusedIterator, but returned more strings after it had returned
None for the empty string that ends the list, or after a segment of the data
could not be read.
---
 src/key_value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index 46a98e8..a2146bc 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -500,7 +500,11 @@ where
                     };
                     let slice_data = match big_iter.next() {
                         Some(Ok(slice_data)) => slice_data,
-                        Some(Err(e)) => return Some(Err(e)),
+                        Some(Err(e)) => {
+                            // We cannot know where the next string begins.
+                            self.big_iter = None;
+                            return Some(Err(e));
+                        }
                         None => break 'outer_loop,
                     };
                     let char_iter = Self::make_char_iter(slice_data);
@@ -528,6 +532,9 @@ where
         }
 
         if string.is_empty() {
+            // This is the end of the list. Ignore whatever data follows, also on further calls.
+            self.char_iter = None;
+            self.big_iter = None;
             None
         } else {
             Some(Ok(string))
-- 
2.43.0


From 4c2c9eb21b3a919ee5b50ed5065b19ae645f882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 10/13] fix: decode surrogate pairs that are split over Big
 Data segments

string_data() and multi_string_data() decoded every segment on its own and
returned two replacement characters for such a pair.
---
 src/key_value.rs | 100 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 35 deletions(-)

diff --git a/src/key_value.rs b/src/key_value.rs
index a2146bc..2677d05 100644
--- a/src/key_value.rs
+++ b/src/key_value.rs
@@ -24,7 +24,8 @@ use {
     alloc::{string::String, vec::Vec},
     core::{
         char::{self, DecodeUtf16, DecodeUtf16Error},
-        iter::{self, FusedIterator, Map},
+        iter::{self, Chain, FusedIterator, Map},
+        option,
         slice::ChunksExact,
     },
 };
@@ -207,25 +208,18 @@ where
         I: Iterator<Item = Result<&'h [u8]>>,
     {
         let mut string = String::new();
+        let mut pending_surrogate = None;
 
         // A very long REG_SZ / REG_EXPAND_SZ value may be split over several Big Data segments.
         // Transparently concatenate them in the output string.
         for slice_data in iter {
-            let slice_data = slice_data?;
-
-            let u16_iter = slice_data
-                .chunks_exact(2)
-                .map(|two_bytes| u16::from_le_bytes(two_bytes.try_into().unwrap()));
+            let (slice_data, last_surrogate) = split_trailing_surrogate(slice_data?);
 
             // You hardly find emojis or other characters outside the UTF-16 Basic Multilingual Plane in registry data.
             // Hence, the count of UTF-16 code points is a good estimate for the final string length.
-            string.reserve(u16_iter.len());
-
-            // Interpret the u16 chunks as UTF-16 code points for characters. Replace undecodable ones silently.
-            let char_iter =
-                char::decode_utf16(u16_iter).map(|x| x.unwrap_or(char::REPLACEMENT_CHARACTER));
+            string.reserve(slice_data.len() / 2);
 
-            for c in char_iter {
+            for c in decode_utf16le_lossy(pending_surrogate, slice_data) {
                 // Some applications erroneously store NUL-terminated strings in the registry.
                 // To cope with that, we either stop at the first NUL character or when no more characters are left, whatever comes first.
                 if c == '\0' {
@@ -234,6 +228,13 @@ where
                     string.push(c);
                 }
             }
+
+            pending_surrogate = last_surrogate;
+        }
+
+        if pending_surrogate.is_some() {
+            // The data ends with a surrogate that is not followed by its other half.
+            string.push(char::REPLACEMENT_CHARACTER);
         }
 
         Ok(string)
@@ -428,18 +429,54 @@ where
 impl<B> Eq for KeyValue<'_, B> where B: SplitByteSlice {}
 
 #[cfg(feature = "alloc")]
-type RegMultiSZCharIter<'h> = Map<
-    DecodeUtf16<Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>,
+type Utf16LECharIter<'h> = Map<
+    DecodeUtf16<Chain<option::IntoIter<u16>, Map<ChunksExact<'h, u8>, fn(&'h [u8]) -> u16>>>,
     fn(Result<char, DecodeUtf16Error>) -> char,
 >;
 
+/// Interpret the given bytes as UTF-16LE code units for characters, optionally preceded by a
+/// surrogate returned by [`split_trailing_surrogate`]. Replace undecodable ones silently.
+#[cfg(feature = "alloc")]
+fn decode_utf16le_lossy(pending_surrogate: Option<u16>, data: &[u8]) -> Utf16LECharIter<'_> {
+    let u16_iter = data
+        .chunks_exact(2)
+        .map(u16_from_le_bytes as fn(&[u8]) -> u16);
+    char::decode_utf16(pending_surrogate.into_iter().chain(u16_iter))
+        .map(unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char)
+}
+
+/// Split off a leading surrogate at the end of a slice.
+/// Its other half may be at the beginning of the next slice.
+#[cfg(feature = "alloc")]
+fn split_trailing_surrogate(data: &[u8]) -> (&[u8], Option<u16>) {
+    if let Some(last_bytes) = data.chunks_exact(2).last() {
+        let last = u16_from_le_bytes(last_bytes);
+        if (0xd800..0xdc00).contains(&last) {
+            return (&data[..data.len() / 2 * 2 - 2], Some(last));
+        }
+    }
+
+    (data, None)
+}
+
+#[cfg(feature = "alloc")]
+fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
+    u16::from_le_bytes(two_bytes.try_into().unwrap())
+}
+
+#[cfg(feature = "alloc")]
+fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
+    input.unwrap_or(char::REPLACEMENT_CHARACTER)
+}
+
 #[cfg(feature = "alloc")]
 #[derive(Clone)]
 pub struct RegMultiSZStrings<'h, B>
 where
     B: SplitByteSlice + 'h,
 {
-    char_iter: Option<RegMultiSZCharIter<'h>>,
+    char_iter: Option<Utf16LECharIter<'h>>,
+    pending_surrogate: Option<u16>,
     big_iter: Option<BigDataSlices<'h, B>>,
 }
 
@@ -450,7 +487,8 @@ where
 {
     fn small(data: &'h [u8]) -> Self {
         Self {
-            char_iter: Some(Self::make_char_iter(data)),
+            char_iter: Some(decode_utf16le_lossy(None, data)),
+            pending_surrogate: None,
             big_iter: None,
         }
     }
@@ -458,26 +496,10 @@ where
     fn big(iter: BigDataSlices<'h, B>) -> Self {
         Self {
             char_iter: None,
+            pending_surrogate: None,
             big_iter: Some(iter),
         }
     }
-
-    fn make_char_iter(slice_data: &'h [u8]) -> RegMultiSZCharIter<'h> {
-        let u16_iter = slice_data
-            .chunks_exact(2)
-            .map(Self::u16_from_le_bytes as fn(&[u8]) -> u16);
-        char::decode_utf16(u16_iter).map(
-            Self::unwrap_or_replacement_character as fn(Result<char, DecodeUtf16Error>) -> char,
-        )
-    }
-
-    fn u16_from_le_bytes(two_bytes: &[u8]) -> u16 {
-        u16::from_le_bytes(two_bytes.try_into().unwrap())
-    }
-
-    fn unwrap_or_replacement_character(input: Result<char, DecodeUtf16Error>) -> char {
-        input.unwrap_or(char::REPLACEMENT_CHARACTER)
-    }
 }
 
 #[cfg(feature = "alloc")]
@@ -505,10 +527,18 @@ where
                             self.big_iter = None;
                             return Some(Err(e));
                         }
-                        None => break 'outer_loop,
+                        None => {
+                            if self.pending_surrogate.take().is_some() {
+                                // The data ends with a surrogate that is not followed by its other half.
+                                string.push(char::REPLACEMENT_CHARACTER);
+                            }
+                            break 'outer_loop;
+                        }
                     };
-                    let char_iter = Self::make_char_iter(slice_data);
+                    let (slice_data, last_surrogate) = split_trailing_surrogate(slice_data);
+                    let char_iter = decode_utf16le_lossy(self.pending_surrogate, slice_data);
                     self.char_iter = Some(char_iter);
+                    self.pending_surrogate = last_surrogate;
                     continue 'outer_loop;
                 }
             };
-- 
2.43.0


From 7b856f73da021a5a937d434e551d913474a0836a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 11/13] fix: bound the work of clear_volatile_subkeys

A subkeys list that leads back to an ancestor made it recurse until the stack
was exhausted, and subkeys lists that share their subkeys over several levels
made it run practically for ever. Return an error in both cases.
---
 src/error.rs    |  2 ++
 src/hive.rs     | 11 +++++++++--
 src/key_node.rs | 24 +++++++++++++++++++++---
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 562a20b..cfc0eff 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -31,6 +31,8 @@ pub enum NtHiveError {
         expected: usize,
         actual: usize,
     },
+    #[error("The key node at offset {offset:#010x} is nested too deeply or is its own descendant")]
+    InvalidKeyNodeNesting { offset: usize },
     #[error("Expected one of the key value data types {expected:?}, but found {actual:?}")]
     InvalidKeyValueDataType {
         expected: &'static [KeyValueDataType],
diff --git a/src/hive.rs b/src/hive.rs
index ea3c769..cb75e46 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -16,9 +16,12 @@ use crate::error::{NtHiveError, Result};
 use crate::helpers::byte_subrange;
 use crate::key_node::{KeyNode, KeyNodeMut};
 
+/// Windows does not allow a registry tree to be deeper than that.
+const MAX_KEY_NODE_LEVELS: usize = 512;
+
 #[derive(FromBytes, Immutable, IntoBytes, KnownLayout, Unaligned)]
 #[repr(packed)]
-struct CellHeader {
+pub(crate) struct CellHeader {
     size: I32<LittleEndian>,
 }
 
@@ -377,8 +380,12 @@ where
     /// This needs to be done before passing the hive to an NT kernel during boot.
     /// See <https://github.com/reactos/reactos/pull/1883> for more information.
     pub fn clear_volatile_subkeys(&mut self) -> Result<()> {
+        // There cannot be more Key Nodes than the hive has room for.
+        // Otherwise, we are visiting some of them over and over again.
+        let mut key_nodes_left = self.data.len() / KeyNodeMut::<B>::MIN_CELL_SIZE;
+
         let mut root_key_node = self.root_key_node_mut()?;
-        root_key_node.clear_volatile_subkeys()
+        root_key_node.clear_volatile_subkeys(MAX_KEY_NODE_LEVELS, &mut key_nodes_left)
     }
 
     pub(crate) fn root_key_node_mut(&mut self) -> Result<KeyNodeMut<B>> {
diff --git a/src/key_node.rs b/src/key_node.rs
index 5bcc9f9..5119018 100644
--- a/src/key_node.rs
+++ b/src/key_node.rs
@@ -15,7 +15,7 @@ use zerocopy::{
 
 use crate::error::{NtHiveError, Result};
 use crate::helpers::byte_subrange;
-use crate::hive::Hive;
+use crate::hive::{CellHeader, Hive};
 use crate::index_root::IndexRootItemRanges;
 use crate::key_value::KeyValue;
 use crate::key_values_list::KeyValues;
@@ -489,6 +489,10 @@ impl<'h, B> KeyNodeMut<'h, B>
 where
     B: SplitByteSliceMut,
 {
+    /// Size of the cell of a Key Node with an empty name.
+    pub(crate) const MIN_CELL_SIZE: usize =
+        mem::size_of::<CellHeader>() + mem::size_of::<KeyNodeHeader>();
+
     pub(crate) fn from_cell_range(hive: &'h mut Hive<B>, cell_range: Range<usize>) -> Result<Self> {
         let item_range = KeyNodeItemRange::from_cell_range(hive, cell_range)?;
         Ok(Self { hive, item_range })
@@ -502,14 +506,28 @@ where
         Ok(Self { hive, item_range })
     }
 
-    pub(crate) fn clear_volatile_subkeys(&mut self) -> Result<()> {
+    pub(crate) fn clear_volatile_subkeys(
+        &mut self,
+        levels_left: usize,
+        key_nodes_left: &mut usize,
+    ) -> Result<()> {
+        // The subkeys of a corrupted hive may lead back to one of their ancestors.
+        if levels_left == 0 || *key_nodes_left == 0 {
+            return Err(NtHiveError::InvalidKeyNodeNesting {
+                offset: self
+                    .hive
+                    .offset_of_data_offset(self.item_range.header_range.start),
+            });
+        }
+        *key_nodes_left -= 1;
+
         let mut header = self.item_range.header_mut(self.hive);
         header.volatile_subkey_count.set(0);
 
         if let Some(subkeys) = self.subkeys_mut() {
             let mut subkeys = subkeys?;
             while let Some(subkey) = subkeys.next() {
-                subkey?.clear_volatile_subkeys()?;
+                subkey?.clear_volatile_subkeys(levels_left - 1, key_nodes_left)?;
             }
         }
 
-- 
2.43.0


From 8a8b4f5b970b0b69d8e196d8ece4fee115193f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 12/13] fix: Do not overflow when reporting the offset of a
 corrupted data offset on 32-bit platforms

---
 src/hive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hive.rs b/src/hive.rs
index cb75e46..cf13e1f 100644
--- a/src/hive.rs
+++ b/src/hive.rs
@@ -183,7 +183,8 @@ where
 
     /// Calculate a data offset's offset from the very beginning of the hive bytes.
     pub(crate) fn offset_of_data_offset(&self, data_offset: usize) -> usize {
-        data_offset + mem::size_of::<HiveBaseBlock>()
+        // A corrupted data offset may lie so close to `u32::MAX` that the sum doesn't fit into a 32-bit `usize`.
+        data_offset.saturating_add(mem::size_of::<HiveBaseBlock>())
     }
 
     /// Returns the major version of this hive.
-- 
2.43.0


From 429cca752f217e2cb0bd5f7e0f85c615ce06910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 13/13] fix: Do not overflow when a corrupted Key Values count
 is huge on 32-bit platforms

---
 src/key_values_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/key_values_list.rs b/src/key_values_list.rs
index b0ff0c4..b86f307 100644
--- a/src/key_values_list.rs
+++ b/src/key_values_list.rs
@@ -58,7 +58,8 @@ impl KeyValuesListItemRanges {
         count_field_offset: usize,
         cell_range: Range<usize>,
     ) -> Result<Self> {
-        let byte_count = count as usize * mem::size_of::<KeyValuesListItem>();
+        // The count of a corrupted Key Node may be so large that the product doesn't fit into a 32-bit `usize`.
+        let byte_count = (count as usize).saturating_mul(mem::size_of::<KeyValuesListItem>());
 
         let items_range = byte_subrange(&cell_range, byte_count).ok_or_else(|| {
             NtHiveError::InvalidSizeField {
-- 
2.43.0


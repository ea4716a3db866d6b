From f089df6d96885dcdb852aed6d23b8ada0730efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:07 +0000
Subject: [PATCH 01/26] fix: HDU iterator panics when asked again at the end of
 the file

The skip to the next HDU subtracted the bytes read from the size of the data unit, which underflows
whenever the reader stands past the data unit (end of file already reached).
---
 src/fits.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..3fd809a 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -6,6 +6,7 @@ use crate::hdu::header::extension::image::Image;
 use crate::hdu::header::Header;
 use crate::hdu::header::Xtension;
 
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 #[derive(Debug, Clone)]
@@ -59,20 +60,18 @@ where
     /// It is possible that EOF is reached immediately because some fits files do not have these blank bytes
     /// at the end of its last HDU
     pub(crate) fn consume_until_next_hdu(&mut self) -> Result<(), Error> {
-        // Seek to the beginning of the next HDU.
-        // The number of bytes to skip is the remaining bytes +
-        // an offset to get to a multiple of 2880 bytes
+        // Seek to the beginning of the next HDU, i.e. the end of the current data unit
+        // rounded up to a multiple of 2880 bytes. The reader may be anywhere: in the middle of the
+        // data unit, or past it if the end of the file has already been reached.
+        let next_hdu_pos = (self.num_bytes_in_cur_du as u64)
+            .checked_next_multiple_of(2880)
+            .and_then(|size| size.checked_add(self.pos_start_cur_du as u64))
+            .and_then(|pos| i64::try_from(pos).ok())
+            .ok_or(Error::StaticError("The data unit size is too big"))?;
 
         // current seek position since the start of the stream
-        let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
-
-        let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
-        let is_aligned_on_block = offset_in_2880_block == 0;
-        if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
-        }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+        let cur_pos = self.reader.stream_position()?;
+        self.reader.seek_relative(next_hdu_pos - cur_pos as i64)?;
 
         Ok(())
     }
-- 
2.43.0


From 415c28787766db6cdc2a4eb6f6d34d0623ea6086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:39 +0000
Subject: [PATCH 02/26] fix: a header card whose string value is a lone quote
 panics

---
 src/card.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..5090922 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -174,9 +174,11 @@ impl TryFrom<&CardBuf> for Card {
 
 fn parse_extension(buf: &[u8; 80]) -> Result<Card, Error> {
     let (value, comment) = split_value_and_comment(&buf[10..])?;
-    if value.starts_with("'") && value.ends_with("'") {
-        let end = value.len() - 1;
-        let x = value[1..end].trim_ascii().parse()?;
+    if let Some(value) = value
+        .strip_prefix('\'')
+        .and_then(|value| value.strip_suffix('\''))
+    {
+        let x = value.trim_ascii().parse()?;
         Ok(Card::Xtension { x, comment })
     } else {
         let msg = format!("XTENSION value must be enclosed in single quotes, found: {value}");
@@ -277,6 +279,10 @@ fn parse_string(s: String) -> Result<String, Error> {
     let start_quote = s.starts_with("'");
     let end_quote = s.ends_with("'");
     let value: &str = match (start_quote, end_quote) {
+        // a single quote alone opens a string that is never closed
+        (true, true) if s.len() == 1 => {
+            return Err(Error::StaticError("missing single quote at end"))
+        }
         (true, true) => &s[1..s.len() - 1], // string enclosed in single quotes
         (false, false) => &s,               // comment string has no quotes
         (true, false) => return Err(Error::StaticError("missing single quote at end")),
-- 
2.43.0


From 2373374cbdf0a82a1f7a65f5e57b593b49c08709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:17 +0000
Subject: [PATCH 03/26] fix: the unit of a comment is not found when a space
 follows the slash

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index 5090922..2bce5dd 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -522,6 +522,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // the comment keeps the space that usually follows the slash
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From 27e671c17f3334b39ce0097df82cbbc207e45473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:49 +0000
Subject: [PATCH 04/26] fix: a CONTINUE card separated from its string by
 another card is appended to it

---
 src/hdu/header/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..6c22da1 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -309,7 +309,11 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 }
             }
             // TODO log skipped card at debug level
-            _ => ( /* NOOP */),
+            _ => {
+                // FITS document 4.2.1.2: value ends with a '&' but is not immediately followed
+                // by a CONTINUE record. We thus consider it as part of the previous valued string.
+                kw = None;
+            }
         }
     }
     Err(Error::StaticError("Missing END card"))
-- 
2.43.0


From 4f5407f267abdcbcff4f156ba7eeb90343d27605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:12 +0000
Subject: [PATCH 05/26] fix: bit array columns of a binary table are not read
 on the bytes they occupy

---
 src/hdu/data/bintable/data.rs        | 2 +-
 src/hdu/header/extension/bintable.rs | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..dae94cb 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -635,7 +635,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..09acec4 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -509,12 +509,12 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
+        // each field starts on a byte boundary, in particular the bit array ones
+        let num_bytes_per_row = tforms
             .iter()
-            .map(|tform| tform.num_bits_field() as u64)
+            .map(|tform| tform.num_bytes_field() as u64)
             .sum::<u64>();
 
-        let num_bytes_per_row = num_bits_per_row >> 3;
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
-- 
2.43.0


From 89b77ce93ba9a466f51b9ae5948902ffbf8ab9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:41 +0000
Subject: [PATCH 06/26] fix: logical table values other than 'T' are read as
 true

---
 src/hdu/data/bintable/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index dae94cb..8413802 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -484,7 +484,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = self.reader.read_u8().ok()? == b'T';
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -624,7 +624,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From 0d50db6d8e9ed0eca78b625b7ae2c0f7f17612ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:24 +0000
Subject: [PATCH 07/26] fix: table columns with a repeat count of 0 are read as
 if they had values

---
 src/hdu/data/bintable/data.rs        | 18 ++++++++++++++----
 src/hdu/header/extension/bintable.rs | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 8413802..682803f 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -210,7 +210,10 @@ impl<R> TableData<R> {
             })
             .collect();
 
-        let cols_idx = (0..(ctx.tforms.len())).collect();
+        // the fields with a repeat count of 0 do not have any values
+        let cols_idx = (0..(ctx.tforms.len()))
+            .filter(|&idx| ctx.tforms[idx].num_bytes_field() > 0)
+            .collect();
 
         let col_idx = 0;
         let item_idx = 0;
@@ -276,7 +279,10 @@ impl<R> TableData<R> {
                     }
                 }
             }
-        ).collect();
+        )
+        // the fields with a repeat count of 0 do not have any values
+        .filter(|&idx| self.ctx.tforms[idx].num_bytes_field() > 0)
+        .collect();
 
         self.cols_idx.sort_unstable();
 
@@ -348,7 +354,10 @@ where
                 // go to the beginning of the idx-th row
                 (idx as i64) * (self.ctx.naxis1 as i64)
                 // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
+                + self
+                    .cols_idx
+                    .first()
+                    .map_or(0, |&col_idx| self.col_byte_offsets[col_idx] as i64);
 
             // Offset for moving from the current position to the new row position
             let off =
@@ -454,7 +463,8 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
+        // There is nothing to read if there are no columns
+        let col_idx = *self.cols_idx.get(self.col_idx)?;
 
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 09acec4..3aaf7f5 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -431,6 +431,7 @@ impl Xtension for BinTable {
                         let (t_byte_size, ty) = compute_ty_array_desc()?;
 
                         TFormType::P {
+                            repeat_count,
                             t_byte_size: t_byte_size as u64,
                             e_max: 999,
                             ty,
@@ -441,6 +442,7 @@ impl Xtension for BinTable {
                         let (t_byte_size, ty) = compute_ty_array_desc()?;
 
                         TFormType::Q {
+                            repeat_count,
                             t_byte_size: t_byte_size as u64,
                             e_max: 999,
                             ty,
@@ -701,6 +703,8 @@ pub(crate) enum TFormType {
     },
     // Array Descriptor (32-bit)
     P {
+        /// number of descriptors in the field, 0 or 1
+        repeat_count: usize,
         /// number of bytes per element
         t_byte_size: u64,
         /// max number of elements of type t
@@ -710,6 +714,8 @@ pub(crate) enum TFormType {
     },
     // Array Descriptor (64-bit)
     Q {
+        /// number of descriptors in the field, 0 or 1
+        repeat_count: usize,
         /// number of bytes per element
         t_byte_size: u64,
         /// max number of elements of type t
@@ -779,8 +785,8 @@ impl TFormType {
             TFormType::D { repeat_count } => repeat_count * D::BITS_SIZE, // Double-precision floating point
             TFormType::C { repeat_count } => repeat_count * C::BITS_SIZE, // Single-precision complex
             TFormType::M { repeat_count } => repeat_count * M::BITS_SIZE, // Double-precision complex
-            TFormType::P { .. } => P::BITS_SIZE, // Array Descriptor (32-bit)
-            TFormType::Q { .. } => Q::BITS_SIZE, // Array Descriptor (64-bit)
+            TFormType::P { repeat_count, .. } => repeat_count.min(&1) * P::BITS_SIZE, // Array Descriptor (32-bit)
+            TFormType::Q { repeat_count, .. } => repeat_count.min(&1) * Q::BITS_SIZE, // Array Descriptor (64-bit)
         }
     }
 
-- 
2.43.0


From 6558fbc550efbe03b3e34d7ab0f9b906f4ec1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 08/26] fix: empty, bit and out of range variable length arrays
 of a table are misread

---
 src/hdu/data/bintable/data.rs | 153 ++++++++++++++++++++++++----------
 src/hdu/data/bintable/row.rs  |  12 ++-
 2 files changed, 118 insertions(+), 47 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 682803f..d7844dc 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -3,6 +3,7 @@ use crate::hdu::header::extension::bintable::{
     TForm, VariableArrayTy, A, B, C, D, E, I, J, K, L, M, P, Q, X,
 };
 use crate::hdu::header::{Header, Xtension};
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 use super::row::TableRowData;
@@ -399,14 +400,25 @@ where
             // We are already in the heap, we do nothing
             DataReaderState::HEAP { .. } => (),
             DataReaderState::MainTable => {
+                // The elements of a bit array are the bytes it occupies
+                let n_elems = match ty {
+                    VariableArrayTy::X => n_elems.div_ceil(8),
+                    _ => n_elems,
+                };
+                let num_bytes_to_read = n_elems
+                    .checked_mul(t_byte_size)
+                    .ok_or(Error::StaticError("The array does not fit in the heap"))?;
+
                 // Move to the HEAP
                 let off =
-                    // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64)
                     // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
+                    (self.ctx.theap as u64)
                     // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
+                    .checked_add(byte_offset)
+                    .and_then(|off| i64::try_from(off).ok())
+                    .ok_or(Error::StaticError("The array does not fit in the heap"))?
+                    // go back to the beginning of the main table data block
+                    - (self.byte_offset as i64);
 
                 // Get the current location used to go back to the main table
                 let pos = SeekFrom::Start(self.reader.stream_position()?);
@@ -414,7 +426,6 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = n_elems * t_byte_size;
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
@@ -462,6 +473,78 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
+        let value = self.read_value();
+        if value.is_none() {
+            // the end of the table, or a value that cannot be read
+            self.finish();
+        }
+
+        value
+    }
+}
+
+impl<R> TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    /// There is nothing more to read
+    pub(crate) fn finish(&mut self) {
+        self.state = DataReaderState::MainTable;
+        self.byte_offset = self.main_data_table_byte_size;
+        self.row_idx = self.ctx.naxis2 as usize;
+    }
+
+    /// If the reader is on a variable length array field then reads its descriptor and jumps to its elements
+    /// in the heap.
+    ///
+    /// Returns false when there are no elements to read, the reader is then on the next field.
+    pub(crate) fn enter_field(&mut self) -> Result<bool, Error> {
+        if !self.heap
+            || !matches!(self.state, DataReaderState::MainTable)
+            || self.byte_offset == self.main_data_table_byte_size
+        {
+            return Ok(true);
+        }
+
+        let tform = self
+            .cols_idx
+            .get(self.col_idx)
+            .map(|&col_idx| self.ctx.tforms[col_idx]);
+        let (ty, t_byte_size, num_elems, offset_byte) = match tform {
+            Some(TFormType::P {
+                ty, t_byte_size, ..
+            }) => {
+                let num_elems = self.reader.read_u32::<BigEndian>()? as u64;
+                let offset_byte = self.reader.read_u32::<BigEndian>()? as u64;
+                self.byte_offset += P::BYTES_SIZE;
+
+                (ty, t_byte_size, num_elems, offset_byte)
+            }
+            Some(TFormType::Q {
+                ty, t_byte_size, ..
+            }) => {
+                let num_elems = self.reader.read_u64::<BigEndian>()?;
+                let offset_byte = self.reader.read_u64::<BigEndian>()?;
+                self.byte_offset += Q::BYTES_SIZE;
+
+                (ty, t_byte_size, num_elems, offset_byte)
+            }
+            _ => return Ok(true),
+        };
+
+        if num_elems == 0 {
+            self.seek_to_next_col()?;
+            Ok(false)
+        } else {
+            self.jump_to_heap(ty, offset_byte, num_elems, t_byte_size)?;
+            Ok(true)
+        }
+    }
+
+    fn read_value(&mut self) -> Option<DataValue> {
+        // Go to the elements of a variable length array, the empty ones do not have any values
+        while !self.enter_field().ok()? {}
+
         // First get the column index in the main data table where the reader is
         // There is nothing to read if there are no columns
         let col_idx = *self.cols_idx.get(self.col_idx)?;
@@ -805,61 +888,39 @@ where
                             }) // Determine the count idx inside the field
                         }
                         // Array Descriptor (32-bit)
-                        TFormType::P {
-                            ty, t_byte_size, ..
-                        } => {
+                        // The heap is not read, see enter_field otherwise
+                        TFormType::P { .. } => {
                             let num_elems = self.reader.read_u32::<BigEndian>().ok()?;
                             let offset_byte = self.reader.read_u32::<BigEndian>().ok()?;
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
-                                self.jump_to_heap(
-                                    *ty,
-                                    offset_byte as u64,
-                                    num_elems as u64,
-                                    *t_byte_size,
-                                )
-                                .ok()?;
-
-                                self.next()
-                            } else {
-                                // We need to seek to the next call if we do not jump to the heap, notifying
-                                // we finished parsing this field
-                                self.seek_to_next_col().ok()?;
+                            // We need to seek to the next call if we do not jump to the heap, notifying
+                            // we finished parsing this field
+                            self.seek_to_next_col().ok()?;
 
-                                // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray32 {
-                                    num_elems,
-                                    offset_byte,
-                                })
-                            }
+                            // just returns the n_elems and offset from the iterator
+                            Some(DataValue::VariableLengthArray32 {
+                                num_elems,
+                                offset_byte,
+                            })
                         }
                         // Array Descriptor (64-bit)
-                        TFormType::Q {
-                            ty, t_byte_size, ..
-                        } => {
+                        TFormType::Q { .. } => {
                             let num_elems = self.reader.read_u64::<BigEndian>().ok()?;
                             let offset_byte = self.reader.read_u64::<BigEndian>().ok()?;
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
-                                self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
-                                    .ok()?;
-
-                                self.next()
-                            } else {
-                                // We need to seek to the next call if we do not jump to the heap, notifying
-                                // we finished parsing this field
-                                self.seek_to_next_col().ok()?;
+                            // We need to seek to the next call if we do not jump to the heap, notifying
+                            // we finished parsing this field
+                            self.seek_to_next_col().ok()?;
 
-                                // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray64 {
-                                    num_elems,
-                                    offset_byte,
-                                })
-                            }
+                            // just returns the n_elems and offset from the iterator
+                            Some(DataValue::VariableLengthArray64 {
+                                num_elems,
+                                offset_byte,
+                            })
                         }
                     }
                 }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..d2dbc60 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -48,8 +48,18 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let mut row_data = vec![];
 
+        // the reader is at the beginning of a row, or at the end of the table
+        self.idx_row = self.data.row_idx;
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            match self.data.enter_field() {
+                Ok(true) => row_data.push(self.data.next()?),
+                // the empty variable length arrays do not give any values
+                Ok(false) => (),
+                Err(_) => {
+                    self.data.finish();
+                    return None;
+                }
+            }
         }
 
         self.idx_row += 1;
-- 
2.43.0


From 43b281fa0c6f833fa037b8ddd4b537b9219ab4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:47 +0000
Subject: [PATCH 09/26] fix: selecting columns or seeking to a row in the
 middle of a table reads at the wrong place

---
 src/hdu/data/bintable/data.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index d7844dc..a9ed457 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -286,6 +286,7 @@ impl<R> TableData<R> {
         .collect();
 
         self.cols_idx.sort_unstable();
+        self.cols_idx.dedup();
 
         // We must go to the first column at this point
         self.seek_to_first_col = true;
@@ -347,6 +348,10 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
+            // leave the heap, if a variable length array was being read
+            self.jump_to_main_table()?;
+
+            self.seek_to_first_col = false;
             self.col_idx = 0;
             self.row_idx = idx;
             self.item_idx = 0;
@@ -361,9 +366,8 @@ where
                     .map_or(0, |&col_idx| self.col_byte_offsets[col_idx] as i64);
 
             // Offset for moving from the current position to the new row position
-            let off =
-                // go back to the beginning of the main table data block
-                - (self.byte_offset as i64) + new_byte_offset;
+            let off = (self.start_pos as i64 + new_byte_offset)
+                - (self.reader.stream_position()? as i64);
 
             self.reader.seek_relative(off)?;
 
@@ -499,6 +503,15 @@ where
     ///
     /// Returns false when there are no elements to read, the reader is then on the next field.
     pub(crate) fn enter_field(&mut self) -> Result<bool, Error> {
+        // a select fields has been done, we must go to its first col on the current row
+        if self.seek_to_first_col {
+            self.seek_to_first_col = false;
+
+            if self.row_idx < self.ctx.naxis2 as usize {
+                self.seek_to_row(self.row_idx)?;
+            }
+        }
+
         if !self.heap
             || !matches!(self.state, DataReaderState::MainTable)
             || self.byte_offset == self.main_data_table_byte_size
@@ -549,17 +562,6 @@ where
         // There is nothing to read if there are no columns
         let col_idx = *self.cols_idx.get(self.col_idx)?;
 
-        // a select fields has been done, we must offset to the first col
-        if self.seek_to_first_col {
-            self.seek_to_first_col = false;
-
-            let off = self.col_byte_offsets[col_idx] as i64;
-            // seek to the next col location
-            self.reader.seek_relative(off).ok()?;
-            // update the byte offset as well
-            self.byte_offset += off as usize;
-        }
-
         match &mut self.state {
             DataReaderState::HEAP {
                 ty,
-- 
2.43.0


From 57246495723e9c532f29e3be6522a247aade285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:52 +0000
Subject: [PATCH 10/26] fix: the position of a variable length array overflows
 past the end of the file

---
 src/hdu/data/bintable/data.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index a9ed457..8aff3cf 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -414,25 +414,25 @@ where
                     .ok_or(Error::StaticError("The array does not fit in the heap"))?;
 
                 // Move to the HEAP
-                let off =
+                let heap_pos =
                     // from the beginning of the main table go to the beginning of the heap
                     (self.ctx.theap as u64)
                     // from the beginning of the heap go to the start of the array
                     .checked_add(byte_offset)
-                    .and_then(|off| i64::try_from(off).ok())
-                    .ok_or(Error::StaticError("The array does not fit in the heap"))?
-                    // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64);
+                    .and_then(|off| self.start_pos.checked_add(off))
+                    .and_then(|pos| i64::try_from(pos).ok())
+                    .ok_or(Error::StaticError("The array does not fit in the heap"))?;
 
                 // Get the current location used to go back to the main table
-                let pos = SeekFrom::Start(self.reader.stream_position()?);
+                let main_table_pos = self.reader.stream_position()?;
 
                 // Go to the HEAP
-                self.reader.seek_relative(off)?;
+                self.reader
+                    .seek_relative(heap_pos - main_table_pos as i64)?;
 
                 self.state = DataReaderState::HEAP {
                     ty,
-                    main_table_pos: pos,
+                    main_table_pos: SeekFrom::Start(main_table_pos),
                     num_bytes_to_read,
                     t_byte_size,
                     n_elems,
-- 
2.43.0


From 9d5b395d87f7f96789ddaa01db7060b9b892f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:17 +0000
Subject: [PATCH 11/26] fix: sizes and counts of a header that cannot be
 represented overflow or exhaust the memory

---
 src/hdu/header/extension/asciitable.rs |  3 +++
 src/hdu/header/extension/bintable.rs   | 27 +++++++++++++++++++++-----
 src/hdu/header/extension/image.rs      | 12 ++++++++++--
 src/hdu/header/mod.rs                  |  5 ++++-
 4 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..cd1715f 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -114,6 +114,9 @@ impl Xtension for AsciiTable {
         // NAXIS1
         let naxis1 = values.check_for_naxisi(1)?;
         let naxis2 = values.check_for_naxisi(2)?;
+        naxis1
+            .checked_mul(naxis2)
+            .ok_or(Error::StaticError("The size of the table is too big"))?;
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 3aaf7f5..b7607c9 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -209,6 +209,12 @@ impl Xtension for BinTable {
         // PCOUNT
         let pcount = values.check_for_pcount()?;
 
+        // The size of the data unit
+        naxis1
+            .checked_mul(naxis2)
+            .and_then(|size| size.checked_add(pcount))
+            .ok_or(Error::StaticError("The size of the table is too big"))?;
+
         // GCOUNT
         let gcount = values.check_for_gcount()?;
         if gcount != 1 {
@@ -288,8 +294,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = vec![];
+            let mut z_tilen = vec![];
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
@@ -368,7 +374,18 @@ impl Xtension for BinTable {
                     .collect::<String>();
 
                 let num_count_digits = count.len();
-                let repeat_count = count.parse::<usize>().unwrap_or(1);
+                let repeat_count = if count.is_empty() {
+                    1
+                } else {
+                    // the size in bits of the field must be representable
+                    match count.parse::<usize>() {
+                        Ok(count) if count <= usize::MAX / M::BITS_SIZE => count,
+                        _ => {
+                            warn!("The repeat count of {tform_kw} is too big. Discard it");
+                            return None;
+                        }
+                    }
+                };
                 // If the field type is not found, discard it as well
                 let Some(field_ty) = tform.chars().nth(num_count_digits) else {
                     warn!("Cannot extract the field type of {tform_kw}");
@@ -515,9 +532,9 @@ impl Xtension for BinTable {
         let num_bytes_per_row = tforms
             .iter()
             .map(|tform| tform.num_bytes_field() as u64)
-            .sum::<u64>();
+            .try_fold(0_u64, |sum, size| sum.checked_add(size));
 
-        if num_bytes_per_row != naxis1 {
+        if num_bytes_per_row != Some(naxis1) {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
 
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..4775e49 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -28,7 +28,7 @@ impl Image {
 
     /// Get total number of pixels in the image
     pub fn get_num_pixels(&self) -> u64 {
-        if self.naxisn.is_empty() {
+        if self.naxisn.is_empty() || self.naxisn.contains(&0) {
             return 0;
         }
         self.naxisn.iter().product()
@@ -49,7 +49,15 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+
+        // The size of the data unit
+        if !naxisn.contains(&0) {
+            naxisn
+                .iter()
+                .try_fold(bitpix.byte_size() as u64, |size, &n| size.checked_mul(n))
+                .ok_or(Error::StaticError("The size of the image is too big"))?;
+        }
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 6c22da1..2b9b3d1 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -154,7 +154,10 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        match self.get_parsed("TFIELDS")? {
+            tfields if tfields <= 999 => Ok(tfields),
+            _ => Err(Error::StaticError("TFIELDS must not exceed 999")),
+        }
     }
 }
 
-- 
2.43.0


From 94c2119ae87ab25a726581a0277d9a3a8bd39b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:01 +0000
Subject: [PATCH 12/26] fix: tile compressed images with border tiles, other
 columns, 8 or 16-bit gzip pixels or damaged tiles are misread

---
 src/hdu/data/bintable/data.rs                 |  36 +-
 src/hdu/data/bintable/row.rs                  |  11 +
 src/hdu/data/bintable/tile_compressed/mod.rs  | 111 ++-
 .../data/bintable/tile_compressed/pixels.rs   | 881 +++++-------------
 src/hdu/data/bintable/tile_compressed/rice.rs |  23 +-
 src/hdu/header/extension/bintable.rs          |  53 ++
 6 files changed, 423 insertions(+), 692 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 8aff3cf..40a9efa 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -246,6 +246,24 @@ impl<R> TableData<R> {
         self.heap = heap;
     }
 
+    /// There is nothing more to read
+    pub(crate) fn finish(&mut self) {
+        self.state = DataReaderState::MainTable;
+        self.byte_offset = self.main_data_table_byte_size;
+        self.row_idx = self.ctx.naxis2 as usize;
+    }
+
+    /// Get the position in the file of an array of the heap
+    pub(crate) fn get_heap_position(&self, byte_offset: u64) -> Result<u64, Error> {
+        // from the beginning of the main table go to the beginning of the heap
+        (self.ctx.theap as u64)
+            // from the beginning of the heap go to the start of the array
+            .checked_add(byte_offset)
+            .and_then(|off| self.start_pos.checked_add(off))
+            .filter(|&pos| i64::try_from(pos).is_ok())
+            .ok_or(Error::StaticError("The array does not fit in the heap"))
+    }
+
     pub(crate) fn get_ctx(&self) -> &BinTable {
         &self.ctx
     }
@@ -414,21 +432,14 @@ where
                     .ok_or(Error::StaticError("The array does not fit in the heap"))?;
 
                 // Move to the HEAP
-                let heap_pos =
-                    // from the beginning of the main table go to the beginning of the heap
-                    (self.ctx.theap as u64)
-                    // from the beginning of the heap go to the start of the array
-                    .checked_add(byte_offset)
-                    .and_then(|off| self.start_pos.checked_add(off))
-                    .and_then(|pos| i64::try_from(pos).ok())
-                    .ok_or(Error::StaticError("The array does not fit in the heap"))?;
+                let heap_pos = self.get_heap_position(byte_offset)?;
 
                 // Get the current location used to go back to the main table
                 let main_table_pos = self.reader.stream_position()?;
 
                 // Go to the HEAP
                 self.reader
-                    .seek_relative(heap_pos - main_table_pos as i64)?;
+                    .seek_relative(heap_pos as i64 - main_table_pos as i64)?;
 
                 self.state = DataReaderState::HEAP {
                     ty,
@@ -491,13 +502,6 @@ impl<R> TableData<R>
 where
     R: Read + Seek + Debug,
 {
-    /// There is nothing more to read
-    pub(crate) fn finish(&mut self) {
-        self.state = DataReaderState::MainTable;
-        self.byte_offset = self.main_data_table_byte_size;
-        self.row_idx = self.ctx.naxis2 as usize;
-    }
-
     /// If the reader is on a variable length array field then reads its descriptor and jumps to its elements
     /// in the heap.
     ///
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index d2dbc60..b86d55f 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -1,3 +1,4 @@
+use crate::error::Error;
 use crate::hdu::header::extension::bintable::BinTable;
 use std::fmt::Debug;
 use std::io::{Read, Seek};
@@ -28,6 +29,16 @@ impl<R> TableRowData<R> {
         self.data.get_reader()
     }
 
+    /// Get the position in the file of an array of the heap
+    pub(crate) fn get_heap_position(&self, byte_offset: u64) -> Result<u64, Error> {
+        self.data.get_heap_position(byte_offset)
+    }
+
+    /// There is nothing more to read
+    pub(crate) fn finish(&mut self) {
+        self.data.finish();
+    }
+
     /// Get an iterator over the binary table without interpreting its content as
     /// a compressed tile.
     ///
diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..45f1fd0 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -4,8 +4,10 @@ mod rice;
 
 use dithering::{N_RANDOM, RAND_VALUES};
 
+use super::DataValue;
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZQuantiz};
 use crate::hdu::header::Header;
+use std::convert::TryFrom;
 
 pub trait Keywords {
     type T;
@@ -41,9 +43,9 @@ where
 #[derive(Debug)]
 pub struct F32Keywords {
     /// Idx column storing z_scale values for each tile
-    z_scale_idx: usize,
+    z_scale_idx: Option<usize>,
     /// Idx column storing z_zero values for each tile
-    z_zero_idx: usize,
+    z_zero_idx: Option<usize>,
     /// Idx column storing z_blank values for each tile
     z_blank_idx: Option<usize>,
 
@@ -67,9 +69,9 @@ pub struct F32Keywords {
 #[derive(Debug)]
 pub struct F64Keywords {
     /// Idx column storing z_scale values for each tile
-    z_scale_idx: usize,
+    z_scale_idx: Option<usize>,
     /// Idx column storing z_zero values for each tile
-    z_zero_idx: usize,
+    z_zero_idx: Option<usize>,
     /// Idx column storing z_blank values for each tile
     z_blank_idx: Option<usize>,
 
@@ -91,11 +93,35 @@ pub struct F64Keywords {
 }
 
 impl F64Keywords {
+    /// Get the scaling of a tile from its row
+    fn read_row(&mut self, ctx: &BinTable, row_data: &[DataValue], row_idx: usize) -> Option<()> {
+        self.quantiz = Quantiz::new(&self.z_quantiz, self.z_dither_0, row_idx);
+
+        if let Some(idx) = self.z_scale_idx {
+            self.scale = float_value(ctx, row_data, idx)?;
+        }
+        if let Some(idx) = self.z_zero_idx {
+            self.zero = float_value(ctx, row_data, idx)?;
+        }
+        if let Some(idx) = self.z_blank_idx {
+            self.z_blank = integer_value(ctx, row_data, idx)?;
+        }
+
+        Some(())
+    }
+
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
+                // the blank pixels have their random value as well
+                if let Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } =
+                    &mut self.quantiz
+                {
+                    *i1 = (*i1 + 1) % N_RANDOM;
+                }
+
                 return f32::NAN;
             }
         }
@@ -128,11 +154,35 @@ impl F64Keywords {
 }
 
 impl F32Keywords {
+    /// Get the scaling of a tile from its row
+    fn read_row(&mut self, ctx: &BinTable, row_data: &[DataValue], row_idx: usize) -> Option<()> {
+        self.quantiz = Quantiz::new(&self.z_quantiz, self.z_dither_0, row_idx);
+
+        if let Some(idx) = self.z_scale_idx {
+            self.scale = float_value(ctx, row_data, idx)?;
+        }
+        if let Some(idx) = self.z_zero_idx {
+            self.zero = float_value(ctx, row_data, idx)?;
+        }
+        if let Some(idx) = self.z_blank_idx {
+            self.z_blank = integer_value(ctx, row_data, idx)?;
+        }
+
+        Some(())
+    }
+
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
+                // the blank pixels have their random value as well
+                if let Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } =
+                    &mut self.quantiz
+                {
+                    *i1 = (*i1 + 1) % N_RANDOM;
+                }
+
                 return f32::NAN;
             }
         }
@@ -175,8 +225,8 @@ impl Keywords for F32Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE");
+        let z_zero_idx = ctx.find_field_by_ttype("ZZERO");
 
         let mut z_blank = None;
         let z_blank_idx = ctx
@@ -193,8 +243,9 @@ impl Keywords for F32Keywords {
         // If no ZBLANK colum has been found then check the header keywords (ZBLANK for float, BLANK for integer)
 
         Self {
-            scale: 1.0,
-            zero: 0.0,
+            // constants of the header, if they are not given for each tile
+            scale: header.get_parsed("ZSCALE").unwrap_or(1.0),
+            zero: header.get_parsed("ZZERO").unwrap_or(0.0),
             z_scale_idx,
             z_zero_idx,
             z_blank_idx,
@@ -217,8 +268,8 @@ impl Keywords for F64Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE");
+        let z_zero_idx = ctx.find_field_by_ttype("ZZERO");
 
         let mut z_blank = None;
         let z_blank_idx = ctx
@@ -235,8 +286,9 @@ impl Keywords for F64Keywords {
         // If no ZBLANK colum has been found then check the header keywords (ZBLANK for float, BLANK for integer)
 
         Self {
-            scale: 1.0,
-            zero: 0.0,
+            // constants of the header, if they are not given for each tile
+            scale: header.get_parsed("ZSCALE").unwrap_or(1.0),
+            zero: header.get_parsed("ZZERO").unwrap_or(0.0),
             z_scale_idx,
             z_zero_idx,
             z_blank_idx,
@@ -300,6 +352,41 @@ enum Quantiz {
     SubtractiveDither2 { i1: usize },
 }
 
+impl Quantiz {
+    /// * `row_idx` - Number of the row of the tile, the first one is 1
+    fn new(z_quantiz: &ZQuantiz, z_dither_0: i64, row_idx: usize) -> Self {
+        let n_random = N_RANDOM as i64;
+        let i0 = ((row_idx as i64 - 1) + z_dither_0.rem_euclid(n_random)) % n_random;
+        let i1 = (RAND_VALUES[i0 as usize] * 500.0).floor() as usize;
+
+        match z_quantiz {
+            ZQuantiz::SubtractiveDither1 => Self::SubtractiveDither1 { i1 },
+            ZQuantiz::SubtractiveDither2 => Self::SubtractiveDither2 { i1 },
+            ZQuantiz::NoDither => Self::NoDither,
+        }
+    }
+}
+
+/// The floating point value of a field of a row
+fn float_value(ctx: &BinTable, row_data: &[DataValue], idx: usize) -> Option<f32> {
+    match ctx.field_value(row_data, idx)? {
+        DataValue::Float { value, .. } => Some(*value),
+        DataValue::Double { value, .. } => Some(*value as f32),
+        _ => None,
+    }
+}
+
+/// The integer value of a field of a row, no pixel can have a value which is not 32-bit
+fn integer_value(ctx: &BinTable, row_data: &[DataValue], idx: usize) -> Option<Option<i32>> {
+    match ctx.field_value(row_data, idx)? {
+        DataValue::UnsignedByte { value, .. } => Some(Some(*value as i32)),
+        DataValue::Short { value, .. } => Some(Some(*value as i32)),
+        DataValue::Integer { value, .. } => Some(Some(*value)),
+        DataValue::Long { value, .. } => Some(i32::try_from(*value).ok()),
+        _ => None,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::hdu::data::bintable::data::BinaryTableData;
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..70f58e9 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -1,15 +1,15 @@
 use flate2::read::GzDecoder;
 
 use super::super::DataValue;
-use super::dithering::RAND_VALUES;
-use super::rice::RICEDecoder;
+use super::rice::{RICEDecoder, RICE};
 use super::{
-    F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc, U8Keywords,
+    F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, TileDesc, U8Keywords,
 };
 use crate::error::Error;
-use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
+use crate::hdu::header::extension::bintable::{BinTable, TFormType, TileCompressedImage, ZCmpType};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -45,15 +45,16 @@ where
 {
     /// An iterator over the row of a binary table
     pub row_it: TableRowData<R>,
-    /// A buffer for storing uncompressed data from GZIP1, GZIP2 or RICE
-    buf: Vec<u8>,
+    /// A buffer for storing the uncompressed pixels of the current tile
+    buf: Vec<i32>,
 
     /// Current tile pointer
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
+    /// The field storing the compressed tiles
     data_compressed_idx: usize,
 }
 
@@ -75,297 +76,247 @@ where
         mut data: TableData<R>,
         config: &TileCompressedImage,
     ) -> Self {
-        // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
+            z_naxisn,
             z_tilen,
             z_cmp_type,
             data_compressed_idx,
             ..
         } = config;
-        // Allocation of a buffer at init of the iterator that is the size of the biggest tiles we can found
-        // on the tile compressed image. This is simply given by the ZTILEi keyword.
-        // Some tiles found on the border of the image can be smaller
-        let n_elems_max = z_tilen.iter().product::<usize>();
-
-        // FIXME
-        // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
-        // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
-        // n_elems_max * size_in_bytes of u32.
-        // It seems to be the same for RICE, so the latter rice decompression code is called on i32
-        let num_bytes_max_tile = n_elems_max * std::mem::size_of::<u32>();
-
-        let buf = vec![0_u8; num_bytes_max_tile];
 
         let desc = TileDesc::new(header, config);
 
         // do not read the heap, we will manage our way decompressing the tiles
         data.read_the_heap(false);
         Self {
-            buf,
+            buf: vec![],
             row_it: data.row_iter(),
 
             desc,
 
             data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
         }
     }
 }
 
-/*
-/// Compute the size of the tile from its row position inside the compressed data column
-/// FIXME: optimize this computation by using memoization
-pub(crate) fn tile_size_from_row_idx(
-    z_tile: &[usize],
-    z_naxis: &[usize],
-    n: usize,
-) -> Box<[usize]> {
-    let d = z_tile.len();
-
-    if d == 0 {
-        // There must be at least one dimension
-        unreachable!();
-    } else {
-        let mut u = vec![0_usize; z_tile.len()];
-
-        let s = z_naxis
-            .iter()
-            .zip(z_tile.iter())
-            .map(|(naxisi, tilei)| naxisi.div_ceil(*tilei))
-            .collect::<Vec<_>>();
-
-        // Compute the position inside the first dimension
-        u[0] = n % s[0];
-
-        for i in 1..d {
-            u[i] = n
-                - u[0]
-                - (1..i)
-                    .map(|k| {
-                        let prod_sk = s.iter().take(k).product::<usize>();
-                        u[k] * prod_sk
-                    })
-                    .sum::<usize>();
-
-            let prod_si = s.iter().take(i).product::<usize>();
-
-            u[i] = (u[i] / prod_si) % s[i];
-        }
+/// Compute the number of pixels of the n-th tile. The tiles at the border of the image can be smaller
+fn tile_num_pixels(z_tile: &[usize], z_naxis: &[u64], n: usize) -> Option<u64> {
+    // There must be at least one dimension
+    if z_naxis.is_empty() || z_naxis.contains(&0) {
+        return None;
+    }
 
-        u.iter()
-            .zip(z_naxis.iter().zip(z_tile.iter()))
-            .map(|(&u_i, (&naxis, &tilez))| tilez.min(naxis - u_i * tilez))
-            .collect()
+    let mut n = n as u64;
+    let mut num_pixels = 1_u64;
+    for (&tile, &naxis) in z_tile.iter().zip(z_naxis) {
+        let tile = tile as u64;
+        let num_tiles = naxis.div_ceil(tile);
+        // position of the tile along that axis
+        let i = n % num_tiles;
+        n /= num_tiles;
+
+        num_pixels = num_pixels.checked_mul(tile.min(naxis - i * tile))?;
     }
+
+    // There are more rows than tiles otherwise
+    (n == 0).then_some(num_pixels)
 }
-    */
 
 use std::fmt::Debug;
-impl<R> Iterator for It<R, U8Keywords>
+impl<R, K> It<R, K>
 where
     R: Read + Seek + Debug,
+    K: Keywords,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
-    type Item = u8;
-
-    fn next(&mut self) -> Option<Self::Item> {
-        // We first retrieve the whole row from the row data iterator
-        if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
+    /// Read the next row of the table and decompress its tile into the internal buffer
+    ///
+    /// Returns the row, or `None` if there are no more tiles or if the tile cannot be decompressed
+    fn next_tile(&mut self) -> Option<Box<[DataValue]>> {
+        let row_data = self.row_it.next()?;
+
+        if self.decompress_tile(&row_data).is_err() {
+            self.row_it.finish();
+            return None;
+        }
 
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
+        Some(row_data)
+    }
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
+    fn decompress_tile(&mut self, row_data: &[DataValue]) -> Result<(), Error> {
+        let ctx = self.row_it.get_ctx();
+        let (num_elems, byte_offset) = match ctx
+            .field_value(row_data, self.data_compressed_idx)
+            .ok_or(Error::StaticError("No compressed data in the row"))?
+        {
+            DataValue::VariableLengthArray32 {
+                num_elems,
+                offset_byte,
+            } => (*num_elems as u64, *offset_byte as u64),
+            DataValue::VariableLengthArray64 {
+                num_elems,
+                offset_byte,
+            } => (*num_elems, *offset_byte),
+            _ => return Err(Error::StaticError("Compressed data is not an array")),
+        };
+        let t_byte_size = match ctx.tforms[self.data_compressed_idx] {
+            TFormType::P { t_byte_size, .. } | TFormType::Q { t_byte_size, .. } => t_byte_size,
+            _ => return Err(Error::StaticError("Compressed data is not an array")),
+        };
+        let num_bytes = num_elems.saturating_mul(t_byte_size);
+
+        let num_pixels =
+            tile_num_pixels(&self.z_tile, &self.z_naxis, self.row_it.get_row_idx() - 1)
+                .ok_or(Error::StaticError("The tile is not in the image"))?;
+
+        // We jump to the heap at the position of the tile
+        // Then we decomp the tile and store it into out internal buf
+        // Finally we go back to the main data table location before jumping to the heap
+        let pos = SeekFrom::Start(self.row_it.get_heap_position(byte_offset)?);
+        self.jump_to_location(
+            |s| {
+                let It { buf, row_it, .. } = s;
+
+                let reader = row_it.get_reader().by_ref().take(num_bytes);
+
+                buf.clear();
+                match s.z_cmp_type {
+                    ZCmpType::Gzip1 => read_gzip(reader, num_pixels, false, buf),
+                    ZCmpType::Gzip2 => read_gzip(reader, num_pixels, true, buf),
+                    // FIXME support bytepix
+                    ZCmpType::Rice { blocksize, .. } => {
+                        read_rice::<_, i32>(reader, blocksize, num_pixels, buf)
                     }
+                    // Other compression not supported, when parsing the bintable extension keywords
+                    // we ensured that z_image is `None` for other compressions than GZIP or RICE
+                    _ => unreachable!(),
+                }
+            },
+            pos,
+        )?;
 
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
-        }
+        // Update the tile compressed currently decompressed
+        self.desc.n_pixels = num_pixels;
+        self.desc.remaining_pixels = num_pixels;
 
-        // There is remaining pixels inside our buffer, we simply return the current one
+        Ok(())
+    }
+
+    /// The next pixel of the current tile
+    fn next_pixel(&mut self) -> i32 {
         let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
+        self.desc.remaining_pixels -= 1;
 
-        let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                self.buf[off + 3]
-            }
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                self.buf[off]
+        self.buf[idx]
+    }
+}
+
+/// Decompress a gzip tile. Its pixels are big endian integers of 1, 2 or 4 bytes
+///
+/// * `shuffled` - GZIP_2 case, all the most significant bytes come first, the least significant ones at last
+fn read_gzip<R: Read>(
+    reader: R,
+    num_pixels: u64,
+    shuffled: bool,
+    buf: &mut Vec<i32>,
+) -> Result<(), Error> {
+    let mut bytes = vec![];
+    // one more byte than the biggest tile, so that a longer one is detected
+    let max_size = num_pixels.saturating_mul(4).saturating_add(1);
+    GzDecoder::new(reader)
+        .take(max_size)
+        .read_to_end(&mut bytes)?;
+
+    let n = num_pixels as usize;
+    let size = bytes.len() / n;
+    if !bytes.len().is_multiple_of(n) || !matches!(size, 1 | 2 | 4) {
+        return Err(Error::StaticError(
+            "The tile does not have the expected size",
+        ));
+    }
+
+    buf.extend((0..n).map(|i| {
+        let byte = |k| {
+            if shuffled {
+                bytes[k * n + i]
+            } else {
+                bytes[i * size + k]
             }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
         };
-        self.desc.remaining_pixels -= 1;
+        match size {
+            1 => byte(0) as i32,
+            2 => i16::from_be_bytes([byte(0), byte(1)]) as i32,
+            _ => i32::from_be_bytes([byte(0), byte(1), byte(2), byte(3)]),
+        }
+    }));
 
-        Some(value)
+    Ok(())
+}
+
+/// Decompress a RICE tile
+fn read_rice<R: Read, T: RICE>(
+    reader: R,
+    blocksize: u8,
+    num_pixels: u64,
+    buf: &mut Vec<i32>,
+) -> Result<(), Error> {
+    let nx = i32::try_from(num_pixels).map_err(|_| Error::StaticError("The tile is too big"))?;
+    if blocksize == 0 {
+        return Err(Error::StaticError("The block size must be positive"));
+    }
+
+    let mut rice = RICEDecoder::<_, T>::new(reader, blocksize as i32, nx);
+
+    // Decode some blocks at a time, the tile may be shorter than what is said in the header
+    let chunk_size = 1024 * (blocksize as usize);
+    let mut remaining = num_pixels as usize;
+    let mut bytes = vec![0_u8; remaining.min(chunk_size) * T::size_of()];
+    while remaining > 0 {
+        let n = remaining.min(chunk_size);
+        let chunk = &mut bytes[..n * T::size_of()];
+        rice.read_exact(chunk)?;
+        buf.extend(chunk.chunks_exact(T::size_of()).map(|b| T::from_ne_bytes(b)));
+        remaining -= n;
     }
+
+    Ok(())
 }
 
-impl<R> Iterator for It<R, I16Keywords>
+impl<R> Iterator for It<R, U8Keywords>
 where
     R: Read + Seek + Debug,
 {
     // Return a vec of fields because to take into account the repeat count value for that field
-    type Item = i16;
+    type Item = u8;
 
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
+            self.next_tile()?;
+        }
 
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
+        // There is remaining pixels inside our buffer, we simply return the current one
+        Some(self.next_pixel() as u8)
+    }
+}
 
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
+impl<R> Iterator for It<R, I16Keywords>
+where
+    R: Read + Seek + Debug,
+{
+    // Return a vec of fields because to take into account the repeat count value for that field
+    type Item = i16;
 
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+    fn next(&mut self) -> Option<Self::Item> {
+        // We first retrieve the whole row from the row data iterator
+        if self.desc.remaining_pixels == 0 {
+            self.next_tile()?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let off = 4 * idx;
-                (self.buf[off + 3] as i16) | ((self.buf[off + 2] as i16) << 8)
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                (self.buf[3 * step_msb + idx] as i16) | ((self.buf[2 * step_msb + idx] as i16) << 8)
-            }
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                (self.buf[off] as i16) | ((self.buf[off + 1] as i16) << 8)
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        Some(self.next_pixel() as i16)
     }
 }
 
@@ -379,111 +330,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.next_tile()?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                i32::from_be_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ])
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                ((self.buf[idx] as i32) << 24)
-                    | ((self.buf[idx + step_msb] as i32) << 16)
-                    | ((self.buf[idx + 2 * step_msb] as i32) << 8)
-                    | (self.buf[idx + 3 * step_msb] as i32)
-            }
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                i32::from_ne_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ])
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        Some(self.next_pixel())
     }
 }
 
@@ -497,171 +348,26 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
+            let row_data = self.next_tile()?;
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            let TileDesc {
-                keywords:
-                    F32Keywords {
-                        z_scale_idx,
-                        z_zero_idx,
-                        scale,
-                        zero,
-                        z_dither_0,
-                        z_quantiz,
-                        quantiz,
-                        z_blank_idx,
-                        z_blank,
-                    },
-                ..
-            } = &mut self.desc;
-
-            *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
-                _ => Quantiz::NoDither,
-            };
-
-            *scale = match row_data[*z_scale_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
-
-            *zero = match row_data[*z_zero_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
-
-            if let Some(idx) = z_blank_idx {
-                *z_blank = match row_data[*idx] {
-                    DataValue::UnsignedByte { value, .. } => Some(value as i32),
-                    DataValue::Short { value, .. } => Some(value as i32),
-                    DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
-                    _ => unreachable!(),
-                }
+            if self
+                .desc
+                .keywords
+                .read_row(ctx, &row_data, row_idx)
+                .is_none()
+            {
+                // the scaling of that tile is not known
+                self.desc.remaining_pixels = 0;
+                self.row_it.finish();
+                return None;
             }
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            // 32-bit floating point
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_be_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-                self.desc.keywords.unquantize(value)
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                let value = ((self.buf[idx] as i32) << 24)
-                    | ((self.buf[idx + step_msb] as i32) << 16)
-                    | ((self.buf[idx + 2 * step_msb] as i32) << 8)
-                    | (self.buf[idx + 3 * step_msb] as i32);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // 32-bit floating point
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_ne_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        let value = self.next_pixel();
+        Some(self.desc.keywords.unquantize(value))
     }
 }
 
@@ -675,171 +381,26 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
+            let row_data = self.next_tile()?;
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            let TileDesc {
-                keywords:
-                    F64Keywords {
-                        z_scale_idx,
-                        z_zero_idx,
-                        scale,
-                        zero,
-                        z_dither_0,
-                        z_quantiz,
-                        quantiz,
-                        z_blank_idx,
-                        z_blank,
-                    },
-                ..
-            } = &mut self.desc;
-
-            *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
-                _ => Quantiz::NoDither,
-            };
-
-            *scale = match row_data[*z_scale_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
-
-            *zero = match row_data[*z_zero_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
-
-            if let Some(idx) = z_blank_idx {
-                *z_blank = match row_data[*idx] {
-                    DataValue::UnsignedByte { value, .. } => Some(value as i32),
-                    DataValue::Short { value, .. } => Some(value as i32),
-                    DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
-                    _ => unreachable!(),
-                }
+            if self
+                .desc
+                .keywords
+                .read_row(ctx, &row_data, row_idx)
+                .is_none()
+            {
+                // the scaling of that tile is not known
+                self.desc.remaining_pixels = 0;
+                self.row_it.finish();
+                return None;
             }
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            // 32-bit floating point
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_be_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-                self.desc.keywords.unquantize(value)
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                let value = ((self.buf[idx] as i32) << 24)
-                    | ((self.buf[idx + step_msb] as i32) << 16)
-                    | ((self.buf[idx + 2 * step_msb] as i32) << 8)
-                    | (self.buf[idx + 3 * step_msb] as i32);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // 32-bit floating point
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_ne_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        let value = self.next_pixel();
+        Some(self.desc.keywords.unquantize(value))
     }
 }
 
@@ -856,9 +417,9 @@ where
         let old_pos = SeekFrom::Start(self.get_reader().stream_position()?);
 
         self.get_reader().seek(pos)?;
-        f(self)?;
+        let res = f(self);
         let _ = self.get_reader().seek(old_pos)?;
 
-        Ok(())
+        res
     }
 }
diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..9c30f1f 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -94,33 +94,48 @@ impl<R, T> RICEDecoder<R, T> {
 
 use std::io::Error;
 use std::io::Read;
-trait FromBytes {
+pub(crate) trait FromBytes {
     fn from_be_bytes<R: Read>(reader: &mut R) -> Result<Self, Error>
     where
         Self: Sized;
+
+    /// The value of a decoded pixel
+    fn from_ne_bytes(bytes: &[u8]) -> i32;
 }
 
 impl FromBytes for u8 {
     fn from_be_bytes<R: Read>(reader: &mut R) -> Result<Self, Error> {
         reader.read_u8()
     }
+
+    fn from_ne_bytes(bytes: &[u8]) -> i32 {
+        bytes[0] as i32
+    }
 }
 
 impl FromBytes for i16 {
     fn from_be_bytes<R: Read>(reader: &mut R) -> Result<Self, Error> {
         reader.read_i16::<BigEndian>()
     }
+
+    fn from_ne_bytes(bytes: &[u8]) -> i32 {
+        i16::from_ne_bytes([bytes[0], bytes[1]]) as i32
+    }
 }
 
 impl FromBytes for i32 {
     fn from_be_bytes<R: Read>(reader: &mut R) -> Result<Self, Error> {
         reader.read_i32::<BigEndian>()
     }
+
+    fn from_ne_bytes(bytes: &[u8]) -> i32 {
+        i32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]])
+    }
 }
 
 /// A trait to define constant for possible output types from a
 /// RICE decoder/encoder
-trait RICE: Sized + Into<i32> + FromBytes {
+pub(crate) trait RICE: Sized + Into<i32> + FromBytes {
     const FSBITS: i32;
     const FSMAX: i32;
     const BBITS: i32 = 1 << Self::FSBITS;
@@ -285,7 +300,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -342,7 +357,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index b7607c9..bad0fd3 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -1,6 +1,7 @@
 use std::fmt::Debug;
 
 use crate::error::Error;
+use crate::hdu::data::bintable::DataValue;
 use crate::hdu::header::Bitpix;
 use crate::hdu::Value;
 use async_trait::async_trait;
@@ -89,6 +90,24 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Get the first value of a field from a row whose heap has not been read
+    pub(crate) fn field_value<'a>(
+        &self,
+        row_data: &'a [DataValue],
+        idx: usize,
+    ) -> Option<&'a DataValue> {
+        let tform = self.tforms.get(idx)?;
+        if tform.num_values_field() == 0 {
+            return None;
+        }
+
+        let first = self.tforms[..idx]
+            .iter()
+            .map(|tform| tform.num_values_field())
+            .sum::<usize>();
+        row_data.get(first)
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
@@ -318,6 +337,11 @@ impl Xtension for BinTable {
                     1
                 };
 
+                if tilen == 0 {
+                    warn!("ZTILEN must be positive. Tile compressed image discarded");
+                    break;
+                }
+
                 z_naxisn.push(znaxisn);
                 z_tilen.push(tilen as usize)
             }
@@ -475,6 +499,11 @@ impl Xtension for BinTable {
             })
             .unzip();
 
+        // The scaling of the quantized floating point pixels, given for each tile or in the header
+        let scaled = ["ZSCALE", "ZZERO"].iter().all(|kw| {
+            find_field_by_ttype(&ttypes, kw).is_some() || values.get_parsed::<f32>(kw).is_ok()
+        });
+
         let data_compressed_idx = find_field_by_ttype(&ttypes, "COMPRESSED_DATA")
             // Find for a GZIP_DATA_COMPRESSED named field
             .or(find_field_by_ttype(&ttypes, "GZIP_COMPRESSED_DATA"));
@@ -511,6 +540,10 @@ impl Xtension for BinTable {
                     warn!("PLI0_1 compression not supported");
                     None
                 }
+                (_, Bitpix::F32 | Bitpix::F64) if !scaled => {
+                    warn!("Floating point pixels without ZSCALE and ZZERO are not supported");
+                    None
+                }
                 (_, Bitpix::I64) => {
                     warn!("Only bitpix u8, i16, i32, f32, f64 are supported");
                     None
@@ -807,6 +840,26 @@ impl TFormType {
         }
     }
 
+    /// Number of values of the field in a row, an array descriptor counts for one
+    pub(crate) fn num_values_field(&self) -> usize {
+        match self {
+            TFormType::X { .. } => self.num_bytes_field(),
+            TFormType::L { repeat_count }
+            | TFormType::B { repeat_count }
+            | TFormType::I { repeat_count }
+            | TFormType::J { repeat_count }
+            | TFormType::K { repeat_count }
+            | TFormType::A { repeat_count }
+            | TFormType::E { repeat_count }
+            | TFormType::D { repeat_count }
+            | TFormType::C { repeat_count }
+            | TFormType::M { repeat_count } => *repeat_count,
+            TFormType::P { repeat_count, .. } | TFormType::Q { repeat_count, .. } => {
+                *repeat_count.min(&1)
+            }
+        }
+    }
+
     pub(crate) fn num_bytes_field(&self) -> usize {
         self.num_bits_field().div_ceil(8)
     }
-- 
2.43.0


From 663fa2b2c4dd2124c11aba67ed6c92f38e61d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:20 +0000
Subject: [PATCH 13/26] fix: RICE tiles of 1 or 2 bytes per pixel are decoded
 as 4 bytes ones

---
 .../data/bintable/tile_compressed/pixels.rs   |  9 +++---
 src/hdu/header/extension/bintable.rs          | 29 ++++++++++++-------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 70f58e9..783f920 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -185,10 +185,11 @@ where
                 match s.z_cmp_type {
                     ZCmpType::Gzip1 => read_gzip(reader, num_pixels, false, buf),
                     ZCmpType::Gzip2 => read_gzip(reader, num_pixels, true, buf),
-                    // FIXME support bytepix
-                    ZCmpType::Rice { blocksize, .. } => {
-                        read_rice::<_, i32>(reader, blocksize, num_pixels, buf)
-                    }
+                    ZCmpType::Rice { blocksize, bytepix } => match bytepix {
+                        1 => read_rice::<_, u8>(reader, blocksize, num_pixels, buf),
+                        2 => read_rice::<_, i16>(reader, blocksize, num_pixels, buf),
+                        _ => read_rice::<_, i32>(reader, blocksize, num_pixels, buf),
+                    },
                     // Other compression not supported, when parsing the bintable extension keywords
                     // we ensured that z_image is `None` for other compressions than GZIP or RICE
                     _ => unreachable!(),
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index bad0fd3..2ba7621 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -253,12 +253,10 @@ impl Xtension for BinTable {
                 "GZIP_1" => Some(ZCmpType::Gzip1),
                 "GZIP_2" => Some(ZCmpType::Gzip2),
                 "RICE_1" | "RICE_ONE" => {
-                    // Retrieve the block size
-                    let blocksize = values
-                        .iter()
-                        .find_map(|(zname, val)| {
+                    let find_parameter = |name: &str| {
+                        values.iter().find_map(|(zname, val)| {
                             if let Value::String { value, .. } = val {
-                                if value == "BLOCKSIZE" && zname.starts_with("ZNAME") {
+                                if value == name && zname.starts_with("ZNAME") {
                                     let zval = zname.replace("NAME", "VAL");
 
                                     values.get_parsed(&zval).ok()
@@ -269,13 +267,22 @@ impl Xtension for BinTable {
                                 None
                             }
                         })
-                        // Default value: 32
-                        .unwrap_or(32);
-
-                    // FIXME: implement RICE parsing for BYTEPIX != 4
-                    let bytepix = 4;
+                    };
 
-                    Some(ZCmpType::Rice { blocksize, bytepix })
+                    // Retrieve the block size
+                    // Default value: 32
+                    let blocksize = find_parameter("BLOCKSIZE").unwrap_or(32);
+
+                    // Retrieve the number of bytes per pixel
+                    // Default value: 4
+                    let bytepix = find_parameter("BYTEPIX").unwrap_or(4);
+
+                    if matches!(bytepix, 1 | 2 | 4) {
+                        Some(ZCmpType::Rice { blocksize, bytepix })
+                    } else {
+                        warn!("BYTEPIX is not valid. The tile compressed image column will be discarded if any");
+                        None
+                    }
                 }
                 "PLI0_1" => Some(ZCmpType::PLI0_1),
                 "HCOMPRESS_1" => Some(ZCmpType::Hcompress1),
-- 
2.43.0


From 8d16848d231a486026139337b2a9e183b3e68942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:44 +0000
Subject: [PATCH 14/26] fix: the quantization method of a tile compressed image
 is never recognized, its dithering is ignored

---
 src/card.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index 2bce5dd..8b176d2 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -6,7 +6,7 @@ pub type Keyword = [u8; 8];
 /// Holds 80 bytes of ASCII characters, i.e. one line in a FITS compliant file.
 pub type CardBuf = [u8; 80];
 
-use serde::de::IntoDeserializer;
+use serde::de::{value::StrDeserializer, IntoDeserializer};
 use serde::{forward_to_deserialize_any, Deserializer, Serialize};
 
 /// Enum representing the variants of a single 80 character line in the header.
@@ -501,9 +501,28 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            // a string is the name of a variant
+            Value::String { value, comment: _ } => {
+                let variant: StrDeserializer<'_, Error> = value.as_str().into_deserializer();
+                variant.deserialize_enum(name, variants, visitor)
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From afa8574dd0c67410a523d6b957a466c157eebe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:08 +0000
Subject: [PATCH 15/26] fix: the random sequence of the dithering does not
 start nor restart where it was when the tile was quantized

---
 src/hdu/data/bintable/tile_compressed/mod.rs | 64 ++++++++++++--------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 45f1fd0..73b4c67 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -116,10 +116,10 @@ impl F64Keywords {
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
                 // the blank pixels have their random value as well
-                if let Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } =
-                    &mut self.quantiz
+                if let Quantiz::SubtractiveDither1 { i0, i1 }
+                | Quantiz::SubtractiveDither2 { i0, i1 } = &mut self.quantiz
                 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
+                    next_random(i0, i1);
                 }
 
                 return f32::NAN;
@@ -128,23 +128,23 @@ impl F64Keywords {
 
         match &mut self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
+            Quantiz::SubtractiveDither1 { i0, i1 } => {
                 let ri = RAND_VALUES[*i1];
                 // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
+                next_random(i0, i1);
 
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { i0, i1 } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
+                    next_random(i0, i1);
 
                     0.0
                 } else {
                     let ri = RAND_VALUES[*i1];
                     // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
+                    next_random(i0, i1);
 
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
@@ -177,10 +177,10 @@ impl F32Keywords {
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
                 // the blank pixels have their random value as well
-                if let Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } =
-                    &mut self.quantiz
+                if let Quantiz::SubtractiveDither1 { i0, i1 }
+                | Quantiz::SubtractiveDither2 { i0, i1 } = &mut self.quantiz
                 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
+                    next_random(i0, i1);
                 }
 
                 return f32::NAN;
@@ -189,23 +189,23 @@ impl F32Keywords {
 
         match &mut self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
+            Quantiz::SubtractiveDither1 { i0, i1 } => {
                 let ri = RAND_VALUES[*i1];
                 // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
+                next_random(i0, i1);
 
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { i0, i1 } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
+                    next_random(i0, i1);
 
                     0.0
                 } else {
                     let ri = RAND_VALUES[*i1];
                     // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
+                    next_random(i0, i1);
 
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
@@ -252,7 +252,7 @@ impl Keywords for F32Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -295,7 +295,7 @@ impl Keywords for F64Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -348,25 +348,41 @@ impl Keywords for I32Keywords {
 #[derive(Debug)]
 enum Quantiz {
     NoDither,
-    SubtractiveDither1 { i1: usize },
-    SubtractiveDither2 { i1: usize },
+    SubtractiveDither1 { i0: usize, i1: usize },
+    SubtractiveDither2 { i0: usize, i1: usize },
 }
 
 impl Quantiz {
     /// * `row_idx` - Number of the row of the tile, the first one is 1
     fn new(z_quantiz: &ZQuantiz, z_dither_0: i64, row_idx: usize) -> Self {
         let n_random = N_RANDOM as i64;
-        let i0 = ((row_idx as i64 - 1) + z_dither_0.rem_euclid(n_random)) % n_random;
-        let i1 = (RAND_VALUES[i0 as usize] * 500.0).floor() as usize;
+        // ZDITHER0 starts from 1, as the number of the row does
+        let i0 = ((row_idx as i64 - 1) + z_dither_0.wrapping_sub(1).rem_euclid(n_random)) % n_random;
+        let i0 = i0 as usize;
+        let i1 = first_random(i0);
 
         match z_quantiz {
-            ZQuantiz::SubtractiveDither1 => Self::SubtractiveDither1 { i1 },
-            ZQuantiz::SubtractiveDither2 => Self::SubtractiveDither2 { i1 },
+            ZQuantiz::SubtractiveDither1 => Self::SubtractiveDither1 { i0, i1 },
+            ZQuantiz::SubtractiveDither2 => Self::SubtractiveDither2 { i0, i1 },
             ZQuantiz::NoDither => Self::NoDither,
         }
     }
 }
 
+/// Position in the random sequence of the first value to use, for an initial offset `i0`
+fn first_random(i0: usize) -> usize {
+    (RAND_VALUES[i0] * 500.0).floor() as usize
+}
+
+/// Go to the next random value. At the end of the sequence, it starts again from the next offset
+fn next_random(i0: &mut usize, i1: &mut usize) {
+    *i1 += 1;
+    if *i1 == N_RANDOM {
+        *i0 = (*i0 + 1) % N_RANDOM;
+        *i1 = first_random(*i0);
+    }
+}
+
 /// The floating point value of a field of a row
 fn float_value(ctx: &BinTable, row_data: &[DataValue], idx: usize) -> Option<f32> {
     match ctx.field_value(row_data, idx)? {
-- 
2.43.0


From a1a44e33002c94225036e1e4cd27f63c227fd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:16 +0000
Subject: [PATCH 16/26] fix: the async readers lose bytes when their source is
 not ready in the middle of a header, a skip or a pixel

---
 src/async_fits.rs      |  79 +++++++++++++++++----------
 src/hdu/data/stream.rs |  88 +++++++++++++++++++++---------
 src/hdu/mod.rs         | 121 ++++++++++++++++++++++++++++-------------
 3 files changed, 193 insertions(+), 95 deletions(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..8c5aa77 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -20,9 +20,12 @@ pub struct AsyncFits<R> {
     // Store the number of bytes that remains to read so that the current HDU data finishes
     // When getting the next HDU, we will first consume those bytes if there are some
     num_remaining_bytes_in_cur_hdu: usize,
-    // Keep track of the number of total bytes for the current HDU as we might
-    // skip the trailing bytes to get to a multiple of 2880 bytes
-    num_bytes_in_cur_hdu: usize,
+    // Number of trailing bytes that remain to skip after the data of the current HDU
+    // to get to a multiple of 2880 bytes
+    num_remaining_padding_bytes: usize,
+    // The part of the next header already read. The reader may not be ready in the middle of it
+    #[serde(skip)]
+    header_reader: hdu::AsyncHeaderReader,
     // If an error has been encountered, the HDU iterator ends
     error_parsing_encountered: bool,
     reader: R,
@@ -37,7 +40,8 @@ impl<R> AsyncFits<R> {
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu: 0,
-            num_bytes_in_cur_hdu: 0,
+            num_remaining_padding_bytes: 0,
+            header_reader: hdu::AsyncHeaderReader::default(),
             error_parsing_encountered: false,
             start: true,
         }
@@ -54,39 +58,41 @@ where
 {
     /// Returns a boolean to know if we are at EOF
     async fn consume_until_next_hdu(&mut self) -> Result<bool, Error> {
+        // The counters are kept up to date after each read, so that this can be called again
+        // if the reader is not ready
+
         // 1. Check if there are still bytes to be read to get to the end of data
-        if self.num_remaining_bytes_in_cur_hdu > 0 {
+        while self.num_remaining_bytes_in_cur_hdu > 0 {
             // Then read them
-            <R as AsyncDataBufRead<'_, Image>>::read_n_bytes_exact(
-                &mut self.reader,
-                self.num_remaining_bytes_in_cur_hdu as u64,
-            )
-            .await?;
+            let num_bytes = self.reader.fill_buf().await?.len();
+            if num_bytes == 0 {
+                return Err(Error::StaticError("The file has reached EOF"));
+            }
+
+            let num_bytes = num_bytes.min(self.num_remaining_bytes_in_cur_hdu);
+            self.reader.consume_unpin(num_bytes);
+            self.num_remaining_bytes_in_cur_hdu -= num_bytes;
         }
 
         // 2. We are at the end of the real data. As FITS standard stores data in block of 2880 bytes
         // we must read until the next block of data to get the location of the next HDU
 
-        let is_remaining_bytes = !self.num_bytes_in_cur_hdu.is_multiple_of(2880);
         // Skip the remaining bytes to set the reader where a new HDU begins
-        if is_remaining_bytes {
-            let mut block_mem_buf: [u8; 2880] = [0; 2880];
-
-            let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
-            match self
-                .reader
-                .read_exact(&mut block_mem_buf[..num_off_bytes])
-                .await
-            {
-                // An error like unexpected EOF is not permitted by the standard but we make it pass
+        while self.num_remaining_padding_bytes > 0 {
+            let num_bytes = self.reader.fill_buf().await?.len();
+            if num_bytes == 0 {
+                // An unexpected EOF is not permitted by the standard but we make it pass
                 // interpreting it as the last HDU in the file
-                Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(true),
-                Err(e) => return Err(e.into()),
-                Ok(()) => {}
+                return Ok(true);
             }
+
+            let num_bytes = num_bytes.min(self.num_remaining_padding_bytes);
+            self.reader.consume_unpin(num_bytes);
+            self.num_remaining_padding_bytes -= num_bytes;
         }
 
-        let eof = self.reader.fill_buf().await?.is_empty();
+        // It cannot be the end once the next header has begun
+        let eof = self.header_reader.is_empty() && self.reader.fill_buf().await?.is_empty();
         Ok(eof)
     }
 
@@ -142,8 +148,12 @@ where
                     Ok(eof) => {
                         if !eof {
                             // parse the extension HDU
-                            let r = &mut self.reader;
-                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(r);
+                            let Self {
+                                reader,
+                                header_reader,
+                                ..
+                            } = &mut *self;
+                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(reader, header_reader);
                             match std::pin::pin!(parse_x_hdu).poll(cx) {
                                 Poll::Pending => return Poll::Pending,
                                 // the future finished, returning the parsed hdu or the error while parsing it
@@ -157,7 +167,12 @@ where
                 }
             } else {
                 // parse the primary HDU
-                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut self.reader);
+                let Self {
+                    reader,
+                    header_reader,
+                    ..
+                } = &mut *self;
+                let parse_first_hdu = hdu::AsyncHDU::new_primary(reader, header_reader);
                 match std::pin::pin!(parse_first_hdu).poll(cx) {
                     Poll::Pending => return Poll::Pending,
                     // the future finished, returning the parsed hdu or the error while parsing it
@@ -169,7 +184,7 @@ where
 
             match hdu {
                 Some(Ok(hdu)) => {
-                    self.num_bytes_in_cur_hdu = match &hdu {
+                    let num_bytes_in_cur_hdu = match &hdu {
                         hdu::AsyncHDU::XImage(h) | hdu::AsyncHDU::Primary(h) => {
                             let xtension = h.get_header().get_xtension();
                             xtension.get_num_bytes_data_block() as usize
@@ -184,7 +199,11 @@ where
                         }
                     };
 
-                    self.num_remaining_bytes_in_cur_hdu = self.num_bytes_in_cur_hdu;
+                    self.num_remaining_bytes_in_cur_hdu = num_bytes_in_cur_hdu;
+                    self.num_remaining_padding_bytes = match num_bytes_in_cur_hdu % 2880 {
+                        0 => 0,
+                        n => 2880 - n,
+                    };
 
                     Poll::Ready(Some(Ok(hdu)))
                 }
diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index ac9cd61..793bb7a 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -1,5 +1,4 @@
 use byteorder::ByteOrder;
-use futures::AsyncReadExt;
 
 /// An async iterator on the data array
 /// This is an enum whose content depends on the
@@ -28,6 +27,11 @@ where
 {
     pub reader: &'a mut R,
     pub num_remaining_bytes_in_cur_hdu: &'a mut usize,
+    /// Bytes of the next item already read, the reader may not be ready in the middle of an item
+    buf: [u8; 8],
+    num_bytes_in_buf: usize,
+    /// If an error has been encountered, the stream ends
+    error_encountered: bool,
     phantom: std::marker::PhantomData<T>,
 }
 
@@ -39,15 +43,58 @@ where
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu,
+            buf: [0; 8],
+            num_bytes_in_buf: 0,
+            error_encountered: false,
             phantom: std::marker::PhantomData,
         }
     }
+
+    fn is_finished(&self) -> bool {
+        self.error_encountered
+            || (*self.num_remaining_bytes_in_cur_hdu == 0 && self.num_bytes_in_buf == 0)
+    }
+
+    /// Read the bytes of the next item
+    ///
+    /// If the reader is not ready then the bytes already read are kept for the next call
+    fn poll_item(
+        &mut self,
+        cx: &mut Context<'_>,
+        buf: &mut [u8],
+    ) -> Poll<Result<(), futures::io::Error>> {
+        while self.num_bytes_in_buf < buf.len() {
+            // never read past the data unit
+            let size =
+                (buf.len() - self.num_bytes_in_buf).min(*self.num_remaining_bytes_in_cur_hdu);
+            let dst = &mut self.buf[self.num_bytes_in_buf..][..size];
+            let res = match Pin::new(&mut *self.reader).poll_read(cx, dst) {
+                Poll::Pending => return Poll::Pending,
+                Poll::Ready(Ok(0)) => Err(futures::io::ErrorKind::UnexpectedEof.into()),
+                Poll::Ready(res) => res,
+            };
+            match res {
+                Ok(n) => {
+                    self.num_bytes_in_buf += n;
+                    *self.num_remaining_bytes_in_cur_hdu -= n;
+                }
+                Err(e) => {
+                    self.error_encountered = true;
+                    return Poll::Ready(Err(e));
+                }
+            }
+        }
+
+        buf.copy_from_slice(&self.buf[..buf.len()]);
+        self.num_bytes_in_buf = 0;
+
+        Poll::Ready(Ok(()))
+    }
 }
 
 use futures::task::Context;
 use futures::task::Poll;
 use futures::AsyncBufRead;
-use futures::Future;
 //use serde::Serialize;
 use std::pin::Pin;
 
@@ -64,18 +111,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 1];
 
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
-                    *self.num_remaining_bytes_in_cur_hdu -= 1;
                     Poll::Ready(Some(Ok(buf)))
                 }
             }
@@ -94,18 +139,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 2];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i16(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i16>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -124,19 +167,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i32>();
-
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -155,18 +195,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -185,18 +223,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_f32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f32>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -215,18 +251,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_f64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..5ebbb54 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -6,7 +6,7 @@ pub mod primary;
 use std::convert::TryFrom;
 use std::io::Seek;
 
-use futures::AsyncRead;
+use futures::{AsyncRead, AsyncReadExt};
 
 use crate::card::Card;
 use crate::card::CardBuf;
@@ -18,7 +18,6 @@ use crate::hdu::data::FitsRead;
 use crate::error::Error;
 
 use self::data::AsyncDataBufRead;
-use self::header::consume_next_card_async;
 use self::header::extension::asciitable::AsciiTable;
 use self::header::extension::bintable::BinTable;
 use self::header::extension::image::Image;
@@ -76,38 +75,82 @@ where
     Ok(cards)
 }
 
-async fn consume_cards_async<R>(
-    reader: &mut R,
-    num_bytes_read: &mut usize,
-) -> Result<Vec<Card>, Error>
-where
-    R: AsyncRead + std::marker::Unpin,
-{
-    let mut card_80_bytes_buf: CardBuf = [0; 80];
-    let mut cards = Vec::new();
+/// The part of a header already read by an async reader
+#[derive(Debug, Default)]
+pub(crate) struct AsyncHeaderReader {
+    num_bytes_read: usize,
+    card_80_bytes: Vec<u8>,
+    cards: Vec<Card>,
+}
 
-    /* Consume cards until `END` is reached */
-    loop {
-        consume_next_card_async(reader, &mut card_80_bytes_buf, num_bytes_read)
-            .await
-            // Precise the error that we did not encounter the END stopping card
-            .map_err(|_| {
-                Error::StaticError("Fail reading the header without encountering the END card")
-            })?;
-        if let Ok(card) = Card::try_from(&card_80_bytes_buf) {
-            cards.push(card);
-            if Some(&Card::End) == cards.last() {
-                break;
+impl AsyncHeaderReader {
+    pub(crate) fn is_empty(&self) -> bool {
+        self.num_bytes_read == 0
+    }
+
+    /// Consume the cards until `END` is reached, and the remaining bytes of its block.
+    ///
+    /// If the reader is not ready, what has been read is kept and the reading goes on at the next call.
+    ///
+    /// Returns the cards, with the number of bytes of the header
+    async fn consume_cards<R>(&mut self, reader: &mut R) -> Result<(Vec<Card>, usize), Error>
+    where
+        R: AsyncRead + std::marker::Unpin,
+    {
+        let mut buf: CardBuf = [0; 80];
+
+        /* Consume cards until `END` is reached */
+        while Some(&Card::End) != self.cards.last() {
+            let num_bytes = reader
+                .read(&mut buf[self.card_80_bytes.len()..])
+                .await
+                .unwrap_or(0);
+            if num_bytes == 0 {
+                // Precise the error that we did not encounter the END stopping card
+                return Err(Error::StaticError(
+                    "Fail reading the header without encountering the END card",
+                ));
+            }
+
+            let start = self.card_80_bytes.len();
+            self.card_80_bytes
+                .extend_from_slice(&buf[start..start + num_bytes]);
+            self.num_bytes_read += num_bytes;
+
+            if self.card_80_bytes.len() == buf.len() {
+                buf.copy_from_slice(&self.card_80_bytes);
+                self.card_80_bytes.clear();
+
+                // FIXME log warning
+                // preserve the unparsable header
+                self.cards.push(Card::try_from(&buf).unwrap_or_else(|_| {
+                    Card::Undefined(String::from_utf8_lossy(&buf).into_owned())
+                }));
             }
-        } else {
-            // FIXME log warning
-            // preserve the unparsable header
-            let card = Card::Undefined(String::from_utf8_lossy(&card_80_bytes_buf).into_owned());
-            cards.push(card);
         }
-    }
 
-    Ok(cards)
+        /* Skip the next bytes to a new 2880 multiple of bytes */
+        let mut block_mem_buf: [u8; 2880] = [0; 2880];
+        while !self.num_bytes_read.is_multiple_of(2880) {
+            let num_off_bytes = 2880 - (self.num_bytes_read % 2880);
+            let num_bytes = reader
+                .read(&mut block_mem_buf[..num_off_bytes])
+                .await
+                .unwrap_or(0);
+            if num_bytes == 0 {
+                return Err(Error::StaticError("EOF reached"));
+            }
+
+            self.num_bytes_read += num_bytes;
+        }
+
+        let Self {
+            num_bytes_read,
+            cards,
+            ..
+        } = std::mem::take(self);
+        Ok((cards, num_bytes_read))
+    }
 }
 
 impl HDU {
@@ -210,16 +253,17 @@ pub enum AsyncHDU {
 }
 
 impl AsyncHDU {
-    pub(crate) async fn new_xtension<'a, R>(reader: &mut R) -> Result<Self, Error>
+    pub(crate) async fn new_xtension<'a, R>(
+        reader: &mut R,
+        header_reader: &mut AsyncHeaderReader,
+    ) -> Result<Self, Error>
     where
         R: AsyncDataBufRead<'a, Image>
             + AsyncDataBufRead<'a, BinTable>
             + AsyncDataBufRead<'a, AsciiTable>
             + 'a,
     {
-        let mut num_bytes_read = 0;
-
-        let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
+        let (cards, mut num_bytes_read) = header_reader.consume_cards(reader).await?;
         // Check only the if the first card. Even if not FITS valid we could accept
         // it if its xtension card is down in the header.
         let hdu = match &cards[0] {
@@ -251,13 +295,14 @@ impl AsyncHDU {
         Ok(hdu)
     }
 
-    pub(crate) async fn new_primary<'a, R>(reader: &mut R) -> Result<Self, Error>
+    pub(crate) async fn new_primary<'a, R>(
+        reader: &mut R,
+        header_reader: &mut AsyncHeaderReader,
+    ) -> Result<Self, Error>
     where
         R: AsyncDataBufRead<'a, Image> + 'a,
     {
-        let mut num_bytes_read = 0;
-
-        let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
+        let (cards, mut num_bytes_read) = header_reader.consume_cards(reader).await?;
 
         // Check for SIMPLE keyword
         let _name: String = "SIMPLE".to_owned();
-- 
2.43.0


From 033a56b5c4314ac2394896af134ae6894afee461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:55 +0000
Subject: [PATCH 17/26] fix: the async reader accepts a primary header whose
 first card is not SIMPLE

---
 src/hdu/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 5ebbb54..f6d987d 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -305,16 +305,21 @@ impl AsyncHDU {
         let (cards, mut num_bytes_read) = header_reader.consume_cards(reader).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
-            Ok(AsyncHDU::Primary(
-                async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
-            ))
+            if name == "SIMPLE" {
+                Ok(AsyncHDU::Primary(
+                    async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
+                ))
+            } else {
+                Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )))
+            }
         } else {
             Err(Error::StaticError("not a FITSv4 file"))
         }
-- 
2.43.0


From ddf2e89b241e49a7e32de07c7918d16fcfa68b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:28 +0000
Subject: [PATCH 18/26] fix: the raw bytes of a truncated file panic

---
 src/hdu/data/bintable/data.rs | 5 +++--
 src/hdu/data/image.rs         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 40a9efa..e0aff9b 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -168,8 +168,9 @@ where
         let raw_bytes = inner.as_ref();
 
         let s = self.start_pos as usize;
-        let e = s + (self.ctx.get_num_bytes_data_block() as usize);
-        &raw_bytes[s..e]
+        // the file may be truncated
+        let e = s.saturating_add(self.ctx.get_num_bytes_data_block() as usize);
+        &raw_bytes[s.min(raw_bytes.len())..e.min(raw_bytes.len())]
     }
 }
 
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..a7c09ae 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -97,8 +97,9 @@ where
         let raw_bytes = inner.as_ref();
 
         let s = self.start_pos as usize;
-        let e = s + (self.num_bytes_data_block as usize);
-        &raw_bytes[s..e]
+        // the file may be truncated
+        let e = s.saturating_add(self.num_bytes_data_block as usize);
+        &raw_bytes[s.min(raw_bytes.len())..e.min(raw_bytes.len())]
     }
 }
 
-- 
2.43.0


From 9f35aa80f1177247ca2834772e445ae14e27db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:02 +0000
Subject: [PATCH 19/26] fix: pixels are read at the wrong place after a failed
 read

---
 src/hdu/data/iter.rs | 42 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/iter.rs b/src/hdu/data/iter.rs
index ccea367..1926ecd 100644
--- a/src/hdu/data/iter.rs
+++ b/src/hdu/data/iter.rs
@@ -53,6 +53,10 @@ pub struct It<R, T> {
     num_items: usize,
     /// Number of item read
     cur_idx: usize,
+    /// Number of bytes between the start of the items and the position of the reader
+    num_bytes_read: u64,
+    /// A read failed, the iterator ends until the reader is seeked to an item
+    error_encountered: bool,
     /// The type of element read from the reader
     _t: std::marker::PhantomData<T>,
 }
@@ -98,6 +102,8 @@ where
         Self {
             reader,
             cur_idx: 0,
+            num_bytes_read: 0,
+            error_encountered: false,
             num_items,
             _t: std::marker::PhantomData,
         }
@@ -112,17 +118,42 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cur_idx == self.num_items {
+        if self.cur_idx == self.num_items || self.error_encountered {
             None
         } else {
-            let byte = T::read_be(&mut self.reader);
-            self.cur_idx += 1;
+            let mut reader = CountingReader {
+                reader: &mut self.reader,
+                num_bytes_read: &mut self.num_bytes_read,
+            };
+            let byte = T::read_be(&mut reader);
+            match byte {
+                Ok(_) => self.cur_idx += 1,
+                Err(_) => self.error_encountered = true,
+            }
 
             byte.ok()
         }
     }
 }
 
+/// Keep track of the number of bytes read, even if an item cannot be fully read
+struct CountingReader<'a, R> {
+    reader: &'a mut R,
+    num_bytes_read: &'a mut u64,
+}
+
+impl<R> Read for CountingReader<'_, R>
+where
+    R: Read,
+{
+    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
+        let n = self.reader.read(buf)?;
+        *self.num_bytes_read += n as u64;
+
+        Ok(n)
+    }
+}
+
 use std::io::Seek;
 impl<R, T> It<R, T>
 where
@@ -140,10 +171,13 @@ where
         } else {
             // Get the position of the reader since the start of the stream
             let t_bytes = std::mem::size_of::<T>() as i64;
-            let off = (idx as i64 - self.cur_idx as i64) * t_bytes;
+            let pos = idx as i64 * t_bytes;
+            let off = pos - self.num_bytes_read as i64;
 
             self.reader.seek_relative(off)?;
+            self.num_bytes_read = pos as u64;
             self.cur_idx = idx;
+            self.error_encountered = false;
 
             self.next()
                 .ok_or(Error::StaticError("Value to retrieve is out of bounds"))
-- 
2.43.0


From 1042dccb7ae263d676332ec0cb879abf119569e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 20/26] fix: the image decoder leaves the pixels of tile
 compressed images in tile order

The iterator over a tile compressed image gives its pixels tile after tile.
The decoder wrote them one after the other, so every image whose tiles are
not whole rows came out scrambled.
---
 src/image_integration.rs | 49 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/src/image_integration.rs b/src/image_integration.rs
index 50c56d1..004b576 100644
--- a/src/image_integration.rs
+++ b/src/image_integration.rs
@@ -16,7 +16,7 @@ use crate::fits::HDU as FitsHDU;
 use crate::hdu::data::bintable::data::BinaryTableData;
 use crate::hdu::data::bintable::tile_compressed::pixels::Pixels as TcPixels;
 use crate::hdu::data::image::Pixels;
-use crate::hdu::header::extension::bintable::BinTable;
+use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage};
 use crate::hdu::header::extension::image::Image as FitsImage;
 use crate::hdu::header::Bitpix;
 use crate::{Fits, HDU};
@@ -207,6 +207,40 @@ fn write_splat<const P: usize>(buf: &mut [u8], iter: impl Iterator<Item = [u8; P
     }
 }
 
+/// Put the pixels of a tile-compressed image, which come tile after tile, in the order of the image
+fn untile<T: Clone + Default>(
+    mut iter: impl Iterator<Item = T>,
+    image: &TileCompressedImage,
+) -> std::vec::IntoIter<T> {
+    // at most 3 axes, completed with axes of one pixel
+    let axis = |i: usize| {
+        (
+            image.z_naxisn.get(i).map_or(1, |&n| n as usize),
+            image.z_tilen.get(i).map_or(1, |&n| n),
+        )
+    };
+    let ((nx, tx), (ny, ty), (nz, tz)) = (axis(0), axis(1), axis(2));
+
+    let mut pixels = vec![T::default(); nx * ny * nz];
+    for z0 in (0..nz).step_by(tz) {
+        for y0 in (0..ny).step_by(ty) {
+            for x0 in (0..nx).step_by(tx) {
+                for z in z0..nz.min(z0.saturating_add(tz)) {
+                    for y in y0..ny.min(y0.saturating_add(ty)) {
+                        let start = (z * ny + y) * nx;
+                        let row = start + x0..start + nx.min(x0.saturating_add(tx));
+                        for (dst, src) in pixels[row].iter_mut().zip(&mut iter) {
+                            *dst = src;
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    pixels.into_iter()
+}
+
 // The general idea of these conversions to an image suitable for viewing:
 // - ignore negative values
 // - assume images are already normalized to their pixel format max value
@@ -331,14 +365,17 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
             HduImageKind::TileCompressed(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
+                let Some(image) = hdu.get_header().get_xtension().get_z_image() else {
+                    return Err(to_image_error("tile-compressed HDU has no z_image"));
+                };
                 match self.fits.get_data(&hdu) {
                     BinaryTableData::TileCompressed(tc) => match tc {
-                        TcPixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                        TcPixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                        TcPixels::I32(it) => write_i32(buf, it, scale, is_rgb),
+                        TcPixels::U8(it) => write_u8(buf, untile(it, image), scale, is_rgb),
+                        TcPixels::I16(it) => write_i16(buf, untile(it, image), scale, is_rgb),
+                        TcPixels::I32(it) => write_i32(buf, untile(it, image), scale, is_rgb),
                         // Tile-compressed F32 and F64 iterators both yield f32
-                        TcPixels::F32(it) => write_f32(buf, it, is_rgb),
-                        TcPixels::F64(it) => write_f32(buf, it, is_rgb),
+                        TcPixels::F32(it) => write_f32(buf, untile(it, image), is_rgb),
+                        TcPixels::F64(it) => write_f32(buf, untile(it, image), is_rgb),
                     },
                     BinaryTableData::Table(_) => {
                         return Err(to_image_error(
-- 
2.43.0


From c2e8eb416e2fc64109515ba6b2ebe92f85496df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:22 +0000
Subject: [PATCH 21/26] fix: only the first member of a gzip compressed file is
 read

---
 src/gz.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index db6df65..88e7319 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -1,5 +1,5 @@
-use flate2::read::GzDecoder;
-use std::io::Seek;
+use flate2::bufread::GzDecoder;
+use std::io::{BufReader, Seek};
 /*
 use crate::hdu::data::FitsRead;
 use crate::hdu::header::extension::asciitable::AsciiTable;
@@ -94,7 +94,7 @@ where
 {
     /// Open a fits file from a path. Can be gzip-compressed
     pub fn new(reader: R) -> Result<Self, Error> {
-        let mut gz = GzDecoder::new(reader);
+        let mut gz = GzDecoder::new(BufReader::new(reader));
 
         match gz.header() {
             // `path` points to a file that is gzip-compressed.
@@ -102,11 +102,20 @@ where
                 let mut buf = vec![];
                 gz.read_to_end(&mut buf)?;
 
+                // A gzip file can have several members, its content is the one of all of them.
+                // Whatever else follows them (e.g. padding) is not part of it.
+                let mut members = vec![];
+                gz.into_inner().read_to_end(&mut members)?;
+                let mut members = &members[..];
+                while members.first() == Some(&0x1f) {
+                    GzDecoder::new(&mut members).read_to_end(&mut buf)?;
+                }
+
                 Ok(GzReader::GzReader(Cursor::new(buf.into_boxed_slice())))
             }
             // `path` points to a plain text file.
             None => {
-                let mut r = gz.into_inner();
+                let mut r = gz.into_inner().into_inner();
                 // Since the `GzDecoder` already moved some bytes out of f
                 // by trying to decompress it, the file must be rewinded
                 // TODO There may be a better way instead of reading the same
-- 
2.43.0


From f6a12353a635b3a1d8ffb69b4562d39123f013d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:37 +0000
Subject: [PATCH 22/26] fix: reading a pixel or a row beyond 2^63 bytes
 overflows

---
 src/hdu/data/bintable/data.rs | 20 +++++++++++---------
 src/hdu/data/iter.rs          | 10 ++++++----
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index e0aff9b..9be204e 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -370,26 +370,28 @@ where
             // leave the heap, if a variable length array was being read
             self.jump_to_main_table()?;
 
-            self.seek_to_first_col = false;
-            self.col_idx = 0;
-            self.row_idx = idx;
-            self.item_idx = 0;
-
             let new_byte_offset =
                 // go to the beginning of the idx-th row
-                (idx as i64) * (self.ctx.naxis1 as i64)
+                (idx as u64) * self.ctx.naxis1
                 // go to the first column of that row
                 + self
                     .cols_idx
                     .first()
-                    .map_or(0, |&col_idx| self.col_byte_offsets[col_idx] as i64);
+                    .map_or(0, |&col_idx| self.col_byte_offsets[col_idx] as u64);
 
             // Offset for moving from the current position to the new row position
-            let off = (self.start_pos as i64 + new_byte_offset)
-                - (self.reader.stream_position()? as i64);
+            let off = i64::try_from(
+                i128::from(self.start_pos) + i128::from(new_byte_offset)
+                    - i128::from(self.reader.stream_position()?),
+            )
+            .map_err(|_| Error::StaticError("The row is out of the reach of the reader"))?;
 
             self.reader.seek_relative(off)?;
 
+            self.seek_to_first_col = false;
+            self.col_idx = 0;
+            self.row_idx = idx;
+            self.item_idx = 0;
             self.byte_offset = new_byte_offset as usize;
 
             Ok(())
diff --git a/src/hdu/data/iter.rs b/src/hdu/data/iter.rs
index 1926ecd..6e489ae 100644
--- a/src/hdu/data/iter.rs
+++ b/src/hdu/data/iter.rs
@@ -1,3 +1,4 @@
+use std::convert::TryFrom;
 use std::fmt::Debug;
 use std::io::Read;
 
@@ -170,12 +171,13 @@ where
             Err(Error::StaticError("Value to retrieve is out of bounds"))
         } else {
             // Get the position of the reader since the start of the stream
-            let t_bytes = std::mem::size_of::<T>() as i64;
-            let pos = idx as i64 * t_bytes;
-            let off = pos - self.num_bytes_read as i64;
+            let t_bytes = std::mem::size_of::<T>() as u64;
+            let pos = idx as u64 * t_bytes;
+            let off = i64::try_from(i128::from(pos) - i128::from(self.num_bytes_read))
+                .map_err(|_| Error::StaticError("Value to retrieve is out of bounds"))?;
 
             self.reader.seek_relative(off)?;
-            self.num_bytes_read = pos as u64;
+            self.num_bytes_read = pos;
             self.cur_idx = idx;
             self.error_encountered = false;
 
-- 
2.43.0


From fce2c38bc50f043af6c19986c7f79f48d130a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:33 +0000
Subject: [PATCH 23/26] fix: end a continued string at the record that does not
 end with an ampersand

---
 src/hdu/header/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 2b9b3d1..01fec91 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -271,7 +271,8 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 if let Some(ref name) = kw {
                     if let Some(v) = values.get_mut(name) {
                         v.append(string, comment);
-                        if !v.continued() {
+                        // the ampersand is the one of this record, not one the value already had
+                        if !card.continued() {
                             kw = None
                         }
                     } else {
-- 
2.43.0


From d2a48561b3e0e312808873587ce565215f62b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:03 +0000
Subject: [PATCH 24/26] fix: do not take an XTENSION record without a value
 indicator for an extension

---
 src/card.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index 8b176d2..6ee0168 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -153,7 +153,8 @@ impl TryFrom<&CardBuf> for Card {
             "COMMENT" => Ok(Card::Comment(parse_comment_text(&buf[8..]))),
             "HISTORY" => Ok(Card::History(parse_comment_text(&buf[8..]))),
             "CONTINUE" => parse_continuation(buf),
-            "XTENSION" => parse_extension(buf),
+            // without a value indicator this is not a value, as for the other keywords
+            "XTENSION" if b"= " == &buf[8..10] => parse_extension(buf),
             "HIERARCH" => parse_hierarch(buf),
             "END" => Ok(Card::End),
             _ => {
-- 
2.43.0


From 6fac0d14a41039ef05b2b3cb411f554618cfa6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:11 +0000
Subject: [PATCH 25/26] fix: a row jump that fails does not leave the table
 between the heap and its rows

---
 src/hdu/data/bintable/data.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 9be204e..4bf67f7 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -367,9 +367,6 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
-            // leave the heap, if a variable length array was being read
-            self.jump_to_main_table()?;
-
             let new_byte_offset =
                 // go to the beginning of the idx-th row
                 (idx as u64) * self.ctx.naxis1
@@ -388,6 +385,8 @@ where
 
             self.reader.seek_relative(off)?;
 
+            // the heap has been left, if a variable length array was being read
+            self.state = DataReaderState::MainTable;
             self.seek_to_first_col = false;
             self.col_idx = 0;
             self.row_idx = idx;
-- 
2.43.0


From 66063a9ca96eec8ff5bb3e42c858c1e70a25a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:25 +0000
Subject: [PATCH 26/26] fix: keep the text of an invalid number as it is in the
 file

---
 src/card.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index 6ee0168..4fa81d2 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -262,8 +262,7 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
         })
     } else {
         // fallback to D as an exponent, cf. FITSv4, section 4.2.4 Real floating-point number
-        let v = v.replace('D', "E");
-        if let Ok(val) = v.parse::<f64>() {
+        if let Ok(val) = v.replace('D', "E").parse::<f64>() {
             Ok(Value::Float {
                 value: val,
                 comment: c,
-- 
2.43.0


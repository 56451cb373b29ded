From bad73c1fdbbfd8084e53e3be84a0843d8e3d786d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:33 +0000
Subject: [PATCH 01/24] fix: a card whose value is a lone quote is unparsable
 instead of panicking

---
 src/card.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..5f467f3 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -174,9 +174,12 @@ impl TryFrom<&CardBuf> for Card {
 
 fn parse_extension(buf: &[u8; 80]) -> Result<Card, Error> {
     let (value, comment) = split_value_and_comment(&buf[10..])?;
-    if value.starts_with("'") && value.ends_with("'") {
-        let end = value.len() - 1;
-        let x = value[1..end].trim_ascii().parse()?;
+    // a lone quote opens a string that is never closed
+    let quoted = value
+        .strip_prefix('\'')
+        .and_then(|value| value.strip_suffix('\''));
+    if let Some(value) = quoted {
+        let x = value.trim_ascii().parse()?;
         Ok(Card::Xtension { x, comment })
     } else {
         let msg = format!("XTENSION value must be enclosed in single quotes, found: {value}");
@@ -275,7 +278,8 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
 /// trimmed to one space.
 fn parse_string(s: String) -> Result<String, Error> {
     let start_quote = s.starts_with("'");
-    let end_quote = s.ends_with("'");
+    // a lone quote opens a string that is never closed
+    let end_quote = s.ends_with("'") && s != "'";
     let value: &str = match (start_quote, end_quote) {
         (true, true) => &s[1..s.len() - 1], // string enclosed in single quotes
         (false, false) => &s,               // comment string has no quotes
-- 
2.43.0


From 29b77d873b1025e9e81d0968697ffa35c82fdf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:57 +0000
Subject: [PATCH 02/24] fix: reject headers whose data unit size or TFIELDS
 cannot be represented

---
 src/hdu/header/extension/asciitable.rs |  1 +
 src/hdu/header/extension/bintable.rs   |  5 +++--
 src/hdu/header/extension/image.rs      | 11 ++++++++++-
 src/hdu/header/mod.rs                  | 17 ++++++++++++++++-
 4 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..10da81a 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -120,6 +120,7 @@ impl Xtension for AsciiTable {
         if pcount != 0 {
             return Err(Error::StaticError("Ascii Table HDU must have PCOUNT = 0"));
         }
+        values.check_for_table_size(naxis1, naxis2, pcount)?;
 
         // GCOUNT
         let gcount = values.check_for_gcount()?;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..13cb5ac 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -208,6 +208,7 @@ impl Xtension for BinTable {
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
+        values.check_for_table_size(naxis1, naxis2, pcount)?;
 
         // GCOUNT
         let gcount = values.check_for_gcount()?;
@@ -288,8 +289,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = Vec::new();
+            let mut z_tilen = Vec::new();
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..aa012bc 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -49,7 +49,16 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+
+        // The size of the data unit must be addressable
+        naxisn
+            .iter()
+            .try_fold(bitpix.byte_size() as u64, |size, &naxis_i| {
+                size.checked_mul(naxis_i)
+            })
+            .filter(|&size| size <= i64::MAX as u64)
+            .ok_or(Error::StaticError("The size of the data unit overflows"))?;
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..0b85bd9 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -154,7 +154,22 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        let tfields = self.get_parsed("TFIELDS")?;
+        if tfields > 999 {
+            return Err(Error::StaticError("TFIELDS must not exceed 999"));
+        }
+
+        Ok(tfields)
+    }
+
+    /// Check that the size of the data unit of a table is addressable
+    fn check_for_table_size(&self, naxis1: u64, naxis2: u64, pcount: u64) -> Result<(), Error> {
+        naxis1
+            .checked_mul(naxis2)
+            .and_then(|size| size.checked_add(pcount))
+            .filter(|&size| size <= i64::MAX as u64)
+            .map(|_| ())
+            .ok_or(Error::StaticError("The size of the data unit overflows"))
     }
 }
 
-- 
2.43.0


From b4cbca97cd1a44086264bdd19a31652410a4027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:10 +0000
Subject: [PATCH 03/24] fix: locate the next HDU from the start of the data
 unit, wherever the reader has been left

---
 src/fits.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..0a357a3 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -60,19 +60,20 @@ where
     /// at the end of its last HDU
     pub(crate) fn consume_until_next_hdu(&mut self) -> Result<(), Error> {
         // Seek to the beginning of the next HDU.
-        // The number of bytes to skip is the remaining bytes +
-        // an offset to get to a multiple of 2880 bytes
-
-        // current seek position since the start of the stream
-        let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
-
+        // It starts at the first multiple of 2880 bytes following the data unit. Its location does not
+        // depend on where the reader has been left, which can even be past the end of the data unit.
         let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
         let is_aligned_on_block = offset_in_2880_block == 0;
+        let mut num_bytes_to_skip = self.num_bytes_in_cur_du as u64;
         if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
+            num_bytes_to_skip += 2880 - offset_in_2880_block as u64;
         }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+
+        // current seek position since the start of the stream
+        let cur_pos = self.reader.stream_position()?;
+        let next_hdu_pos = self.pos_start_cur_du as u64 + num_bytes_to_skip;
+        self.reader
+            .seek_relative(next_hdu_pos.wrapping_sub(cur_pos) as i64)?;
 
         Ok(())
     }
-- 
2.43.0


From 4700341e9b7186263979029fc118c18c75287378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:10 +0000
Subject: [PATCH 04/24] fix: the row size of a binary table is a sum of
 whole-byte fields

---
 src/hdu/header/extension/bintable.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 13cb5ac..5e86a7d 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -370,6 +370,10 @@ impl Xtension for BinTable {
 
                 let num_count_digits = count.len();
                 let repeat_count = count.parse::<usize>().unwrap_or(1);
+                if repeat_count > i64::MAX as usize / 128 {
+                    warn!("The repeat count of {tform_kw} is too large. It will be discarded");
+                    return None;
+                }
                 // If the field type is not found, discard it as well
                 let Some(field_ty) = tform.chars().nth(num_count_digits) else {
                     warn!("Cannot extract the field type of {tform_kw}");
@@ -510,12 +514,10 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
-            .iter()
-            .map(|tform| tform.num_bits_field() as u64)
-            .sum::<u64>();
-
-        let num_bytes_per_row = num_bits_per_row >> 3;
+        // Each field starts on a byte
+        let num_bytes_per_row = tforms.iter().fold(0_u64, |num_bytes, tform| {
+            num_bytes.saturating_add(tform.num_bytes_field() as u64)
+        });
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
-- 
2.43.0


From 9458e5a4903722431be4123e69689b7e32f17b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 05/24] fix: a logical field is true only when it stores 'T'

---
 src/hdu/data/bintable/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..9e91585 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -484,7 +484,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = self.reader.read_u8().ok()? == b'T';
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -624,7 +624,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From d9e951f47e95f0912f4df1b6c8ba6f6654c8554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 06/24] fix: bit fields and bit arrays store eight elements per
 byte

---
 src/hdu/data/bintable/data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 9e91585..c989945 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -405,7 +405,14 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = n_elems * t_byte_size;
+                // The elements of a bit array are given by byte
+                let n_elems = match ty {
+                    VariableArrayTy::X => n_elems.div_ceil(8),
+                    _ => n_elems,
+                };
+                let num_bytes_to_read = n_elems
+                    .checked_mul(t_byte_size)
+                    .ok_or(Error::StaticError("The size of the array overflows"))?;
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
@@ -635,7 +642,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
-- 
2.43.0


From ad5ec9f9d6afb6dcee81e74b61d1b797d364c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:59 +0000
Subject: [PATCH 07/24] fix: empty arrays, empty fields, field selections and
 row seeks keep a table aligned

---
 src/hdu/data/bintable/data.rs | 140 ++++++++++++++++++++++------------
 src/hdu/data/bintable/row.rs  |   7 +-
 2 files changed, 95 insertions(+), 52 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index c989945..c095f39 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -210,7 +210,10 @@ impl<R> TableData<R> {
             })
             .collect();
 
-        let cols_idx = (0..(ctx.tforms.len())).collect();
+        // A field whose repeat count is 0 is empty, there is no value to return from it
+        let cols_idx = (0..(ctx.tforms.len()))
+            .filter(|&idx| ctx.tforms[idx].num_bytes_field() > 0)
+            .collect();
 
         let col_idx = 0;
         let item_idx = 0;
@@ -276,9 +279,14 @@ impl<R> TableData<R> {
                     }
                 }
             }
-        ).collect();
+        )
+        // A field whose repeat count is 0 is empty, there is no value to return from it
+        .filter(|&index| self.ctx.tforms[index].num_bytes_field() > 0)
+        .collect();
 
         self.cols_idx.sort_unstable();
+        // Each value of the selected fields is returned once
+        self.cols_idx.dedup();
 
         // We must go to the first column at this point
         self.seek_to_first_col = true;
@@ -340,15 +348,23 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
+            // Leave the heap if an array was being read
+            self.jump_to_main_table()?;
+
             self.col_idx = 0;
             self.row_idx = idx;
             self.item_idx = 0;
 
+            let Some(&first_col) = self.cols_idx.first() else {
+                // No field to return
+                return Ok(());
+            };
+
             let new_byte_offset =
                 // go to the beginning of the idx-th row
                 (idx as i64) * (self.ctx.naxis1 as i64)
                 // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
+                + (self.col_byte_offsets[first_col] as i64);
 
             // Offset for moving from the current position to the new row position
             let off =
@@ -358,6 +374,7 @@ where
             self.reader.seek_relative(off)?;
 
             self.byte_offset = new_byte_offset as usize;
+            self.seek_to_first_col = false;
 
             Ok(())
         }
@@ -393,17 +410,12 @@ where
                 // Move to the HEAP
                 let off =
                     // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64)
+                    (- (self.byte_offset as i64)
                     // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
+                    + self.ctx.theap as i64)
                     // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
-
-                // Get the current location used to go back to the main table
-                let pos = SeekFrom::Start(self.reader.stream_position()?);
-
-                // Go to the HEAP
-                self.reader.seek_relative(off)?;
+                    .checked_add_unsigned(byte_offset)
+                    .ok_or(Error::StaticError("The location of the array overflows"))?;
 
                 // The elements of a bit array are given by byte
                 let n_elems = match ty {
@@ -413,6 +425,13 @@ where
                 let num_bytes_to_read = n_elems
                     .checked_mul(t_byte_size)
                     .ok_or(Error::StaticError("The size of the array overflows"))?;
+
+                // Get the current location used to go back to the main table
+                let pos = SeekFrom::Start(self.reader.stream_position()?);
+
+                // Go to the HEAP
+                self.reader.seek_relative(off)?;
+
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
@@ -460,20 +479,33 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
+        loop {
+            // skip the empty arrays
+            if let Some(value) = self.next_in_field()? {
+                return Some(value);
+            }
+        }
+    }
+}
 
+impl<R> TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    /// Read the next value, or `Some(None)` if the field is an array with no element
+    pub(crate) fn next_in_field(&mut self) -> Option<Option<DataValue>> {
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
             self.seek_to_first_col = false;
 
-            let off = self.col_byte_offsets[col_idx] as i64;
-            // seek to the next col location
-            self.reader.seek_relative(off).ok()?;
-            // update the byte offset as well
-            self.byte_offset += off as usize;
+            if self.row_idx < self.ctx.naxis2 as usize {
+                self.seek_to_row(self.row_idx).ok()?;
+            }
         }
 
+        // First get the column index in the main data table where the reader is
+        let col_idx = *self.cols_idx.get(self.col_idx)?;
+
         match &mut self.state {
             DataReaderState::HEAP {
                 ty,
@@ -606,7 +638,7 @@ where
                     self.seek_to_next_col().ok()?;
                 }
 
-                Some(value)
+                Some(Some(value))
             }
             DataReaderState::MainTable => {
                 // Check whether we are at the end of the main data table
@@ -630,11 +662,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Logical {
+                            Some(Some(DataValue::Logical {
                                 value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Bit
                         TFormType::X { repeat_count } => {
@@ -646,12 +678,12 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Bit {
+                            Some(Some(DataValue::Bit {
                                 byte,
                                 bit_idx: 0,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Unsigned byte
                         TFormType::B { repeat_count } => {
@@ -663,11 +695,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::UnsignedByte {
+                            Some(Some(DataValue::UnsignedByte {
                                 value: byte,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // 16-bit integer
                         TFormType::I { repeat_count } => {
@@ -679,11 +711,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Short {
+                            Some(Some(DataValue::Short {
                                 value: short,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // 32-bit integer
                         TFormType::J { repeat_count } => {
@@ -695,11 +727,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Integer {
+                            Some(Some(DataValue::Integer {
                                 value: int,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // 64-bit integer
                         TFormType::K { repeat_count } => {
@@ -711,11 +743,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Long {
+                            Some(Some(DataValue::Long {
                                 value: long,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Character
                         TFormType::A { repeat_count } => {
@@ -727,11 +759,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Character {
+                            Some(Some(DataValue::Character {
                                 value: c as char,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Single-precision floating point
                         TFormType::E { repeat_count } => {
@@ -743,11 +775,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Float {
+                            Some(Some(DataValue::Float {
                                 value: float,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Double-precision floating point
                         TFormType::D { repeat_count } => {
@@ -759,11 +791,11 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::Double {
+                            Some(Some(DataValue::Double {
                                 value: double,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Single-precision complex
                         TFormType::C { repeat_count } => {
@@ -776,12 +808,12 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::ComplexFloat {
+                            Some(Some(DataValue::ComplexFloat {
                                 real,
                                 imag,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Double-precision complex
                         TFormType::M { repeat_count } => {
@@ -794,12 +826,12 @@ where
                                 self.seek_to_next_col().ok()?;
                             }
 
-                            Some(DataValue::ComplexDouble {
+                            Some(Some(DataValue::ComplexDouble {
                                 real,
                                 imag,
                                 column: ColumnId::Index(col_idx),
                                 idx,
-                            }) // Determine the count idx inside the field
+                            })) // Determine the count idx inside the field
                         }
                         // Array Descriptor (32-bit)
                         TFormType::P {
@@ -810,7 +842,11 @@ where
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                self.seek_to_next_col().ok()?;
+
+                                Some(None)
+                            } else if self.heap {
                                 self.jump_to_heap(
                                     *ty,
                                     offset_byte as u64,
@@ -819,17 +855,17 @@ where
                                 )
                                 .ok()?;
 
-                                self.next()
+                                self.next_in_field()
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
                                 self.seek_to_next_col().ok()?;
 
                                 // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray32 {
+                                Some(Some(DataValue::VariableLengthArray32 {
                                     num_elems,
                                     offset_byte,
-                                })
+                                }))
                             }
                         }
                         // Array Descriptor (64-bit)
@@ -841,21 +877,25 @@ where
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                self.seek_to_next_col().ok()?;
+
+                                Some(None)
+                            } else if self.heap {
                                 self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
                                     .ok()?;
 
-                                self.next()
+                                self.next_in_field()
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
                                 self.seek_to_next_col().ok()?;
 
                                 // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray64 {
+                                Some(Some(DataValue::VariableLengthArray64 {
                                     num_elems,
                                     offset_byte,
-                                })
+                                }))
                             }
                         }
                     }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..96dfa13 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -13,7 +13,9 @@ pub struct TableRowData<R> {
 
 impl<R> TableRowData<R> {
     pub fn new(data: TableData<R>) -> Self {
-        Self { data, idx_row: 0 }
+        // The first row to return is the one the table has been moved to
+        let idx_row = data.row_idx;
+        Self { data, idx_row }
     }
 
     pub fn get_ctx(&self) -> &BinTable {
@@ -49,7 +51,8 @@ where
         let mut row_data = vec![];
 
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            // an array may have no element
+            row_data.extend(self.data.next_in_field()?);
         }
 
         self.idx_row += 1;
-- 
2.43.0


From c02d58ec84fa1d15b3859d58846cce7974e217e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:20 +0000
Subject: [PATCH 08/24] fix: pixels are not read from an unknown location after
 a failed read

---
 src/hdu/data/iter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/iter.rs b/src/hdu/data/iter.rs
index ccea367..699a0dd 100644
--- a/src/hdu/data/iter.rs
+++ b/src/hdu/data/iter.rs
@@ -53,6 +53,8 @@ pub struct It<R, T> {
     num_items: usize,
     /// Number of item read
     cur_idx: usize,
+    /// A read failed, where the reader has been left is unknown
+    failed: bool,
     /// The type of element read from the reader
     _t: std::marker::PhantomData<T>,
 }
@@ -98,6 +100,7 @@ where
         Self {
             reader,
             cur_idx: 0,
+            failed: false,
             num_items,
             _t: std::marker::PhantomData,
         }
@@ -112,11 +115,12 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cur_idx == self.num_items {
+        if self.failed || self.cur_idx == self.num_items {
             None
         } else {
             let byte = T::read_be(&mut self.reader);
             self.cur_idx += 1;
+            self.failed = byte.is_err();
 
             byte.ok()
         }
@@ -137,6 +141,8 @@ where
     pub fn read_value(&mut self, idx: usize) -> Result<T, Error> {
         if idx >= self.num_items {
             Err(Error::StaticError("Value to retrieve is out of bounds"))
+        } else if self.failed {
+            Err(Error::StaticError("A previous read of the data failed"))
         } else {
             // Get the position of the reader since the start of the stream
             let t_bytes = std::mem::size_of::<T>() as i64;
-- 
2.43.0


From 21882ff9608a9de5d710e64558d40423a50391c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:30 +0000
Subject: [PATCH 09/24] fix: the raw bytes of a truncated in-memory file end
 where the buffer does

---
 src/hdu/data/bintable/data.rs | 7 ++++---
 src/hdu/data/image.rs         | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index c095f39..37fa59d 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -166,9 +166,10 @@ where
         let inner = self.reader.get_ref();
         let raw_bytes = inner.as_ref();
 
-        let s = self.start_pos as usize;
-        let e = s + (self.ctx.get_num_bytes_data_block() as usize);
-        &raw_bytes[s..e]
+        // The buffer might end before the data unit does
+        let s = (self.start_pos as usize).min(raw_bytes.len());
+        let e = (self.start_pos as usize) + (self.ctx.get_num_bytes_data_block() as usize);
+        &raw_bytes[s..e.min(raw_bytes.len())]
     }
 }
 
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..d502f3d 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -96,9 +96,10 @@ where
         };
         let raw_bytes = inner.as_ref();
 
-        let s = self.start_pos as usize;
-        let e = s + (self.num_bytes_data_block as usize);
-        &raw_bytes[s..e]
+        // The buffer might end before the data unit does
+        let s = (self.start_pos as usize).min(raw_bytes.len());
+        let e = (self.start_pos as usize) + (self.num_bytes_data_block as usize);
+        &raw_bytes[s..e.min(raw_bytes.len())]
     }
 }
 
-- 
2.43.0


From a8c7a895c9dfa2ad99c857e1a59649299d7170ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:30 +0000
Subject: [PATCH 10/24] fix: an array descriptor field whose repeat count is 0
 is empty

---
 src/hdu/header/extension/bintable.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 5e86a7d..033538e 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -431,6 +431,8 @@ impl Xtension for BinTable {
                     'C' => TFormType::C { repeat_count },
                     // Double-precision complex
                     'M' => TFormType::M { repeat_count },
+                    // No array descriptor, the field is empty
+                    'P' | 'Q' if repeat_count == 0 => TFormType::B { repeat_count },
                     // Array Descriptor 32-bit
                     'P' => {
                         let (t_byte_size, ty) = compute_ty_array_desc()?;
-- 
2.43.0


From d9ec37267b022d72f496c458e258a6d74c61888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:19 +0000
Subject: [PATCH 11/24] fix: RICE differences wrap around and a block can be
 read in several times

---
 src/hdu/data/bintable/tile_compressed/rice.rs | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..5ff9f65 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -241,6 +241,15 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The next read continues the block
+                        self.state = RICEState::LowEntropyDecoding {
+                            b,
+                            nbits,
+                            i,
+                            lastpix,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
@@ -285,7 +294,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -302,6 +311,15 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The next read continues the block
+                        self.state = RICEState::HighEntropyDecoding {
+                            nbits,
+                            b,
+                            i,
+                            lastpix,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
@@ -342,7 +360,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -359,6 +377,16 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The next read continues the block
+                        self.state = RICEState::RICEDecoding {
+                            nbits,
+                            b,
+                            i,
+                            lastpix,
+                            fs,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
-- 
2.43.0


From bbf0c152846be5e9cdc9305e9ffc817f8c5c03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:19 +0000
Subject: [PATCH 12/24] fix: decode edge tiles, GZIP tiles of any integer size,
 RICE BYTEPIX and the dithering sequence

The tiles on the border of the image are smaller than ZTILEn, the size of the
integers compressed with GZIP is given by the size of the tile, and the dithering
starts from the random value of index (row + ZDITHER0 - 1), the row starting from
0, and is associated to each pixel including the blank ones. A table whose tiles
cannot be decoded is read as a table instead of panicking.
---
 .../bintable/tile_compressed/dithering.rs     |  44 +
 src/hdu/data/bintable/tile_compressed/mod.rs  |  62 +-
 .../data/bintable/tile_compressed/pixels.rs   | 927 ++++++------------
 src/hdu/header/extension/bintable.rs          | 106 +-
 4 files changed, 461 insertions(+), 678 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/dithering.rs b/src/hdu/data/bintable/tile_compressed/dithering.rs
index ce330e7..7e41dcb 100644
--- a/src/hdu/data/bintable/tile_compressed/dithering.rs
+++ b/src/hdu/data/bintable/tile_compressed/dithering.rs
@@ -23,6 +23,50 @@ pub(crate) const fn random_generator() -> [f32; N_RANDOM] {
 
 pub(crate) static RAND_VALUES: [f32; N_RANDOM] = random_generator();
 
+/// The sequence of random values to subtract from the pixels of a tile
+#[derive(Debug)]
+pub(crate) struct DitheringSequence {
+    /// Index of the random value giving where the sequence starts
+    i0: usize,
+    /// Index of the random value associated to the next pixel
+    i1: usize,
+}
+
+impl DitheringSequence {
+    /// # Params
+    ///
+    /// * `idx` - The index of the row of the tile in the table, starting from 0
+    /// * `z_dither_0` - The value of ZDITHER0
+    pub(crate) fn new(idx: usize, z_dither_0: i64) -> Self {
+        // The row number of the standard starts from 1, and so does ZDITHER0
+        let i0 = (idx as i64)
+            .wrapping_add(z_dither_0)
+            .wrapping_sub(1)
+            .rem_euclid(N_RANDOM as i64) as usize;
+
+        Self::starting_from(i0)
+    }
+
+    fn starting_from(i0: usize) -> Self {
+        let i1 = (RAND_VALUES[i0] * 500.0) as usize;
+
+        Self { i0, i1 }
+    }
+
+    /// The random value associated to the next pixel
+    pub(crate) fn next_value(&mut self) -> f32 {
+        let value = RAND_VALUES[self.i1];
+
+        self.i1 += 1;
+        if self.i1 == N_RANDOM {
+            // The end of the random values has been reached, start again from the next location
+            *self = Self::starting_from((self.i0 + 1) % N_RANDOM);
+        }
+
+        value
+    }
+}
+
 mod tests {
     #[test]
     fn test_random_generator() {
diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..634c825 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -2,7 +2,7 @@ mod dithering;
 pub mod pixels;
 mod rice;
 
-use dithering::{N_RANDOM, RAND_VALUES};
+use dithering::DitheringSequence;
 
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZQuantiz};
 use crate::hdu::header::Header;
@@ -93,6 +93,14 @@ pub struct F64Keywords {
 impl F64Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
+        // a random value is associated to each pixel, even if it does not depend on it
+        let ri = match &mut self.quantiz {
+            Quantiz::NoDither => 0.5,
+            Quantiz::SubtractiveDither1 { seq } | Quantiz::SubtractiveDither2 { seq } => {
+                seq.next_value()
+            }
+        };
+
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
@@ -100,26 +108,16 @@ impl F64Keywords {
             }
         }
 
-        match &mut self.quantiz {
+        match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
-                let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
-
+            Quantiz::SubtractiveDither1 { .. } => {
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { .. } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
-                    let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
@@ -130,6 +128,14 @@ impl F64Keywords {
 impl F32Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
+        // a random value is associated to each pixel, even if it does not depend on it
+        let ri = match &mut self.quantiz {
+            Quantiz::NoDither => 0.5,
+            Quantiz::SubtractiveDither1 { seq } | Quantiz::SubtractiveDither2 { seq } => {
+                seq.next_value()
+            }
+        };
+
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
@@ -137,26 +143,16 @@ impl F32Keywords {
             }
         }
 
-        match &mut self.quantiz {
+        match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
-                let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
-
+            Quantiz::SubtractiveDither1 { .. } => {
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { .. } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
-                    let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
@@ -182,6 +178,8 @@ impl Keywords for F32Keywords {
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
             .find_field_by_ttype("ZBLANK")
+            // which gives integers
+            .filter(|&idx| ctx.tforms[idx].is_integer())
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
@@ -201,7 +199,7 @@ impl Keywords for F32Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -224,6 +222,8 @@ impl Keywords for F64Keywords {
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
             .find_field_by_ttype("ZBLANK")
+            // which gives integers
+            .filter(|&idx| ctx.tforms[idx].is_integer())
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
@@ -243,7 +243,7 @@ impl Keywords for F64Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -296,8 +296,8 @@ impl Keywords for I32Keywords {
 #[derive(Debug)]
 enum Quantiz {
     NoDither,
-    SubtractiveDither1 { i1: usize },
-    SubtractiveDither2 { i1: usize },
+    SubtractiveDither1 { seq: DitheringSequence },
+    SubtractiveDither2 { seq: DitheringSequence },
 }
 
 #[cfg(test)]
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..08206a9 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -1,15 +1,18 @@
 use flate2::read::GzDecoder;
 
 use super::super::DataValue;
-use super::dithering::RAND_VALUES;
+use super::dithering::DitheringSequence;
 use super::rice::RICEDecoder;
 use super::{
     F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc, U8Keywords,
 };
 use crate::error::Error;
-use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
+use crate::hdu::header::extension::bintable::{
+    BinTable, TFormType, TileCompressedImage, ZCmpType, ZQuantiz,
+};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -45,14 +48,14 @@ where
 {
     /// An iterator over the row of a binary table
     pub row_it: TableRowData<R>,
-    /// A buffer for storing uncompressed data from GZIP1, GZIP2 or RICE
-    buf: Vec<u8>,
+    /// A buffer for storing the integers of a tile uncompressed from GZIP1, GZIP2 or RICE
+    buf: Vec<i32>,
 
     /// Current tile pointer
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
     data_compressed_idx: usize,
 }
@@ -75,26 +78,16 @@ where
         mut data: TableData<R>,
         config: &TileCompressedImage,
     ) -> Self {
-        // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
             z_tilen,
+            z_naxisn,
             z_cmp_type,
             data_compressed_idx,
             ..
         } = config;
-        // Allocation of a buffer at init of the iterator that is the size of the biggest tiles we can found
-        // on the tile compressed image. This is simply given by the ZTILEi keyword.
-        // Some tiles found on the border of the image can be smaller
-        let n_elems_max = z_tilen.iter().product::<usize>();
-
-        // FIXME
-        // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
-        // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
-        // n_elems_max * size_in_bytes of u32.
-        // It seems to be the same for RICE, so the latter rice decompression code is called on i32
-        let num_bytes_max_tile = n_elems_max * std::mem::size_of::<u32>();
 
-        let buf = vec![0_u8; num_bytes_max_tile];
+        // This buffer is filled as the tiles are uncompressed
+        let buf = vec![];
 
         let desc = TileDesc::new(header, config);
 
@@ -107,265 +100,258 @@ where
             desc,
 
             data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
         }
     }
 }
 
-/*
-/// Compute the size of the tile from its row position inside the compressed data column
-/// FIXME: optimize this computation by using memoization
-pub(crate) fn tile_size_from_row_idx(
-    z_tile: &[usize],
-    z_naxis: &[usize],
-    n: usize,
-) -> Box<[usize]> {
-    let d = z_tile.len();
-
-    if d == 0 {
-        // There must be at least one dimension
-        unreachable!();
+/// Compute the number of pixels of a tile from its row position inside the compressed data column
+///
+/// If ZNAXISi is not a multiple of ZTILEi then the last tile along that axis is smaller than the others.
+///
+/// Returns None if the image has fewer tiles
+fn num_pixels_from_row_idx(z_tile: &[usize], z_naxis: &[u64], n: usize) -> Option<usize> {
+    let mut n = n as u64;
+    let mut num_pixels = 1;
+
+    for (&tile, &naxis) in z_tile.iter().zip(z_naxis) {
+        let tile = tile as u64;
+        let num_tiles = naxis.div_ceil(tile);
+
+        let idx = n % num_tiles;
+        n /= num_tiles;
+
+        num_pixels *= tile.min(naxis - idx * tile);
+    }
+
+    (n == 0).then_some(num_pixels as usize)
+}
+
+/// Uncompress the integers of a GZIP1 tile
+///
+/// They are stored in big endian on 1, 2 or 4 bytes
+fn read_gzip_1<R: Read>(reader: R, num_pixels: usize, buf: &mut Vec<i32>) -> Result<(), Error> {
+    let bytes = read_gzip(reader, num_pixels)?;
+
+    match bytes.len() / num_pixels {
+        1 => buf.extend(bytes.iter().map(|&b| i32::from(b))),
+        2 => buf.extend(
+            bytes
+                .chunks_exact(2)
+                .map(|b| i32::from(i16::from_be_bytes([b[0], b[1]]))),
+        ),
+        _ => buf.extend(
+            bytes
+                .chunks_exact(4)
+                .map(|b| i32::from_be_bytes([b[0], b[1], b[2], b[3]])),
+        ),
+    }
+
+    Ok(())
+}
+
+/// Uncompress the integers of a GZIP2 tile
+///
+/// The bytes are shuffled i.e. the most significant byte of all the integers come first
+fn read_gzip_2<R: Read>(reader: R, num_pixels: usize, buf: &mut Vec<i32>) -> Result<(), Error> {
+    let bytes = read_gzip(reader, num_pixels)?;
+
+    let n = num_pixels;
+    match bytes.len() / n {
+        1 => buf.extend(bytes.iter().map(|&b| i32::from(b))),
+        2 => buf.extend((0..n).map(|i| i32::from(i16::from_be_bytes([bytes[i], bytes[i + n]])))),
+        _ => buf.extend((0..n).map(|i| {
+            i32::from_be_bytes([bytes[i], bytes[i + n], bytes[i + 2 * n], bytes[i + 3 * n]])
+        })),
+    }
+
+    Ok(())
+}
+
+/// Uncompress the bytes of a tile
+fn read_gzip<R: Read>(reader: R, num_pixels: usize) -> Result<Vec<u8>, Error> {
+    let mut bytes = vec![];
+    GzDecoder::new(reader)
+        .take(4 * num_pixels as u64)
+        .read_to_end(&mut bytes)?;
+
+    if [1, 2, 4].iter().any(|n| n * num_pixels == bytes.len()) {
+        Ok(bytes)
     } else {
-        let mut u = vec![0_usize; z_tile.len()];
-
-        let s = z_naxis
-            .iter()
-            .zip(z_tile.iter())
-            .map(|(naxisi, tilei)| naxisi.div_ceil(*tilei))
-            .collect::<Vec<_>>();
-
-        // Compute the position inside the first dimension
-        u[0] = n % s[0];
-
-        for i in 1..d {
-            u[i] = n
-                - u[0]
-                - (1..i)
-                    .map(|k| {
-                        let prod_sk = s.iter().take(k).product::<usize>();
-                        u[k] * prod_sk
-                    })
-                    .sum::<usize>();
-
-            let prod_si = s.iter().take(i).product::<usize>();
-
-            u[i] = (u[i] / prod_si) % s[i];
-        }
+        Err(Error::StaticError("The tile has not the expected size"))
+    }
+}
 
-        u.iter()
-            .zip(z_naxis.iter().zip(z_tile.iter()))
-            .map(|(&u_i, (&naxis, &tilez))| tilez.min(naxis - u_i * tilez))
-            .collect()
+/// Uncompress the integers of a RICE tile.
+fn read_rice<R: Read>(
+    reader: R,
+    blocksize: u8,
+    bytepix: u8,
+    num_pixels: usize,
+    buf: &mut Vec<i32>,
+) -> Result<(), Error> {
+    let nblock = blocksize as i32;
+    let nx = num_pixels as i32;
+    match bytepix {
+        1 => read_rice_integers(
+            RICEDecoder::<_, u8>::new(reader, nblock, nx),
+            num_pixels,
+            |b| i32::from(b[0]),
+            1,
+            buf,
+        ),
+        2 => read_rice_integers(
+            RICEDecoder::<_, i16>::new(reader, nblock, nx),
+            num_pixels,
+            |b| i32::from(i16::from_ne_bytes([b[0], b[1]])),
+            2,
+            buf,
+        ),
+        _ => read_rice_integers(
+            RICEDecoder::<_, i32>::new(reader, nblock, nx),
+            num_pixels,
+            |b| i32::from_ne_bytes([b[0], b[1], b[2], b[3]]),
+            4,
+            buf,
+        ),
     }
 }
-    */
+
+/// Read the integers part by part, the tile might be corrupted and end before
+fn read_rice_integers<R: Read>(
+    mut rice: R,
+    num_pixels: usize,
+    from_bytes: fn(&[u8]) -> i32,
+    bytepix: usize,
+    buf: &mut Vec<i32>,
+) -> Result<(), Error> {
+    let mut bytes = [0_u8; 4096];
+
+    while buf.len() < num_pixels {
+        let num_bytes = ((num_pixels - buf.len()) * bytepix).min(bytes.len());
+
+        rice.read_exact(&mut bytes[..num_bytes])?;
+        buf.extend(bytes[..num_bytes].chunks_exact(bytepix).map(from_bytes));
+    }
+
+    Ok(())
+}
 
 use std::fmt::Debug;
-impl<R> Iterator for It<R, U8Keywords>
+impl<R, K> It<R, K>
 where
     R: Read + Seek + Debug,
+    K: Keywords,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
-    type Item = u8;
-
-    fn next(&mut self) -> Option<Self::Item> {
+    /// Uncompress the next tile and store its integers into the internal buffer.
+    ///
+    /// Returns the values of the row describing that tile
+    fn next_tile(&mut self) -> Option<Box<[DataValue]>> {
+        let idx = self.row_it.get_row_idx();
         // We first retrieve the whole row from the row data iterator
-        if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
+        let row_data = self.row_it.next()?;
+
+        let ctx = self.row_it.get_ctx();
+        let (num_elems, byte_offset) = match row_data[ctx.first_value_idx(self.data_compressed_idx)]
+        {
+            DataValue::VariableLengthArray32 {
+                num_elems,
+                offset_byte,
+            } => (num_elems as u64, offset_byte as u64),
+            DataValue::VariableLengthArray64 {
+                num_elems,
+                offset_byte,
+            } => (num_elems, offset_byte),
+            _ => unreachable!(),
+        };
+        let t_byte_size = match ctx.tforms[self.data_compressed_idx] {
+            TFormType::P { t_byte_size, .. } | TFormType::Q { t_byte_size, .. } => t_byte_size,
+            _ => unreachable!(),
+        };
+        let num_bytes = num_elems.checked_mul(t_byte_size)?;
+
+        let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, idx)?;
+
+        // We jump to the heap at the position of the tile
+        // Then we decomp the tile and store it into out internal buf
+        // Finally we go back to the main data table location before jumping to the heap
+        let main_data_table_offset = self.row_it.get_row_idx() * (ctx.naxis1 as usize);
+        let off =
+            // go back to the beginning of the main table data block
+            (- (main_data_table_offset as i64)
+            // from the beginning of the main table go to the beginning of the heap
+            + ctx.theap as i64)
+            // from the beginning of the heap go to the start of the array
+            .checked_add_unsigned(byte_offset)?;
+
+        self.jump_to_location(
+            |s| {
+                let It { buf, row_it, .. } = s;
+
+                let reader = row_it.get_reader().take(num_bytes);
+
+                buf.clear();
+                match s.z_cmp_type {
+                    ZCmpType::Gzip1 => read_gzip_1(reader, num_pixels, buf),
+                    ZCmpType::Gzip2 => read_gzip_2(reader, num_pixels, buf),
+                    ZCmpType::Rice { blocksize, bytepix } => {
+                        read_rice(reader, blocksize, bytepix, num_pixels, buf)
                     }
+                    // Other compression not supported, when parsing the bintable extension keywords
+                    // we ensured that z_image is `None` for other compressions than GZIP or RICE
+                    _ => unreachable!(),
+                }
+            },
+            SeekFrom::Current(off),
+        )
+        .ok()?;
 
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
-        }
+        // Update the tile compressed currently decompressed
+        self.desc.n_pixels = num_pixels as u64;
+        self.desc.remaining_pixels = num_pixels as u64;
 
+        Some(row_data)
+    }
+
+    /// Take the next integer of the current tile
+    fn next_integer(&mut self) -> i32 {
         // There is remaining pixels inside our buffer, we simply return the current one
         let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                self.buf[off + 3]
-            }
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                self.buf[off]
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
         self.desc.remaining_pixels -= 1;
 
-        Some(value)
+        self.buf[idx]
     }
 }
 
-impl<R> Iterator for It<R, I16Keywords>
+impl<R> Iterator for It<R, U8Keywords>
 where
     R: Read + Seek + Debug,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
-    type Item = i16;
+    type Item = u8;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.next_tile()?;
         }
 
-        // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
+        Some(self.next_integer() as u8)
+    }
+}
 
-        let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let off = 4 * idx;
-                (self.buf[off + 3] as i16) | ((self.buf[off + 2] as i16) << 8)
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                (self.buf[3 * step_msb + idx] as i16) | ((self.buf[2 * step_msb + idx] as i16) << 8)
-            }
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                (self.buf[off] as i16) | ((self.buf[off + 1] as i16) << 8)
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
+impl<R> Iterator for It<R, I16Keywords>
+where
+    R: Read + Seek + Debug,
+{
+    type Item = i16;
 
-        Some(value)
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.desc.remaining_pixels == 0 {
+            self.next_tile()?;
+        }
+
+        Some(self.next_integer() as i16)
     }
 }
 
@@ -373,117 +359,14 @@ impl<R> Iterator for It<R, I32Keywords>
 where
     R: Read + Seek + Debug,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
     type Item = i32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
-
-            let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
+            self.next_tile()?;
         }
 
-        // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                i32::from_be_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ])
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                ((self.buf[idx] as i32) << 24)
-                    | ((self.buf[idx + step_msb] as i32) << 16)
-                    | ((self.buf[idx + 2 * step_msb] as i32) << 8)
-                    | (self.buf[idx + 3 * step_msb] as i32)
-            }
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                i32::from_ne_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ])
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        Some(self.next_integer())
     }
 }
 
@@ -491,177 +374,61 @@ impl<R> Iterator for It<R, F32Keywords>
 where
     R: Read + Seek + Debug,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
     type Item = f32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
+            let idx = self.row_it.get_row_idx();
+            let row_data = self.next_tile()?;
 
             let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            let TileDesc {
-                keywords:
-                    F32Keywords {
-                        z_scale_idx,
-                        z_zero_idx,
-                        scale,
-                        zero,
-                        z_dither_0,
-                        z_quantiz,
-                        quantiz,
-                        z_blank_idx,
-                        z_blank,
-                    },
-                ..
-            } = &mut self.desc;
+            let F32Keywords {
+                z_scale_idx,
+                z_zero_idx,
+                scale,
+                zero,
+                z_dither_0,
+                z_quantiz,
+                quantiz,
+                z_blank_idx,
+                z_blank,
+            } = &mut self.desc.keywords;
 
             *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
+                ZQuantiz::SubtractiveDither1 => Quantiz::SubtractiveDither1 {
+                    seq: DitheringSequence::new(idx, *z_dither_0),
+                },
+                ZQuantiz::SubtractiveDither2 => Quantiz::SubtractiveDither2 {
+                    seq: DitheringSequence::new(idx, *z_dither_0),
+                },
                 _ => Quantiz::NoDither,
             };
 
-            *scale = match row_data[*z_scale_idx] {
+            *scale = match row_data[ctx.first_value_idx(*z_scale_idx)] {
                 DataValue::Float { value, .. } => value,
                 DataValue::Double { value, .. } => value as f32,
                 _ => unreachable!(),
             };
 
-            *zero = match row_data[*z_zero_idx] {
+            *zero = match row_data[ctx.first_value_idx(*z_zero_idx)] {
                 DataValue::Float { value, .. } => value,
                 DataValue::Double { value, .. } => value as f32,
                 _ => unreachable!(),
             };
 
             if let Some(idx) = z_blank_idx {
-                *z_blank = match row_data[*idx] {
-                    DataValue::UnsignedByte { value, .. } => Some(value as i32),
-                    DataValue::Short { value, .. } => Some(value as i32),
-                    DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
-                    _ => unreachable!(),
+                *z_blank = match row_data.get(ctx.first_value_idx(*idx)) {
+                    Some(DataValue::UnsignedByte { value, .. }) => Some(*value as i32),
+                    Some(DataValue::Short { value, .. }) => Some(*value as i32),
+                    Some(DataValue::Integer { value, .. }) => Some(*value),
+                    Some(DataValue::Long { value, .. }) => i32::try_from(*value).ok(),
+                    _ => None,
                 }
             }
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
         }
 
-        // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            // 32-bit floating point
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_be_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-                self.desc.keywords.unquantize(value)
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                let value = ((self.buf[idx] as i32) << 24)
-                    | ((self.buf[idx + step_msb] as i32) << 16)
-                    | ((self.buf[idx + 2 * step_msb] as i32) << 8)
-                    | (self.buf[idx + 3 * step_msb] as i32);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // 32-bit floating point
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_ne_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        let value = self.next_integer();
+        Some(self.desc.keywords.unquantize(value))
     }
 }
 
@@ -669,177 +436,61 @@ impl<R> Iterator for It<R, F64Keywords>
 where
     R: Read + Seek + Debug,
 {
-    // Return a vec of fields because to take into account the repeat count value for that field
     type Item = f32;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
-
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
-                DataValue::VariableLengthArray32 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems as u64, offset_byte as u64),
-                DataValue::VariableLengthArray64 {
-                    num_elems,
-                    offset_byte,
-                } => (num_elems, offset_byte),
-                _ => unreachable!(),
-            };
+            let idx = self.row_it.get_row_idx();
+            let row_data = self.next_tile()?;
 
             let ctx = self.row_it.get_ctx();
-            let row_idx = self.row_it.get_row_idx();
-
-            // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
-
-            let TileDesc {
-                keywords:
-                    F64Keywords {
-                        z_scale_idx,
-                        z_zero_idx,
-                        scale,
-                        zero,
-                        z_dither_0,
-                        z_quantiz,
-                        quantiz,
-                        z_blank_idx,
-                        z_blank,
-                    },
-                ..
-            } = &mut self.desc;
+            let F64Keywords {
+                z_scale_idx,
+                z_zero_idx,
+                scale,
+                zero,
+                z_dither_0,
+                z_quantiz,
+                quantiz,
+                z_blank_idx,
+                z_blank,
+            } = &mut self.desc.keywords;
 
             *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
+                ZQuantiz::SubtractiveDither1 => Quantiz::SubtractiveDither1 {
+                    seq: DitheringSequence::new(idx, *z_dither_0),
+                },
+                ZQuantiz::SubtractiveDither2 => Quantiz::SubtractiveDither2 {
+                    seq: DitheringSequence::new(idx, *z_dither_0),
+                },
                 _ => Quantiz::NoDither,
             };
 
-            *scale = match row_data[*z_scale_idx] {
+            *scale = match row_data[ctx.first_value_idx(*z_scale_idx)] {
                 DataValue::Float { value, .. } => value,
                 DataValue::Double { value, .. } => value as f32,
                 _ => unreachable!(),
             };
 
-            *zero = match row_data[*z_zero_idx] {
+            *zero = match row_data[ctx.first_value_idx(*z_zero_idx)] {
                 DataValue::Float { value, .. } => value,
                 DataValue::Double { value, .. } => value as f32,
                 _ => unreachable!(),
             };
 
             if let Some(idx) = z_blank_idx {
-                *z_blank = match row_data[*idx] {
-                    DataValue::UnsignedByte { value, .. } => Some(value as i32),
-                    DataValue::Short { value, .. } => Some(value as i32),
-                    DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
-                    _ => unreachable!(),
+                *z_blank = match row_data.get(ctx.first_value_idx(*idx)) {
+                    Some(DataValue::UnsignedByte { value, .. }) => Some(*value as i32),
+                    Some(DataValue::Short { value, .. }) => Some(*value as i32),
+                    Some(DataValue::Integer { value, .. }) => Some(*value),
+                    Some(DataValue::Long { value, .. }) => i32::try_from(*value).ok(),
+                    _ => None,
                 }
             }
-
-            // We jump to the heap at the position of the tile
-            // Then we decomp the tile and store it into out internal buf
-            // Finally we go back to the main data table location before jumping to the heap
-            let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
-            let off =
-                // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
-                // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
-            self.jump_to_location(
-                |s| {
-                    let It { buf, row_it, .. } = s;
-
-                    let reader = row_it.get_reader();
-
-                    match s.z_cmp_type {
-                        // For GZIP2, the byte shuffling is done in the next method
-                        ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
-                        }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            rice.read_exact(&mut buf[..])?;
-                        }
-                        // Other compression not supported, when parsing the bintable extension keywords
-                        // we ensured that z_image is `None` for other compressions than GZIP or RICE
-                        _ => unreachable!(),
-                    }
-
-                    Ok(())
-                },
-                SeekFrom::Current(off),
-            )
-            .ok()?;
         }
 
-        // There is remaining pixels inside our buffer, we simply return the current one
-        let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
-
-        let value = match self.z_cmp_type {
-            // 32-bit floating point
-            ZCmpType::Gzip1 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_be_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-                self.desc.keywords.unquantize(value)
-            }
-            ZCmpType::Gzip2 => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
-                let num_bytes = self.buf.len();
-                let step_msb = num_bytes / 4;
-                let value = ((self.buf[idx] as i32) << 24)
-                    | ((self.buf[idx + step_msb] as i32) << 16)
-                    | ((self.buf[idx + 2 * step_msb] as i32) << 8)
-                    | (self.buf[idx + 3 * step_msb] as i32);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // 32-bit floating point
-            ZCmpType::Rice { .. } => {
-                // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
-                let off = 4 * idx;
-                let value = i32::from_ne_bytes([
-                    self.buf[off],
-                    self.buf[off + 1],
-                    self.buf[off + 2],
-                    self.buf[off + 3],
-                ]);
-
-                self.desc.keywords.unquantize(value)
-            }
-            // Not supported compression/bitpix results in parsing the binary table as normal and thus this part is not reachable
-            _ => unreachable!(),
-        };
-        self.desc.remaining_pixels -= 1;
-
-        Some(value)
+        let value = self.next_integer();
+        Some(self.desc.keywords.unquantize(value))
     }
 }
 
@@ -856,9 +507,9 @@ where
         let old_pos = SeekFrom::Start(self.get_reader().stream_position()?);
 
         self.get_reader().seek(pos)?;
-        f(self)?;
+        let res = f(self);
         let _ = self.get_reader().seek(old_pos)?;
 
-        Ok(())
+        res
     }
 }
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 033538e..121c2eb 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -89,6 +89,16 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Returns the index, in the values of a row, of the first value of a field
+    ///
+    /// The arrays stored in the heap are given by their descriptor
+    pub(crate) fn first_value_idx(&self, field: usize) -> usize {
+        self.tforms[..field]
+            .iter()
+            .map(|tform| tform.num_values_field())
+            .sum()
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
@@ -139,6 +149,22 @@ pub struct TileCompressedImage {
     pub(crate) data_compressed_idx: usize,
 }
 
+impl TileCompressedImage {
+    /// The image and its tiles have pixels, and the pixels of a tile can be counted
+    fn has_valid_tiles(&self) -> bool {
+        let num_pixels_max_tile = self
+            .z_tilen
+            .iter()
+            .zip(&self.z_naxisn)
+            .try_fold(1_u64, |num_pixels, (&tile, &naxis)| {
+                num_pixels.checked_mul(naxis.min(tile as u64))
+            });
+
+        !self.z_naxisn.is_empty()
+            && num_pixels_max_tile.is_some_and(|n| n > 0 && n <= i32::MAX as u64)
+    }
+}
+
 #[derive(Debug, PartialEq, Serialize, Deserialize, Clone)]
 pub(crate) enum ZQuantiz {
     #[serde(rename = "NO_DITHER")]
@@ -229,12 +255,11 @@ impl Xtension for BinTable {
                 "GZIP_1" => Some(ZCmpType::Gzip1),
                 "GZIP_2" => Some(ZCmpType::Gzip2),
                 "RICE_1" | "RICE_ONE" => {
-                    // Retrieve the block size
-                    let blocksize = values
-                        .iter()
-                        .find_map(|(zname, val)| {
+                    // Retrieve the value of an algorithm parameter
+                    let get_parameter = |name: &str| {
+                        values.iter().find_map(|(zname, val)| {
                             if let Value::String { value, .. } = val {
-                                if value == "BLOCKSIZE" && zname.starts_with("ZNAME") {
+                                if value.trim_ascii_end() == name && zname.starts_with("ZNAME") {
                                     let zval = zname.replace("NAME", "VAL");
 
                                     values.get_parsed(&zval).ok()
@@ -245,11 +270,12 @@ impl Xtension for BinTable {
                                 None
                             }
                         })
-                        // Default value: 32
-                        .unwrap_or(32);
+                    };
 
-                    // FIXME: implement RICE parsing for BYTEPIX != 4
-                    let bytepix = 4;
+                    // Retrieve the block size. Default value: 32
+                    let blocksize = get_parameter("BLOCKSIZE").unwrap_or(32);
+                    // Retrieve the number of bytes of the integers. Default value: 4
+                    let bytepix = get_parameter("BYTEPIX").unwrap_or(4);
 
                     Some(ZCmpType::Rice { blocksize, bytepix })
                 }
@@ -499,10 +525,35 @@ impl Xtension for BinTable {
                     warn!("PLI0_1 compression not supported");
                     None
                 }
+                (ZCmpType::Rice { bytepix, .. }, _) if ![1, 2, 4].contains(&bytepix) => {
+                    warn!("RICE compression only supported for BYTEPIX = 1, 2 or 4");
+                    None
+                }
                 (_, Bitpix::I64) => {
                     warn!("Only bitpix u8, i16, i32, f32, f64 are supported");
                     None
                 }
+                (_, Bitpix::F32 | Bitpix::F64)
+                    if ["ZSCALE", "ZZERO"].iter().any(|ttype| {
+                        !find_field_by_ttype(&ttypes, ttype)
+                            .is_some_and(|idx| tforms[idx].is_floating_point())
+                    }) =>
+                {
+                    warn!("ZSCALE and ZZERO fields are mandatory for floating point images");
+                    None
+                }
+                _ if !matches!(
+                    tforms[data_compressed_idx],
+                    TFormType::P { .. } | TFormType::Q { .. }
+                ) =>
+                {
+                    warn!("The compressed tiles are not stored in a variable length array");
+                    None
+                }
+                _ if !tile_compressed.has_valid_tiles() => {
+                    warn!("The size of the image or its tiles is not valid");
+                    None
+                }
                 _ => Some(tile_compressed),
             }
         } else {
@@ -792,6 +843,43 @@ impl TFormType {
     pub(crate) fn num_bytes_field(&self) -> usize {
         self.num_bits_field().div_ceil(8)
     }
+
+    /// Number of values returned from the field. The bits are given by byte and the array by its descriptor
+    pub(crate) fn num_values_field(&self) -> usize {
+        match self {
+            TFormType::X { repeat_count } => repeat_count.div_ceil(8),
+            TFormType::L { repeat_count }
+            | TFormType::B { repeat_count }
+            | TFormType::I { repeat_count }
+            | TFormType::J { repeat_count }
+            | TFormType::K { repeat_count }
+            | TFormType::A { repeat_count }
+            | TFormType::E { repeat_count }
+            | TFormType::D { repeat_count }
+            | TFormType::C { repeat_count }
+            | TFormType::M { repeat_count } => *repeat_count,
+            TFormType::P { .. } | TFormType::Q { .. } => 1,
+        }
+    }
+
+    /// The field gives at least one integer
+    pub(crate) fn is_integer(&self) -> bool {
+        matches!(
+            self,
+            TFormType::B { repeat_count: 1.. }
+                | TFormType::I { repeat_count: 1.. }
+                | TFormType::J { repeat_count: 1.. }
+                | TFormType::K { repeat_count: 1.. }
+        )
+    }
+
+    /// The field gives at least one floating point
+    pub(crate) fn is_floating_point(&self) -> bool {
+        matches!(
+            self,
+            TFormType::E { repeat_count: 1.. } | TFormType::D { repeat_count: 1.. }
+        )
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From af423a20ad5312a3e6bbdce3cb11b520a5e58605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:23 +0000
Subject: [PATCH 13/24] fix: the pixels of a tile-compressed image are put in
 image order

---
 src/image_integration.rs | 57 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 6 deletions(-)

diff --git a/src/image_integration.rs b/src/image_integration.rs
index 50c56d1..72f7385 100644
--- a/src/image_integration.rs
+++ b/src/image_integration.rs
@@ -16,7 +16,7 @@ use crate::fits::HDU as FitsHDU;
 use crate::hdu::data::bintable::data::BinaryTableData;
 use crate::hdu::data::bintable::tile_compressed::pixels::Pixels as TcPixels;
 use crate::hdu::data::image::Pixels;
-use crate::hdu::header::extension::bintable::BinTable;
+use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage};
 use crate::hdu::header::extension::image::Image as FitsImage;
 use crate::hdu::header::Bitpix;
 use crate::{Fits, HDU};
@@ -281,6 +281,44 @@ fn write_f32(buf: &mut [u8], iter: impl Iterator<Item = f32>, is_rgb: bool) {
     }
 }
 
+/// Put the pixels given tile by tile into the order of the image
+fn in_image_order<T>(
+    pixels: impl Iterator<Item = T>,
+    image: &TileCompressedImage,
+) -> impl Iterator<Item = T>
+where
+    T: Copy + Default,
+{
+    // the first 3 axes, as other images are not supported
+    let axis = |i: usize| {
+        let n = image.z_naxisn.get(i).map_or(1, |&n| n as usize);
+        let tile = image.z_tilen.get(i).map_or(1, |&tile| tile);
+
+        (n, tile)
+    };
+    let ((nx, tx), (ny, ty), (nz, tz)) = (axis(0), axis(1), axis(2));
+
+    let mut img = vec![T::default(); nx * ny * nz];
+
+    let tile = |start: usize, tile: usize, n: usize| start..start.saturating_add(tile).min(n);
+    let locations = (0..nz).step_by(tz).flat_map(move |z| {
+        (0..ny).step_by(ty).flat_map(move |y| {
+            (0..nx).step_by(tx).flat_map(move |x| {
+                tile(z, tz, nz).flat_map(move |z| {
+                    tile(y, ty, ny)
+                        .flat_map(move |y| tile(x, tx, nx).map(move |x| (z * ny + y) * nx + x))
+                })
+            })
+        })
+    });
+
+    for (idx, pixel) in locations.zip(pixels) {
+        img[idx] = pixel;
+    }
+
+    img.into_iter()
+}
+
 impl<'a> ImageDecoder for FitsDecoder<'a> {
     fn dimensions(&self) -> (u32, u32) {
         (self.width, self.height)
@@ -331,14 +369,21 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
             HduImageKind::TileCompressed(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
+                let Some(image) = hdu.get_header().get_xtension().get_z_image() else {
+                    return Err(to_image_error("tile-compressed HDU has no z_image"));
+                };
                 match self.fits.get_data(&hdu) {
                     BinaryTableData::TileCompressed(tc) => match tc {
-                        TcPixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                        TcPixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                        TcPixels::I32(it) => write_i32(buf, it, scale, is_rgb),
+                        TcPixels::U8(it) => write_u8(buf, in_image_order(it, image), scale, is_rgb),
+                        TcPixels::I16(it) => {
+                            write_i16(buf, in_image_order(it, image), scale, is_rgb)
+                        }
+                        TcPixels::I32(it) => {
+                            write_i32(buf, in_image_order(it, image), scale, is_rgb)
+                        }
                         // Tile-compressed F32 and F64 iterators both yield f32
-                        TcPixels::F32(it) => write_f32(buf, it, is_rgb),
-                        TcPixels::F64(it) => write_f32(buf, it, is_rgb),
+                        TcPixels::F32(it) => write_f32(buf, in_image_order(it, image), is_rgb),
+                        TcPixels::F64(it) => write_f32(buf, in_image_order(it, image), is_rgb),
                     },
                     BinaryTableData::Table(_) => {
                         return Err(to_image_error(
-- 
2.43.0


From 440f7cdc817f72f191b47e2b66172616e7e6cefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:23 +0000
Subject: [PATCH 14/24] fix: read all the members of a gzipped file

---
 src/gz.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index db6df65..7937e9a 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -1,4 +1,4 @@
-use flate2::read::GzDecoder;
+use flate2::bufread::GzDecoder;
 use std::io::Seek;
 /*
 use crate::hdu::data::FitsRead;
@@ -44,7 +44,7 @@ where
 }
 
 use std::fmt::Debug;
-use std::io::Read;
+use std::io::{BufRead, BufReader, Read};
 
 // We only impl DataRead on gzreaders that wraps a bufreader because in-memory cursors
 // do not "read" the data block. Instead the bytes are directly retrieved which prevent the GzDecoder to operate...
@@ -94,19 +94,20 @@ where
 {
     /// Open a fits file from a path. Can be gzip-compressed
     pub fn new(reader: R) -> Result<Self, Error> {
-        let mut gz = GzDecoder::new(reader);
+        let mut gz = GzDecoder::new(BufReader::new(reader));
 
         match gz.header() {
             // `path` points to a file that is gzip-compressed.
             Some(_) => {
                 let mut buf = vec![];
                 gz.read_to_end(&mut buf)?;
+                read_next_members(gz.into_inner(), &mut buf)?;
 
                 Ok(GzReader::GzReader(Cursor::new(buf.into_boxed_slice())))
             }
             // `path` points to a plain text file.
             None => {
-                let mut r = gz.into_inner();
+                let mut r = gz.into_inner().into_inner();
                 // Since the `GzDecoder` already moved some bytes out of f
                 // by trying to decompress it, the file must be rewinded
                 // TODO There may be a better way instead of reading the same
@@ -118,3 +119,21 @@ where
         }
     }
 }
+
+/// A gzip file can be made of several members, its content is their concatenation.
+///
+/// The bytes following the last member which are not a member are ignored.
+fn read_next_members<R>(mut reader: BufReader<R>, buf: &mut Vec<u8>) -> Result<(), Error>
+where
+    R: Read,
+{
+    const GZIP_ID1: u8 = 0x1f;
+
+    while reader.fill_buf()?.first() == Some(&GZIP_ID1) {
+        let mut gz = GzDecoder::new(reader);
+        gz.read_to_end(buf)?;
+        reader = gz.into_inner();
+    }
+
+    Ok(())
+}
-- 
2.43.0


From 092b78422453b8bee72eb0c99e199b099931b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 15/24] fix: find the unit of a value when a space precedes it
 in the comment

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index 5f467f3..158c406 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -520,6 +520,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // a space usually separates the slash from the comment
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From cf175ac6adbe76bc2f01659b5e466166a514d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 16/24] fix: only the CONTINUE cards immediately following a
 string continue it

---
 src/hdu/header/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 0b85bd9..ca3050e 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -324,7 +324,8 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 }
             }
             // TODO log skipped card at debug level
-            _ => ( /* NOOP */),
+            // FITS document 4.2.1.2: the value is not immediately followed by a CONTINUE record
+            _ => kw = None,
         }
     }
     Err(Error::StaticError("Missing END card"))
-- 
2.43.0


From 7a1078f162142adc18b935cad9abf077695055bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:40 +0000
Subject: [PATCH 17/24] fix: the asynchronous primary HDU must start with
 SIMPLE

---
 src/hdu/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..ec94d09 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -260,16 +260,21 @@ impl AsyncHDU {
         let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
-            Ok(AsyncHDU::Primary(
-                async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
-            ))
+            if name == "SIMPLE" {
+                Ok(AsyncHDU::Primary(
+                    async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
+                ))
+            } else {
+                Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )))
+            }
         } else {
             Err(Error::StaticError("not a FITSv4 file"))
         }
-- 
2.43.0


From b61d3427f70903fb349e9c4cc1e2afd198ae4b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:40 +0000
Subject: [PATCH 18/24] fix: no byte is lost when the asynchronous reader is
 not ready

The futures polled to get to the next HDU, to read its header or to read an item of
its data were dropped, with the bytes they had consumed, when they returned pending.
---
 src/async_fits.rs      | 162 +++++++++++++++++++++++++++--------------
 src/hdu/data/stream.rs | 158 +++++++++++++++-------------------------
 2 files changed, 165 insertions(+), 155 deletions(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..1e9bedb 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -23,6 +23,12 @@ pub struct AsyncFits<R> {
     // Keep track of the number of total bytes for the current HDU as we might
     // skip the trailing bytes to get to a multiple of 2880 bytes
     num_bytes_in_cur_hdu: usize,
+    // The number of trailing bytes remaining to skip before the next HDU
+    #[serde(skip)]
+    num_padding_bytes: usize,
+    // The bytes of the header read so far. When the reader is not ready they are kept to be parsed later
+    #[serde(skip)]
+    header: Vec<u8>,
     // If an error has been encountered, the HDU iterator ends
     error_parsing_encountered: bool,
     reader: R,
@@ -38,13 +44,14 @@ impl<R> AsyncFits<R> {
             reader,
             num_remaining_bytes_in_cur_hdu: 0,
             num_bytes_in_cur_hdu: 0,
+            num_padding_bytes: 0,
+            header: Vec::new(),
             error_parsing_encountered: false,
             start: true,
         }
     }
 }
 
-use futures::AsyncBufReadExt;
 impl<'a, R> AsyncFits<R>
 where
     R: AsyncDataBufRead<'a, Image>
@@ -53,41 +60,67 @@ where
         + 'a,
 {
     /// Returns a boolean to know if we are at EOF
-    async fn consume_until_next_hdu(&mut self) -> Result<bool, Error> {
+    ///
+    /// If the reader is not ready, then the next call goes on from where this one has stopped
+    fn poll_consume_until_next_hdu(&mut self, cx: &mut Context<'_>) -> Poll<Result<bool, Error>> {
         // 1. Check if there are still bytes to be read to get to the end of data
         if self.num_remaining_bytes_in_cur_hdu > 0 {
             // Then read them
-            <R as AsyncDataBufRead<'_, Image>>::read_n_bytes_exact(
+            let eof = ready!(poll_skip_bytes(
                 &mut self.reader,
-                self.num_remaining_bytes_in_cur_hdu as u64,
-            )
-            .await?;
+                &mut self.num_remaining_bytes_in_cur_hdu,
+                cx
+            ))?;
+            if eof {
+                return Poll::Ready(Err(Error::StaticError("The file has reached EOF")));
+            }
         }
 
         // 2. We are at the end of the real data. As FITS standard stores data in block of 2880 bytes
         // we must read until the next block of data to get the location of the next HDU
 
-        let is_remaining_bytes = !self.num_bytes_in_cur_hdu.is_multiple_of(2880);
-        // Skip the remaining bytes to set the reader where a new HDU begins
-        if is_remaining_bytes {
-            let mut block_mem_buf: [u8; 2880] = [0; 2880];
+        // An unexpected EOF is not permitted by the standard but we make it pass
+        // interpreting it as the last HDU in the file
+        let eof = ready!(poll_skip_bytes(
+            &mut self.reader,
+            &mut self.num_padding_bytes,
+            cx
+        ))?;
+        if eof {
+            return Poll::Ready(Ok(true));
+        }
 
-            let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
-            match self
-                .reader
-                .read_exact(&mut block_mem_buf[..num_off_bytes])
-                .await
-            {
-                // An error like unexpected EOF is not permitted by the standard but we make it pass
-                // interpreting it as the last HDU in the file
-                Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(true),
-                Err(e) => return Err(e.into()),
-                Ok(()) => {}
+        let eof = ready!(Pin::new(&mut self.reader).poll_fill_buf(cx))?.is_empty();
+        Poll::Ready(Ok(eof))
+    }
+
+    /// Read the blocks of the header up to the one of its END card
+    ///
+    /// If the header can not be entirely read, this will be noticed when it is parsed
+    fn poll_read_header(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+        const BLOCK_LEN: usize = 2880;
+
+        loop {
+            let last_block = self.header.len() / BLOCK_LEN * BLOCK_LEN;
+            if self.header[last_block..].is_empty() && !self.header.is_empty() {
+                // A block has just been read, does it contain the END card ?
+                let end = self.header[last_block - BLOCK_LEN..]
+                    .chunks_exact(80)
+                    .any(|card| card[..8].trim_ascii() == b"END");
+                if end {
+                    return Poll::Ready(());
+                }
             }
-        }
 
-        let eof = self.reader.fill_buf().await?.is_empty();
-        Ok(eof)
+            let buf = match ready!(Pin::new(&mut self.reader).poll_fill_buf(cx)) {
+                Ok(buf) if !buf.is_empty() => buf,
+                _ => return Poll::Ready(()),
+            };
+
+            let amt = buf.len().min(last_block + BLOCK_LEN - self.header.len());
+            self.header.extend_from_slice(&buf[..amt]);
+            Pin::new(&mut self.reader).consume(amt);
+        }
     }
 
     pub fn get_data<X>(&'a mut self, hdu: &AsyncHDU<X>) -> <R as AsyncDataBufRead<'a, X>>::Data
@@ -110,8 +143,33 @@ where
     }
 }
 
+/// Skip bytes of the reader, returns a boolean to know if EOF has been reached before
+fn poll_skip_bytes<R>(
+    reader: &mut R,
+    num_bytes: &mut usize,
+    cx: &mut Context<'_>,
+) -> Poll<Result<bool, Error>>
+where
+    R: AsyncBufRead + Unpin,
+{
+    while *num_bytes > 0 {
+        let size_buf = ready!(Pin::new(&mut *reader).poll_fill_buf(cx))?.len();
+        if size_buf == 0 {
+            return Poll::Ready(Ok(true));
+        }
+
+        let amt = size_buf.min(*num_bytes);
+        Pin::new(&mut *reader).consume(amt);
+        *num_bytes -= amt;
+    }
+
+    Poll::Ready(Ok(false))
+}
+
+use futures::ready;
 use futures::task::Context;
 use futures::task::Poll;
+use futures::AsyncBufRead;
 impl<'a, R> Stream for AsyncFits<R>
 where
     R: AsyncDataBufRead<'a, Image>
@@ -128,47 +186,39 @@ where
         if self.error_parsing_encountered {
             Poll::Ready(None)
         } else {
-            let hdu = if !self.start {
+            if !self.start && self.header.is_empty() {
                 // We must consume the bytes until the next header is found
                 // if eof then the iterator finishes
-                let consume_tokens_until_next_hdu = self.consume_until_next_hdu();
-                let eof = match std::pin::pin!(consume_tokens_until_next_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // The future finished returning the eof information
-                    Poll::Ready(r) => r,
-                };
-
-                match eof {
-                    Ok(eof) => {
-                        if !eof {
-                            // parse the extension HDU
-                            let r = &mut self.reader;
-                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(r);
-                            match std::pin::pin!(parse_x_hdu).poll(cx) {
-                                Poll::Pending => return Poll::Pending,
-                                // the future finished, returning the parsed hdu or the error while parsing it
-                                Poll::Ready(r) => Some(r),
-                            }
-                        } else {
-                            None
-                        }
+                match ready!(self.poll_consume_until_next_hdu(cx)) {
+                    Ok(false) => {}
+                    Ok(true) => return Poll::Ready(None),
+                    Err(e) => {
+                        self.error_parsing_encountered = true;
+                        return Poll::Ready(Some(Err(e)));
                     }
-                    Err(e) => Some(Err(e)),
                 }
+            }
+
+            ready!(self.poll_read_header(cx));
+
+            // All the bytes of the header are available so its parsing will not wait for some of them
+            let header = std::mem::take(&mut self.header);
+            let mut header_reader = futures::io::BufReader::new(&header[..]);
+            let parsed = if !self.start {
+                // parse the extension HDU
+                let parse_x_hdu = hdu::AsyncHDU::new_xtension(&mut header_reader);
+                std::pin::pin!(parse_x_hdu).poll(cx)
             } else {
                 // parse the primary HDU
-                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut self.reader);
-                match std::pin::pin!(parse_first_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // the future finished, returning the parsed hdu or the error while parsing it
-                    Poll::Ready(r) => Some(r),
-                }
+                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut header_reader);
+                std::pin::pin!(parse_first_hdu).poll(cx)
             };
+            let hdu = ready!(parsed);
 
             self.start = false;
 
             match hdu {
-                Some(Ok(hdu)) => {
+                Ok(hdu) => {
                     self.num_bytes_in_cur_hdu = match &hdu {
                         hdu::AsyncHDU::XImage(h) | hdu::AsyncHDU::Primary(h) => {
                             let xtension = h.get_header().get_xtension();
@@ -185,16 +235,16 @@ where
                     };
 
                     self.num_remaining_bytes_in_cur_hdu = self.num_bytes_in_cur_hdu;
+                    self.num_padding_bytes = (2880 - self.num_bytes_in_cur_hdu % 2880) % 2880;
 
                     Poll::Ready(Some(Ok(hdu)))
                 }
-                Some(Err(e)) => {
+                Err(e) => {
                     // an error has been found we return it and ends the iterator for future next calls
                     self.error_parsing_encountered = true;
 
                     Poll::Ready(Some(Err(e)))
                 }
-                None => Poll::Ready(None),
             }
         }
     }
diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index ac9cd61..87904a8 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -1,5 +1,5 @@
 use byteorder::ByteOrder;
-use futures::AsyncReadExt;
+use futures::ready;
 
 /// An async iterator on the data array
 /// This is an enum whose content depends on the
@@ -28,6 +28,11 @@ where
 {
     pub reader: &'a mut R,
     pub num_remaining_bytes_in_cur_hdu: &'a mut usize,
+    /// The first bytes of the next item, kept when the reader is not ready to give the other ones
+    item: [u8; 8],
+    num_bytes_item: usize,
+    /// A read failed, there is no more item
+    failed: bool,
     phantom: std::marker::PhantomData<T>,
 }
 
@@ -39,16 +44,57 @@ where
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu,
+            item: [0; 8],
+            num_bytes_item: 0,
+            failed: false,
             phantom: std::marker::PhantomData,
         }
     }
+
+    /// Attempt to read the `N` bytes of the next item
+    fn poll_next_bytes<const N: usize>(
+        &mut self,
+        cx: &mut Context<'_>,
+    ) -> Poll<Option<Result<[u8; N], futures::io::Error>>> {
+        while self.num_bytes_item < N {
+            if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
+                // The stream has finished
+                return Poll::Ready(None);
+            }
+
+            let buf = match ready!(Pin::new(&mut *self.reader).poll_fill_buf(cx)) {
+                Ok(buf) if !buf.is_empty() => buf,
+                res => {
+                    self.failed = true;
+
+                    let e = res.err().unwrap_or(ErrorKind::UnexpectedEof.into());
+                    return Poll::Ready(Some(Err(e)));
+                }
+            };
+
+            let amt = buf
+                .len()
+                .min(N - self.num_bytes_item)
+                .min(*self.num_remaining_bytes_in_cur_hdu);
+            self.item[self.num_bytes_item..self.num_bytes_item + amt].copy_from_slice(&buf[..amt]);
+            self.num_bytes_item += amt;
+
+            Pin::new(&mut *self.reader).consume(amt);
+            *self.num_remaining_bytes_in_cur_hdu -= amt;
+        }
+        self.num_bytes_item = 0;
+
+        let mut bytes = [0; N];
+        bytes.copy_from_slice(&self.item[..N]);
+        Poll::Ready(Some(Ok(bytes)))
+    }
 }
 
 use futures::task::Context;
 use futures::task::Poll;
 use futures::AsyncBufRead;
-use futures::Future;
 //use serde::Serialize;
+use std::io::ErrorKind;
 use std::pin::Pin;
 
 //use super::Access;
@@ -64,22 +110,7 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 1];
-
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    *self.num_remaining_bytes_in_cur_hdu -= 1;
-                    Poll::Ready(Some(Ok(buf)))
-                }
-            }
-        }
+        self.poll_next_bytes::<1>(cx)
     }
 }
 
@@ -94,22 +125,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 2];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_i16(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i16>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        let bytes = ready!(self.poll_next_bytes::<2>(cx));
+        Poll::Ready(bytes.map(|bytes| Ok([byteorder::BigEndian::read_i16(&bytes?)])))
     }
 }
 
@@ -124,23 +141,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_i32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i32>();
-
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        let bytes = ready!(self.poll_next_bytes::<4>(cx));
+        Poll::Ready(bytes.map(|bytes| Ok([byteorder::BigEndian::read_i32(&bytes?)])))
     }
 }
 
@@ -155,22 +157,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_i64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i64>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        let bytes = ready!(self.poll_next_bytes::<8>(cx));
+        Poll::Ready(bytes.map(|bytes| Ok([byteorder::BigEndian::read_i64(&bytes?)])))
     }
 }
 
@@ -185,22 +173,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_f32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f32>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        let bytes = ready!(self.poll_next_bytes::<4>(cx));
+        Poll::Ready(bytes.map(|bytes| Ok([byteorder::BigEndian::read_f32(&bytes?)])))
     }
 }
 
@@ -215,22 +189,8 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
-            // The stream has finished
-            Poll::Ready(None)
-        } else {
-            let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
-                Poll::Pending => Poll::Pending,
-                Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    let item = byteorder::BigEndian::read_f64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f64>();
-                    Poll::Ready(Some(Ok([item])))
-                }
-            }
-        }
+        let bytes = ready!(self.poll_next_bytes::<8>(cx));
+        Poll::Ready(bytes.map(|bytes| Ok([byteorder::BigEndian::read_f64(&bytes?)])))
     }
 }
 
-- 
2.43.0


From 11b9d92e39e47e36156a3e5e2bf80f65f76f42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:39 +0000
Subject: [PATCH 19/24] fix: a string value is the name of the variant of an
 enum

ZQUANTIZ was never recognised, so that dithering was never applied.
---
 src/card.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index 158c406..f30abc4 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -499,9 +499,27 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            // a string is the name of the variant
+            Value::String { value, comment: _ } => {
+                visitor.visit_enum(value.as_str().into_deserializer())
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From 69edf1da27a0e6265311acbb7ed36b25956f5e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:04 +0000
Subject: [PATCH 20/24] fix: an interrupted read between the members of a
 gzipped file is retried

---
 src/gz.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index 7937e9a..585e9ff 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -44,7 +44,7 @@ where
 }
 
 use std::fmt::Debug;
-use std::io::{BufRead, BufReader, Read};
+use std::io::{BufRead, BufReader, ErrorKind, Read};
 
 // We only impl DataRead on gzreaders that wraps a bufreader because in-memory cursors
 // do not "read" the data block. Instead the bytes are directly retrieved which prevent the GzDecoder to operate...
@@ -129,11 +129,17 @@ where
 {
     const GZIP_ID1: u8 = 0x1f;
 
-    while reader.fill_buf()?.first() == Some(&GZIP_ID1) {
+    loop {
+        match reader.fill_buf() {
+            Ok(next) if next.first() == Some(&GZIP_ID1) => {}
+            Ok(_) => return Ok(()),
+            // Like any other read, it must be retried
+            Err(e) if e.kind() == ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
+
         let mut gz = GzDecoder::new(reader);
         gz.read_to_end(buf)?;
         reader = gz.into_inner();
     }
-
-    Ok(())
 }
-- 
2.43.0


From c4d3039dd6bcabcaa137ba173fde074c4874c0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:01 +0000
Subject: [PATCH 21/24] fix: a table left after an unreadable array is reached
 again without overflow

---
 src/hdu/data/bintable/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 37fa59d..dcd22a3 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -334,7 +334,8 @@ where
 
         self.reader.seek_relative(off)?;
         // update the byte offset as well
-        self.byte_offset += off as usize;
+        // it goes back if, after an array that could not be read, the main data table has been left
+        self.byte_offset = (self.byte_offset as i64 + off) as usize;
 
         Ok(())
     }
-- 
2.43.0


From 3ae0049f07db189679a464fa075f24e2f1e6e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:19 +0000
Subject: [PATCH 22/24] fix: a row of a table is reached from where the reader
 really is, and a failed read ends the values

---
 src/hdu/data/bintable/data.rs | 37 ++++++++++++++++++++++++++---------
 src/hdu/data/bintable/row.rs  |  6 +++++-
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index dcd22a3..5a5ef5c 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -155,6 +155,9 @@ pub struct TableData<R> {
 
     /// A flag indicating if the iterator will jump to the heap to parse the variable length array columns
     heap: bool,
+
+    /// The values ended or a read failed, there is no more value until a row is sought
+    failed: bool,
 }
 
 impl<R> TableData<&mut Cursor<R>>
@@ -239,6 +242,7 @@ impl<R> TableData<R> {
             ctx: ctx.clone(),
             row_idx,
             heap,
+            failed: false,
         }
     }
 
@@ -350,8 +354,11 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
+            // Where the reader is becomes unknown if one of the seeks fails
+            self.failed = true;
+
             // Leave the heap if an array was being read
-            self.jump_to_main_table()?;
+            self.state = DataReaderState::MainTable;
 
             self.col_idx = 0;
             self.row_idx = idx;
@@ -364,19 +371,20 @@ where
 
             let new_byte_offset =
                 // go to the beginning of the idx-th row
-                (idx as i64) * (self.ctx.naxis1 as i64)
+                (idx as u64) * self.ctx.naxis1
                 // go to the first column of that row
-                + (self.col_byte_offsets[first_col] as i64);
+                + (self.col_byte_offsets[first_col] as u64);
 
-            // Offset for moving from the current position to the new row position
-            let off =
-                // go back to the beginning of the main table data block
-                - (self.byte_offset as i64) + new_byte_offset;
-
-            self.reader.seek_relative(off)?;
+            // Move from where the reader really is, it does not depend on what has been read so far: a read
+            // that failed leaves it anywhere
+            let cur_pos = self.reader.stream_position()?;
+            let new_pos = self.start_pos + new_byte_offset;
+            self.reader
+                .seek_relative(new_pos.wrapping_sub(cur_pos) as i64)?;
 
             self.byte_offset = new_byte_offset as usize;
             self.seek_to_first_col = false;
+            self.failed = false;
 
             Ok(())
         }
@@ -496,6 +504,13 @@ where
 {
     /// Read the next value, or `Some(None)` if the field is an array with no element
     pub(crate) fn next_in_field(&mut self) -> Option<Option<DataValue>> {
+        let value = self.read_in_field();
+        self.failed = value.is_none();
+
+        value
+    }
+
+    fn read_in_field(&mut self) -> Option<Option<DataValue>> {
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
             self.seek_to_first_col = false;
@@ -505,6 +520,10 @@ where
             }
         }
 
+        if self.failed {
+            return None;
+        }
+
         // First get the column index in the main data table where the reader is
         let col_idx = *self.cols_idx.get(self.col_idx)?;
 
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 96dfa13..beec2fa 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -50,9 +50,13 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         let mut row_data = vec![];
 
-        while self.data.row_idx == self.idx_row {
+        loop {
             // an array may have no element
             row_data.extend(self.data.next_in_field()?);
+
+            if self.data.row_idx != self.idx_row {
+                break;
+            }
         }
 
         self.idx_row += 1;
-- 
2.43.0


From 92193eb336a820f11b8702b003f270ecee1a9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:49 +0000
Subject: [PATCH 23/24] fix: a HDU too far for a relative seek is reached all
 the same

---
 src/fits.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 0a357a3..5bfa69d 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -72,8 +72,13 @@ where
         // current seek position since the start of the stream
         let cur_pos = self.reader.stream_position()?;
         let next_hdu_pos = self.pos_start_cur_du as u64 + num_bytes_to_skip;
-        self.reader
-            .seek_relative(next_hdu_pos.wrapping_sub(cur_pos) as i64)?;
+        let off = next_hdu_pos.wrapping_sub(cur_pos) as i64;
+        if (off >= 0) == (next_hdu_pos >= cur_pos) {
+            self.reader.seek_relative(off)?;
+        } else {
+            // too far for a relative seek
+            self.reader.seek(std::io::SeekFrom::Start(next_hdu_pos))?;
+        }
 
         Ok(())
     }
-- 
2.43.0


From eab3a76d43ba38f192b4fe6897bd284b7368e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:15 +0000
Subject: [PATCH 24/24] fix: read a header value into a newtype

---
 src/card.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index f30abc4..7c430bc 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -517,10 +517,21 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
         seq tuple tuple_struct map struct identifier ignored_any
-        newtype_struct unit_struct
+        unit_struct
     }
 }
 
-- 
2.43.0


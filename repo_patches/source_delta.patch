From 64e18d09680d10694b227b20bd23b36ebca12746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 01/76] fix: return an error when the length of a string can
 not be read

---
 crates/zserio/src/ztype/string_decode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/string_decode.rs b/crates/zserio/src/ztype/string_decode.rs
index 438d3a0..e35ab45 100644
--- a/crates/zserio/src/ztype/string_decode.rs
+++ b/crates/zserio/src/ztype/string_decode.rs
@@ -7,7 +7,7 @@ use crate::ztype::varuint_decode::read_varsize;
 
 pub fn read_string(reader: &mut BitReader) -> Result<String> {
     // zserio first writes the string length as a varsize uint
-    let str_len = read_varsize(reader).map(|v| v as usize).unwrap();
+    let str_len = read_varsize(reader)? as usize;
 
     if reader.remaining() < (str_len as u64 * 8) {
         return Err(ZserioError::IoError(std::io::Error::new(
-- 
2.43.0


From 4091653cad20f63201fdbeea16c0f1f88637877c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 02/76] fix: return an error when the last bits of an extern
 can not be read

---
 crates/zserio/src/ztype/extern_type.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index d04ac91..3bc38f2 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -40,9 +40,7 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
     let mut extern_bytes = read_bytes(bit_reader, num_of_full_bytes)?;
     if remaining_bits != 0 {
-        let mut last_byte = bit_reader
-            .read_u8(remaining_bits)
-            .expect("failed to read last bits");
+        let mut last_byte = bit_reader.read_u8(remaining_bits)?;
         let bit_shift = 8 - remaining_bits;
         last_byte <<= bit_shift;
         extern_bytes.push(last_byte);
-- 
2.43.0


From 1c52f186feefc481e84f517b3391d9f36e8fce82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 03/76] fix: return an error when the descriptor of a packed
 array can not be read

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 1dfce53..ff63642 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -95,7 +95,7 @@ impl DeltaContext {
     ) -> Result<()> {
         if !self.processing_started {
             self.processing_started = true;
-            self.read_descriptor(reader);
+            self.read_descriptor(reader)?;
             return self.read_unpacked(array_traits, reader, value);
         }
         if !self.is_packed {
@@ -162,14 +162,13 @@ impl DeltaContext {
         1
     }
 
-    fn read_descriptor(&mut self, reader: &mut BitReader) {
-        self.is_packed = reader
-            .read_bool()
-            .expect("failed to read if the context is packed");
+    fn read_descriptor(&mut self, reader: &mut BitReader) -> Result<()> {
+        self.is_packed = reader.read_bool()?;
         if self.is_packed {
             // read how many bits are used for the delta encoding of each element
-            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS).unwrap() as u8;
+            self.max_bit_number = read_unsigned_bits(reader, MAX_BIT_NUMBER_BITS)? as u8;
         }
+        Ok(())
     }
 
     fn read_unpacked<T>(
-- 
2.43.0


From c47231f0c08288f3ee3561f92c817e07134cb2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 04/76] fix: report the size of strings in arrays in bits, not
 bytes

---
 crates/zserio/src/ztype/array_traits/string_array_trait.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/array_traits/string_array_trait.rs b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
index c6634a6..493b4c6 100644
--- a/crates/zserio/src/ztype/array_traits/string_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/string_array_trait.rs
@@ -19,7 +19,7 @@ impl array_trait::ArrayTrait<String> for StringArrayTrait {
     }
 
     fn bitsize_of(&self, _bit_position: u64, value: &String) -> Result<u64> {
-        Ok(value.len() as u64 + varsize_bitsize(value.len() as u32)? as u64)
+        Ok(value.len() as u64 * 8 + varsize_bitsize(value.len() as u32)? as u64)
     }
 
     fn initialize_offsets(&self, bit_position: u64, value: &String) -> Result<u64> {
-- 
2.43.0


From 143605bb526ce2affde5d09304adb989c1b6dbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 05/76] fix: calculate the delta of packed signed integers on
 signed values

---
 crates/zserio/src/ztype/array_traits/array_trait.rs      | 6 ++++++
 .../src/ztype/array_traits/bit_field_array_trait.rs      | 3 +++
 crates/zserio/src/ztype/array_traits/delta_context.rs    | 9 +++++++--
 .../src/ztype/array_traits/varint16_array_trait.rs       | 3 +++
 .../src/ztype/array_traits/varint32_array_trait.rs       | 3 +++
 .../src/ztype/array_traits/varint64_array_trait.rs       | 3 +++
 .../zserio/src/ztype/array_traits/varint_array_trait.rs  | 3 +++
 7 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/array_trait.rs b/crates/zserio/src/ztype/array_traits/array_trait.rs
index 591a719..ed721e7 100644
--- a/crates/zserio/src/ztype/array_traits/array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/array_trait.rs
@@ -14,6 +14,12 @@ pub trait ArrayTrait<T> {
     #[allow(clippy::wrong_self_convention)]
     fn from_u64(&self, value: u64) -> T;
 
+    /// Returns true if `to_u64` returns a sign-extended value, i.e. if the elements are
+    /// signed integers.
+    fn is_signed(&self) -> bool {
+        false
+    }
+
     // all functions below are for using packed contexts. They provide a default implementation
     // for array traits using delta contexts.
     fn create_context(&self) -> PackingContextNode {
diff --git a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
index efd5a48..1bf51de 100644
--- a/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/bit_field_array_trait.rs
@@ -45,6 +45,9 @@ impl array_trait::ArrayTrait<name> for BitFieldArrayTrait {
     fn from_u64(&self, value: u64) -> name {
         value as name
     }
+    fn is_signed(&self) -> bool {
+        true
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &name) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index ff63642..302aa58 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -51,7 +51,12 @@ impl DeltaContext {
             self.first_element_size = self.unpacked_size;
         } else if self.max_bit_number <= MAX_BIT_NUMBER_LIMIT {
             self.is_packed = true;
-            let delta = self.previous_element.abs_diff(array_trait.to_u64(element));
+            let element_as_u64 = array_trait.to_u64(element);
+            let delta = if array_trait.is_signed() {
+                (self.previous_element as i64).abs_diff(element_as_u64 as i64)
+            } else {
+                self.previous_element.abs_diff(element_as_u64)
+            };
             let max_bit_number = bit_length(delta);
             if max_bit_number > self.max_bit_number {
                 self.max_bit_number = max_bit_number;
@@ -59,7 +64,7 @@ impl DeltaContext {
                     self.is_packed = false;
                 }
             }
-            self.previous_element = array_trait.to_u64(element);
+            self.previous_element = element_as_u64;
         }
         Ok(())
     }
diff --git a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
index 2e9f35f..0ea286f 100644
--- a/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint16_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i16> for VarInt16ArrayTrait {
     fn from_u64(&self, value: u64) -> i16 {
         value as i16
     }
+    fn is_signed(&self) -> bool {
+        true
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i16) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
index 84a9fc2..f866464 100644
--- a/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint32_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i32> for VarInt32ArrayTrait {
     fn from_u64(&self, value: u64) -> i32 {
         value as i32
     }
+    fn is_signed(&self) -> bool {
+        true
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i32) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
index f9b03c0..c751cfd 100644
--- a/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint64_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i64> for VarInt64ArrayTrait {
     fn from_u64(&self, value: u64) -> i64 {
         value as i64
     }
+    fn is_signed(&self) -> bool {
+        true
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
diff --git a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
index 9d999ba..8d7d731 100644
--- a/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
+++ b/crates/zserio/src/ztype/array_traits/varint_array_trait.rs
@@ -39,6 +39,9 @@ impl array_trait::ArrayTrait<i64> for VarIntArrayTrait {
     fn from_u64(&self, value: u64) -> i64 {
         value as i64
     }
+    fn is_signed(&self) -> bool {
+        true
+    }
 
     fn init_context(&self, context_node: &mut PackingContextNode, element: &i64) -> Result<()> {
         context_node.context.as_mut().unwrap().init(self, element)
-- 
2.43.0


From 346422d1e835a0d185a5e3e408e54325a0a5512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 06/76] fix: do not overflow when adding up the deltas of a
 packed array

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index 302aa58..be61291 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -108,7 +108,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let delta = read_signed_bits(reader, self.max_bit_number + 1)?;
-            self.previous_element = (self.previous_element as i64 + delta) as u64;
+            self.previous_element = self.previous_element.wrapping_add(delta as u64);
         }
         *value = array_traits.from_u64(self.previous_element);
         Ok(())
@@ -152,7 +152,7 @@ impl DeltaContext {
         }
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
-            let delta = element_as_u64 as i64 - self.previous_element as i64;
+            let delta = element_as_u64.wrapping_sub(self.previous_element) as i64;
             ztype::write_signed_bits(writer, delta, self.max_bit_number + 1)?;
             self.previous_element = element_as_u64;
         }
-- 
2.43.0


From 550a5594183d3286af7e1abc4b8527373c54488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 07/76] fix: encode and decode the smallest varint value

---
 crates/zserio/src/ztype/varint_bitsize.rs | 10 ++++++----
 crates/zserio/src/ztype/varint_decode.rs  |  7 ++++++-
 crates/zserio/src/ztype/varint_encode.rs  |  9 +++++++--
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/zserio/src/ztype/varint_bitsize.rs b/crates/zserio/src/ztype/varint_bitsize.rs
index bafd68f..5525ff9 100644
--- a/crates/zserio/src/ztype/varint_bitsize.rs
+++ b/crates/zserio/src/ztype/varint_bitsize.rs
@@ -16,12 +16,14 @@ pub fn varint_bitsize(v: i64) -> Result<u8> {
     signed_bitsize(v, 9)
 }
 
-pub fn signed_bitsize(mut v: i64, max_bytes: u8) -> Result<u8> {
-    if v < 0 {
-        v = -v
+pub fn signed_bitsize(v: i64, max_bytes: u8) -> Result<u8> {
+    if v == i64::MIN && max_bytes == 9 {
+        // encoded as negative zero, see write_varint_type
+        return Ok(8);
     }
+    let v = v.unsigned_abs();
 
-    let mut max: i64 = (1 << 6) - 1;
+    let mut max: u64 = (1 << 6) - 1;
 
     let mut bytes = 1;
     loop {
diff --git a/crates/zserio/src/ztype/varint_decode.rs b/crates/zserio/src/ztype/varint_decode.rs
index 3dbd4fb..f01d78e 100644
--- a/crates/zserio/src/ztype/varint_decode.rs
+++ b/crates/zserio/src/ztype/varint_decode.rs
@@ -37,7 +37,12 @@ fn read_sized_int(reader: &mut BitReader, bit_length: u8) -> Result<i64> {
         value = (value << 8) | (b as i64);
     }
     if is_negative {
-        value = -value;
+        value = if value == 0 && bit_length == 9 {
+            // negative zero stands for the smallest value
+            i64::MIN
+        } else {
+            -value
+        };
     }
     Ok(value)
 }
diff --git a/crates/zserio/src/ztype/varint_encode.rs b/crates/zserio/src/ztype/varint_encode.rs
index 8f590de..97dcace 100644
--- a/crates/zserio/src/ztype/varint_encode.rs
+++ b/crates/zserio/src/ztype/varint_encode.rs
@@ -19,10 +19,15 @@ pub fn write_varint(writer: &mut BitWriter, v: i64) -> Result<()> {
 }
 
 pub fn write_varint_type(writer: &mut BitWriter, v: i64, max_bytes: u8) -> Result<()> {
-    let abs_value = if v < 0 { -v as u64 } else { v as u64 };
-
     let needed_bytes = signed_bitsize(v, max_bytes)? / 8;
 
+    if v == i64::MIN {
+        // The absolute value does not fit into the 63 data bits of a varint, instead it
+        // is encoded as negative zero.
+        return Ok(writer.write_unsigned_bits(0x80, 8, 8)?);
+    }
+    let abs_value = v.unsigned_abs();
+
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
         let mut b: u64 = 0x0;
-- 
2.43.0


From 1147acd9160c292a1d51dae6ec9af2d9702a9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 08/76] fix: return an error when a variable-length unsigned
 integer is too large

---
 crates/zserio/src/ztype/varuint_bitsize.rs |  4 ++++
 crates/zserio/src/ztype/varuint_encode.rs  | 10 ++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_bitsize.rs b/crates/zserio/src/ztype/varuint_bitsize.rs
index 63f7455..8cdba5a 100644
--- a/crates/zserio/src/ztype/varuint_bitsize.rs
+++ b/crates/zserio/src/ztype/varuint_bitsize.rs
@@ -1,4 +1,5 @@
 use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 
 pub fn varuint16_bitsize(v: u16) -> Result<u8> {
     unsigned_bitsize(v as u64, 2)
@@ -17,6 +18,9 @@ pub fn varuint_bitsize(v: u64) -> Result<u8> {
 }
 
 pub fn varsize_bitsize(v: u32) -> Result<u8> {
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     unsigned_bitsize(v as u64, 5)
 }
 
diff --git a/crates/zserio/src/ztype/varuint_encode.rs b/crates/zserio/src/ztype/varuint_encode.rs
index e8d422b..fedef02 100644
--- a/crates/zserio/src/ztype/varuint_encode.rs
+++ b/crates/zserio/src/ztype/varuint_encode.rs
@@ -1,8 +1,8 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use crate::ztype::unsigned_bitsize;
 use rust_bitwriter::BitWriter;
 
-const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
+pub(crate) const MAX_VARSIZE: u32 = (1 << (2 + 7 + 7 + 7 + 8)) - 1;
 
 pub fn write_varuint16(writer: &mut BitWriter, v: u16) -> Result<()> {
     write_varuint_type(writer, v as u64, 2)
@@ -22,12 +22,14 @@ pub fn write_varuint(writer: &mut BitWriter, v: u64) -> Result<()> {
 
 // write_varsize writes a zserio varsize value to the bitstream.
 pub fn write_varsize(writer: &mut BitWriter, v: u32) -> Result<()> {
-    assert!(v <= MAX_VARSIZE);
+    if v > MAX_VARSIZE {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     write_varuint_type(writer, v as u64, 5)
 }
 
 pub fn write_varuint_type(writer: &mut BitWriter, v: u64, max_bytes: u8) -> Result<()> {
-    let needed_bytes = unsigned_bitsize(v, max_bytes).unwrap() / 8;
+    let needed_bytes = unsigned_bitsize(v, max_bytes)? / 8;
 
     let needs_complete_bit_range = needed_bytes == max_bytes;
     for i in 0..needed_bytes {
-- 
2.43.0


From a0a20a92e5c2ba48968e7d9eafcc2f7eabbc22a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 09/76] fix: return an error instead of truncating an oversized
 varsize

---
 crates/zserio/src/ztype/varuint_decode.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/zserio/src/ztype/varuint_decode.rs b/crates/zserio/src/ztype/varuint_decode.rs
index e06d1c9..1c06cce 100644
--- a/crates/zserio/src/ztype/varuint_decode.rs
+++ b/crates/zserio/src/ztype/varuint_decode.rs
@@ -1,8 +1,13 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
+use crate::ztype::varuint_encode::MAX_VARSIZE;
 use bitreader::BitReader;
 
 pub fn read_varsize(reader: &mut BitReader) -> Result<u32> {
-    read_sized_uint(reader, 5).map(|v| v as u32)
+    let value = read_sized_uint(reader, 5)?;
+    if value > MAX_VARSIZE as u64 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
+    Ok(value as u32)
 }
 
 pub fn read_varuint16(reader: &mut BitReader) -> Result<u16> {
-- 
2.43.0


From e7f6c8f0619a0ddd1376bb95df45de154d985f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 10/76] fix: refuse to write a value which does not fit in its
 bit field

---
 crates/zserio/src/ztype/bits_encode.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index 537ffc6..c5c553e 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -1,10 +1,13 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
         panic! {"cannot write more than 64 bits"};
     }
+    if bits < 64 && v >> bits != 0 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_u64(v, bits)?)
 }
 
@@ -12,6 +15,11 @@ pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()>
     if bits > 64 {
         panic! {"cannot write more than 64 bits"};
     }
+    // all bits from the sign bit upwards have to be equal
+    let sign_and_upper_bits = v >> bits.saturating_sub(1);
+    if bits == 0 && v != 0 || sign_and_upper_bits != 0 && sign_and_upper_bits != -1 {
+        return Err(ZserioError::DataDoesNotFit);
+    }
     Ok(writer.write_i64(v, bits)?)
 }
 
-- 
2.43.0


From 8e8c971ad5643947a40d5a39351ed1f7a124a95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 11/76] fix: refuse to write extern and bytes values with a
 wrong size

---
 crates/zserio/src/ztype/bytes_type.rs  | 6 ++++++
 crates/zserio/src/ztype/extern_type.rs | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/crates/zserio/src/ztype/bytes_type.rs b/crates/zserio/src/ztype/bytes_type.rs
index c7d2b85..e66dec7 100644
--- a/crates/zserio/src/ztype/bytes_type.rs
+++ b/crates/zserio/src/ztype/bytes_type.rs
@@ -2,6 +2,7 @@ use crate::error::Result;
 use crate::ztype::reader::read_bytes;
 use crate::ztype::writer::write_bytes;
 use crate::ztype::{read_varsize, varsize_bitsize, write_varsize};
+use crate::ZserioError;
 use bitreader::BitReader;
 use rust_bitwriter::BitWriter;
 
@@ -22,6 +23,11 @@ pub fn read_bytes_type(bit_reader: &mut BitReader) -> Result<BytesType> {
 
 /// Writes a zserio bytes type to a bitstream.
 pub fn write_bytes_type(bit_writer: &mut BitWriter, bytes_type: &BytesType) -> Result<()> {
+    if bytes_type.data_blob.len() != bytes_type.byte_size as usize {
+        return Err(ZserioError::DataError(
+            "bytes data does not match its size".into(),
+        ));
+    }
     write_varsize(bit_writer, bytes_type.byte_size)?;
     write_bytes(bit_writer, &bytes_type.data_blob)?;
     Ok(())
diff --git a/crates/zserio/src/ztype/extern_type.rs b/crates/zserio/src/ztype/extern_type.rs
index 3bc38f2..c7ae178 100644
--- a/crates/zserio/src/ztype/extern_type.rs
+++ b/crates/zserio/src/ztype/extern_type.rs
@@ -53,6 +53,11 @@ pub fn read_extern_type(bit_reader: &mut BitReader) -> Result<ExternType> {
 
 /// Writes a zserio extern type to a bitstream.
 pub fn write_extern_type(bit_writer: &mut BitWriter, extern_type: &ExternType) -> Result<()> {
+    if extern_type.data_blob.len() != extern_type.bit_size.div_ceil(8) as usize {
+        return Err(ZserioError::DataError(
+            "extern data does not match its bit size".into(),
+        ));
+    }
     write_varsize(bit_writer, extern_type.bit_size)?;
     let num_of_full_bytes = (extern_type.bit_size / 8) as usize;
     let remaining_bits = (extern_type.bit_size % 8) as u8;
-- 
2.43.0


From 114aeafce02b973555495879e5c77acec05f9c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:33 +0000
Subject: [PATCH 12/76] fix: generate code for binary, upper case hex and float
 literals

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 4 +++-
 crates/zserio-rs-build/src/internal/visitor.rs              | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index b46d8c3..97a6de6 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -447,7 +447,9 @@ fn generate_literal_expression(expression: &Expression) -> String {
         DECIMAL_LITERAL => i32::to_string(&int_value),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
-        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{}", &float_value),
+        BINARY_LITERAL => format!("{int_value:#b}"),
+        // The debug format keeps the decimal point of whole numbers.
+        FLOAT_LITERAL | DOUBLE_LITERAL => format!("{:?}", &float_value),
         BOOL_LITERAL => {
             if bool_value {
                 String::from("true")
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index b8cc798..92715c1 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -947,14 +947,14 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_start_matches("0x"), 16)
+                i32::from_str_radix(&literal_text[2..], 16)
                     .expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
                 i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches('b'), 2)
+                i32::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
@@ -963,6 +963,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
+                    .trim_end_matches(['f', 'F'])
                     .parse::<f64>()
                     .expect("failed to parse float32 expression"),
             ),
-- 
2.43.0


From 98615f1b743f890042235e030a7e3463446a7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 13/76] fix: accept integer literals which need more than 31
 bits

---
 crates/zserio-rs-build/src/internal/ast/expression.rs     | 6 +++---
 .../zserio-rs-build/src/internal/generator/expression.rs  | 2 +-
 crates/zserio-rs-build/src/internal/visitor.rs            | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 49933ba..8806093 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -27,7 +27,7 @@ pub enum ExpressionFlag {
 
 #[derive(Clone, Debug)]
 pub enum ExpressionType {
-    Integer(i32),
+    Integer(i128),
     Float(f64),
     String(String),
     Bool(bool),
@@ -323,7 +323,7 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value) as i32);
+                    self.result_type = ExpressionType::Integer(numbits(value.max(0) as u64) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
@@ -359,7 +359,7 @@ impl Expression {
         }
     }
 
-    fn evaluate_integer_comparison_expression(&mut self, mut value1: i32, mut value2: i32) {
+    fn evaluate_integer_comparison_expression(&mut self, mut value1: i128, mut value2: i128) {
         if !self.operand1.as_ref().unwrap().fully_resolved {
             value1 = 1;
         }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 97a6de6..541df40 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -444,7 +444,7 @@ fn generate_literal_expression(expression: &Expression) -> String {
     };
 
     match expression.expression_type {
-        DECIMAL_LITERAL => i32::to_string(&int_value),
+        DECIMAL_LITERAL => int_value.to_string(),
         HEXADECIMAL_LITERAL => format!("{int_value:#x}"),
         OCTAL_LITERAL => format!("{int_value:#o}"),
         BINARY_LITERAL => format!("{int_value:#b}"),
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 92715c1..62c6729 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -943,18 +943,18 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.DECIMAL_LITERAL().is_some() => ExpressionType::Integer(
                 literal_text
-                    .parse::<i32>()
+                    .parse::<i128>()
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(&literal_text[2..], 16)
+                i128::from_str_radix(&literal_text[2..], 16)
                     .expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
+                i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
             ),
             _ if literal_ctx.BINARY_LITERAL().is_some() => ExpressionType::Integer(
-                i32::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
+                i128::from_str_radix(literal_text.trim_end_matches(['b', 'B']), 2)
                     .expect("Not a binary number!"),
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
-- 
2.43.0


From a2b1f2a891c350a8bb7e23f069d26f258d49905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 14/76] fix: generate the bitwise negation operator

---
 crates/zserio-rs-build/src/internal/ast/expression.rs       | 5 +++++
 crates/zserio-rs-build/src/internal/generator/expression.rs | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 8806093..14f68e3 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -528,6 +528,11 @@ impl Expression {
                     self.result_type = ExpressionType::Integer(!value);
                     self.native_type.clone_from(&op1.native_type);
                 }
+                // The values of bitmasks are not evaluated.
+                ExpressionType::BitMask(_) => {
+                    self.result_type.clone_from(&op1.result_type);
+                    self.fully_resolved = false;
+                }
                 _ => {
                     panic!("bitwise negation expression can only be applied to integer expressions")
                 }
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 541df40..4d22def 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -367,7 +367,7 @@ fn generate_bitwise_negation(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "~{}",
+        "!{}",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
     )
 }
-- 
2.43.0


From b579e82d7ef566817a9f1cd930120051ee53f9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 15/76] fix: count the length prefix in the bit size of extern
 and bytes fields

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 7771ade..32523d8 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -41,10 +41,13 @@ pub fn bitsize_type_reference(
                 field_name
             ));
         } else if type_reference.name == "extern" {
-            function.line(format!("end_position += {}.bit_size as u64;", field_name));
+            function.line(format!(
+                "end_position += ztype::bitsize_of_extern(&{});",
+                field_name
+            ));
         } else if type_reference.name == "bytes" {
             function.line(format!(
-                "end_position += ({}.byte_size as u64) * 8;",
+                "end_position += ztype::bitsize_of_bytes(&{});",
                 field_name
             ));
         } else if type_reference.name == "bool" {
-- 
2.43.0


From d601b2283493739b10208d099b1015f9bd0e0bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 16/76] fix: borrow optional extern and bytes fields when
 writing them

---
 .../zserio-rs-build/src/internal/generator/encode.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1f9775c..49e9dcb 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -115,11 +115,11 @@ pub fn requires_borrowing(field: &Field, native_type: &FundamentalZserioTypeRefe
     if !native_type.fundamental_type.is_builtin {
         return true;
     }
-    // for the native core types, strings make sense to pass by reference.
-    if native_type.fundamental_type.name == "string" {
-        return true;
-    }
-    false
+    // for the native core types, the ones which own memory are passed by reference.
+    matches!(
+        native_type.fundamental_type.name.as_str(),
+        "string" | "extern" | "bytes"
+    )
 }
 
 pub fn encode_field(
-- 
2.43.0


From a79e1e2efc2c44167c46f252a053ec0e0b16d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 17/76] fix: calculate the packed bit size of bit and int
 fields

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 32523d8..00f15f2 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -53,8 +53,6 @@ pub fn bitsize_type_reference(
         } else if type_reference.name == "bool" {
             // boolean
             function.line("end_position += 1;");
-        } else if type_reference.bits != 0 {
-            function.line(format!("end_position += {};", type_reference.bits));
         } else if packed {
             // packed bitsize
             function.line(format!(
@@ -63,6 +61,8 @@ pub fn bitsize_type_reference(
                 initialize_array_trait(scope, type_generator, type_reference),
                 field_name,
             ));
+        } else if type_reference.bits != 0 {
+            function.line(format!("end_position += {};", type_reference.bits));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
-- 
2.43.0


From 16a249b25e5fedd28d8815488a4680fb2b8bbbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 18/76] fix: calculate the bit size of dynamic bit fields

---
 crates/zserio-rs-build/src/internal/generator/bitsize.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 00f15f2..85f89dc 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -63,6 +63,12 @@ pub fn bitsize_type_reference(
             ));
         } else if type_reference.bits != 0 {
             function.line(format!("end_position += {};", type_reference.bits));
+        } else if let Some(length_expression) = &type_reference.length_expression {
+            // the width of dynamic bit fields is only known at runtime
+            function.line(format!(
+                "end_position += ({}) as u64;",
+                generate_expression(&length_expression.borrow(), type_generator, scope)
+            ));
         } else {
             let bit_length = match type_reference.name.as_str() {
                 "uint8" => String::from("8"),
@@ -103,9 +109,6 @@ pub fn bitsize_type_reference(
                 "varsize" => {
                     format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
                 }
-                "int" | "bit" => {
-                    format!("{} as u64", type_reference.bits)
-                }
                 _ => panic!("failed"),
             };
             function.line(format!("end_position += {};", bit_length,));
-- 
2.43.0


From 34d5021e8f9c6f141a0a31135ae1140d2fbf56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:56 +0000
Subject: [PATCH 19/76] fix: return an error instead of panicking when a bit
 size can not be calculated

---
 .../src/internal/generator/bitsize.rs         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 85f89dc..14dc928 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -23,13 +23,13 @@ pub fn bitsize_type_reference(
         if packed {
             // Use packed bitsize
             function.line(format!(
-                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position).unwrap();",
+                "end_position += {}.zserio_bitsize_packed(&mut context_node.children[{}], end_position)?;",
                 field_name,
                 field_index,
             ));
         } else {
             function.line(format!(
-                "end_position += {}.zserio_bitsize(end_position).unwrap();",
+                "end_position += {}.zserio_bitsize(end_position)?;",
                 field_name
             ));
         }
@@ -37,7 +37,7 @@ pub fn bitsize_type_reference(
         if type_reference.name == "string" {
             // string types
             function.line(format!(
-                "end_position += ztype::bitsize_string({}.as_str()).unwrap();",
+                "end_position += ztype::bitsize_string({}.as_str())?;",
                 field_name
             ));
         } else if type_reference.name == "extern" {
@@ -83,31 +83,31 @@ pub fn bitsize_type_reference(
                 "float32" => String::from("32"),
                 "float64" => String::from("64"),
                 "varint" => {
-                    format!("ztype::varint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint_bitsize({})? as u64", field_name)
                 }
                 "varint16" => {
-                    format!("ztype::varint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint16_bitsize({})? as u64", field_name)
                 }
                 "varint32" => {
-                    format!("ztype::varint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint32_bitsize({})? as u64", field_name)
                 }
                 "varint64" => {
-                    format!("ztype::varint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varint64_bitsize({})? as u64", field_name)
                 }
                 "varuint" => {
-                    format!("ztype::varuint_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint_bitsize({})? as u64", field_name)
                 }
                 "varuint16" => {
-                    format!("ztype::varuint16_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint16_bitsize({})? as u64", field_name)
                 }
                 "varuint32" => {
-                    format!("ztype::varuint32_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint32_bitsize({})? as u64", field_name)
                 }
                 "varuint64" => {
-                    format!("ztype::varuint64_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varuint64_bitsize({})? as u64", field_name)
                 }
                 "varsize" => {
-                    format!("ztype::varsize_bitsize({}).unwrap() as u64", field_name)
+                    format!("ztype::varsize_bitsize({})? as u64", field_name)
                 }
                 _ => panic!("failed"),
             };
-- 
2.43.0


From aa455513fa2d2ade0cbbfd06dd07337a99a1d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 20/76] fix: align optional fields after their presence flag
 and only if present

---
 .../src/internal/generator/bitsize.rs         | 30 ++++++++--------
 .../src/internal/generator/decode.rs          | 10 ++++--
 .../src/internal/generator/encode.rs          | 36 +++++++++----------
 3 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 14dc928..63a4711 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -134,6 +134,21 @@ pub fn bitsize_field(
         ));
     }
 
+    if field.is_optional {
+        function.line("end_position += 1;");
+        // If the type is a marshaller, take it by reference.
+        let mut borrow_symbol = String::from("");
+        if requires_borrowing(&field, &field_details.native_type) {
+            borrow_symbol = "&".into();
+        }
+
+        function.line(format!(
+            "if let Some(x) = {}{} {{",
+            borrow_symbol, field_name
+        ));
+        field_name = "x".into();
+    }
+
     // Align the bit count, if alignment is specified.
     if field.alignment != 0 {
         function.line(format!(
@@ -159,21 +174,6 @@ pub fn bitsize_field(
         }
     }
 
-    if field.is_optional {
-        function.line("end_position += 1;");
-        // If the type is a marshaller, take it by reference.
-        let mut borrow_symbol = String::from("");
-        if requires_borrowing(&field, &field_details.native_type) {
-            borrow_symbol = "&".into();
-        }
-
-        function.line(format!(
-            "if let Some(x) = {}{} {{",
-            borrow_symbol, field_name
-        ));
-        field_name = "x".into();
-    }
-
     if field.array.is_some() {
         let array_type_name = array_type_name(&field.name);
         let mut index_offset = String::from("None::<&Vec<u32>>");
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a74477d..b36e02a 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -138,6 +138,13 @@ pub fn decode_field(
         function.line("{");
     }
 
+    // The presence flag of an optional field is in front of the alignment, and there is only
+    // an alignment if the field is present.
+    if field.is_optional {
+        function.line("let present = reader.read_bool()?;");
+        function.line("if present {");
+    }
+
     // Align the byte stream, if alignment is specified.
     if field.alignment != 0 {
         function.line(format!(
@@ -164,9 +171,6 @@ pub fn decode_field(
     }
 
     if field.is_optional {
-        function.line("let present = reader.read_bool()?;");
-        function.line("if present {");
-
         // In case the field is optional, create a local variable
         // to store the value temporarily.
         if field.array.is_some() {
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 49e9dcb..cd3db56 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -140,6 +140,24 @@ pub fn encode_field(
         ));
     }
 
+    let mut field_is_borrowed = false;
+    if field.is_optional {
+        // If the type is a marshaller, take it by reference.
+        field_is_borrowed = requires_borrowing(&field, &field_details.native_type);
+
+        let mut borrow_symbol = String::from("");
+        if field_is_borrowed {
+            borrow_symbol = "&".into();
+        }
+
+        function.line(format!(
+            "if let Some(x) = {}{} {{",
+            borrow_symbol, field_name
+        ));
+        function.line("writer.write_bool(true)?;");
+        field_name = "x".into();
+    }
+
     // Align the byte stream, if alignment is specified.
     if field.alignment != 0 {
         function.line(format!(
@@ -165,24 +183,6 @@ pub fn encode_field(
         }
     }
 
-    let mut field_is_borrowed = false;
-    if field.is_optional {
-        // If the type is a marshaller, take it by reference.
-        field_is_borrowed = requires_borrowing(&field, &field_details.native_type);
-
-        let mut borrow_symbol = String::from("");
-        if field_is_borrowed {
-            borrow_symbol = "&".into();
-        }
-
-        function.line(format!(
-            "if let Some(x) = {}{} {{",
-            borrow_symbol, field_name
-        ));
-        function.line("writer.write_bool(true)?;");
-        field_name = "x".into();
-    }
-
     // Parameter check: by design decision, the objects passed to the encoding
     // part are not mutable. As such, we cannot pass the parameters here ourselves.
     // We can, however, ensure, that the parameters were correctly set, and trigger
-- 
2.43.0


From 3fb5c27cc0e5bc6bb2d91daca18a087a47827adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:36 +0000
Subject: [PATCH 21/76] fix: reset an optional field which is not present when
 reading

---
 crates/zserio-rs-build/src/internal/generator/decode.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index b36e02a..c2e8fdb 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -442,6 +442,12 @@ pub fn decode_field(
             "self.{} = Option::from(optional_value);",
             TypeGenerator::convert_field_name(&field.name)
         ));
+        // Do not keep the value of an object which is read again.
+        function.line("} else {");
+        function.line(format!(
+            "self.{} = None;",
+            TypeGenerator::convert_field_name(&field.name)
+        ));
         function.line("}"); // close the "if present {"
     }
 
-- 
2.43.0


From 1a76c4b35c5dd275796f0e6df8add789e19b3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 22/76] fix: do not pack arrays of types which can not be delta
 packed

---
 .../src/internal/generator/packed_contexts.rs             | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
index 75ed0e8..64c5d86 100644
--- a/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
+++ b/crates/zserio-rs-build/src/internal/generator/packed_contexts.rs
@@ -37,12 +37,10 @@ impl FieldDetails {
 
         // confirm if the field can be packed. even in packed mode, some fields
         // may not use packing, for example if they are offset fields.
-        // arrays can always be packed.
         let is_packable = is_delta_packable(
             symbol_scope,
             field.field_type.as_ref(),
             field.is_offset_field,
-            field.array.is_some(),
         );
         FieldDetails {
             field: field_rc.clone(),
@@ -70,19 +68,15 @@ impl FieldDetails {
 }
 
 /// is_delta_packable identifies if a type is delta-packable or not.
+/// An array is packable if its elements are.
 pub fn is_delta_packable(
     model_scope: &ModelScope,
     zserio_type: &TypeReference,
     is_offset_field: bool,
-    is_array: bool,
 ) -> bool {
     if is_offset_field {
         return false;
     }
-    if is_array {
-        // arrays can always be packed, unless overridden by being used as offsets.
-        return true;
-    }
     let fundamental_type = get_fundamental_type(zserio_type, model_scope);
     if fundamental_type.fundamental_type.is_builtin {
         return matches!(
-- 
2.43.0


From 6c6af2ddb1f400f5be74334c8dc6284673ccc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:27 +0000
Subject: [PATCH 23/76] Revert "fix: align optional fields after their presence
 flag and only if present"

This reverts commit aa455513fa2d2ade0cbbfd06dd07337a99a1d22c.
---
 .../src/internal/generator/bitsize.rs         | 30 ++++++++--------
 .../src/internal/generator/decode.rs          | 10 ++----
 .../src/internal/generator/encode.rs          | 36 +++++++++----------
 3 files changed, 36 insertions(+), 40 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 63a4711..14dc928 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -134,21 +134,6 @@ pub fn bitsize_field(
         ));
     }
 
-    if field.is_optional {
-        function.line("end_position += 1;");
-        // If the type is a marshaller, take it by reference.
-        let mut borrow_symbol = String::from("");
-        if requires_borrowing(&field, &field_details.native_type) {
-            borrow_symbol = "&".into();
-        }
-
-        function.line(format!(
-            "if let Some(x) = {}{} {{",
-            borrow_symbol, field_name
-        ));
-        field_name = "x".into();
-    }
-
     // Align the bit count, if alignment is specified.
     if field.alignment != 0 {
         function.line(format!(
@@ -174,6 +159,21 @@ pub fn bitsize_field(
         }
     }
 
+    if field.is_optional {
+        function.line("end_position += 1;");
+        // If the type is a marshaller, take it by reference.
+        let mut borrow_symbol = String::from("");
+        if requires_borrowing(&field, &field_details.native_type) {
+            borrow_symbol = "&".into();
+        }
+
+        function.line(format!(
+            "if let Some(x) = {}{} {{",
+            borrow_symbol, field_name
+        ));
+        field_name = "x".into();
+    }
+
     if field.array.is_some() {
         let array_type_name = array_type_name(&field.name);
         let mut index_offset = String::from("None::<&Vec<u32>>");
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index c2e8fdb..fa8f684 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -138,13 +138,6 @@ pub fn decode_field(
         function.line("{");
     }
 
-    // The presence flag of an optional field is in front of the alignment, and there is only
-    // an alignment if the field is present.
-    if field.is_optional {
-        function.line("let present = reader.read_bool()?;");
-        function.line("if present {");
-    }
-
     // Align the byte stream, if alignment is specified.
     if field.alignment != 0 {
         function.line(format!(
@@ -171,6 +164,9 @@ pub fn decode_field(
     }
 
     if field.is_optional {
+        function.line("let present = reader.read_bool()?;");
+        function.line("if present {");
+
         // In case the field is optional, create a local variable
         // to store the value temporarily.
         if field.array.is_some() {
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index cd3db56..49e9dcb 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -140,24 +140,6 @@ pub fn encode_field(
         ));
     }
 
-    let mut field_is_borrowed = false;
-    if field.is_optional {
-        // If the type is a marshaller, take it by reference.
-        field_is_borrowed = requires_borrowing(&field, &field_details.native_type);
-
-        let mut borrow_symbol = String::from("");
-        if field_is_borrowed {
-            borrow_symbol = "&".into();
-        }
-
-        function.line(format!(
-            "if let Some(x) = {}{} {{",
-            borrow_symbol, field_name
-        ));
-        function.line("writer.write_bool(true)?;");
-        field_name = "x".into();
-    }
-
     // Align the byte stream, if alignment is specified.
     if field.alignment != 0 {
         function.line(format!(
@@ -183,6 +165,24 @@ pub fn encode_field(
         }
     }
 
+    let mut field_is_borrowed = false;
+    if field.is_optional {
+        // If the type is a marshaller, take it by reference.
+        field_is_borrowed = requires_borrowing(&field, &field_details.native_type);
+
+        let mut borrow_symbol = String::from("");
+        if field_is_borrowed {
+            borrow_symbol = "&".into();
+        }
+
+        function.line(format!(
+            "if let Some(x) = {}{} {{",
+            borrow_symbol, field_name
+        ));
+        function.line("writer.write_bool(true)?;");
+        field_name = "x".into();
+    }
+
     // Parameter check: by design decision, the objects passed to the encoding
     // part are not mutable. As such, we cannot pass the parameters here ourselves.
     // We can, however, ensure, that the parameters were correctly set, and trigger
-- 
2.43.0


From 184a1dbda579cc248c142b89e470efe43fb7ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:29 +0000
Subject: [PATCH 24/76] fix: align optional fields with an offset after their
 presence flag and only if present

---
 .../src/internal/generator/bitsize.rs         | 30 ++++++++--------
 .../src/internal/generator/decode.rs          | 10 ++++--
 .../src/internal/generator/encode.rs          | 34 +++++++++----------
 3 files changed, 39 insertions(+), 35 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index 14dc928..ef4e368 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -142,6 +142,21 @@ pub fn bitsize_field(
         ));
     }
 
+    if field.is_optional {
+        function.line("end_position += 1;");
+        // If the type is a marshaller, take it by reference.
+        let mut borrow_symbol = String::from("");
+        if requires_borrowing(&field, &field_details.native_type) {
+            borrow_symbol = "&".into();
+        }
+
+        function.line(format!(
+            "if let Some(x) = {}{} {{",
+            borrow_symbol, field_name
+        ));
+        field_name = "x".into();
+    }
+
     // Check if there is an offset set for this field.
     let mut gen_offset_expression = String::new();
     let mut use_indexed_offset = false;
@@ -159,21 +174,6 @@ pub fn bitsize_field(
         }
     }
 
-    if field.is_optional {
-        function.line("end_position += 1;");
-        // If the type is a marshaller, take it by reference.
-        let mut borrow_symbol = String::from("");
-        if requires_borrowing(&field, &field_details.native_type) {
-            borrow_symbol = "&".into();
-        }
-
-        function.line(format!(
-            "if let Some(x) = {}{} {{",
-            borrow_symbol, field_name
-        ));
-        field_name = "x".into();
-    }
-
     if field.array.is_some() {
         let array_type_name = array_type_name(&field.name);
         let mut index_offset = String::from("None::<&Vec<u32>>");
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index fa8f684..a8488fd 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -146,6 +146,13 @@ pub fn decode_field(
         ));
     }
 
+    // The presence flag of an optional field is in front of the offset alignment, which only
+    // applies if the field is present.
+    if field.is_optional {
+        function.line("let present = reader.read_bool()?;");
+        function.line("if present {");
+    }
+
     // Check if there is an offset set for this field.
     let mut gen_offset_expression = String::new();
     let mut use_indexed_offset = false;
@@ -164,9 +171,6 @@ pub fn decode_field(
     }
 
     if field.is_optional {
-        function.line("let present = reader.read_bool()?;");
-        function.line("if present {");
-
         // In case the field is optional, create a local variable
         // to store the value temporarily.
         if field.array.is_some() {
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 49e9dcb..e03654b 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -148,23 +148,6 @@ pub fn encode_field(
         ));
     }
 
-    // Check if there is an offset set for this field.
-    let mut gen_offset_expression = String::new();
-    let mut use_indexed_offset = false;
-    if let Some(offset) = &field.offset {
-        let offset_expr = &offset.borrow();
-        use_indexed_offset = does_expression_contains_index_operator(offset_expr);
-        gen_offset_expression = generate_expression(
-            &extract_indexed_offset_expression(offset_expr),
-            type_generator,
-            scope,
-        );
-
-        if !use_indexed_offset {
-            function.line("ztype::align_writer(writer, 8)?;".to_string());
-        }
-    }
-
     let mut field_is_borrowed = false;
     if field.is_optional {
         // If the type is a marshaller, take it by reference.
@@ -183,6 +166,23 @@ pub fn encode_field(
         field_name = "x".into();
     }
 
+    // Check if there is an offset set for this field.
+    let mut gen_offset_expression = String::new();
+    let mut use_indexed_offset = false;
+    if let Some(offset) = &field.offset {
+        let offset_expr = &offset.borrow();
+        use_indexed_offset = does_expression_contains_index_operator(offset_expr);
+        gen_offset_expression = generate_expression(
+            &extract_indexed_offset_expression(offset_expr),
+            type_generator,
+            scope,
+        );
+
+        if !use_indexed_offset {
+            function.line("ztype::align_writer(writer, 8)?;".to_string());
+        }
+    }
+
     // Parameter check: by design decision, the objects passed to the encoding
     // part are not mutable. As such, we cannot pass the parameters here ourselves.
     // We can, however, ensure, that the parameters were correctly set, and trigger
-- 
2.43.0


From 41e3705249d7d5551e92b79fbbcaae64bf5441a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 25/76] fix: return an error when the tag of a union designates
 no member

---
 .../zserio-rs-build/src/internal/generator/zunion.rs  | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 723482e..7394ec6 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -70,18 +70,21 @@ pub fn generate_union(
     let union_selector_impl_gen_scope = codegen_scope.new_impl(&selector_type_name);
     let union_selector_from_fn_scope = union_selector_impl_gen_scope.new_fn("from_u32");
     union_selector_from_fn_scope.arg("value", "u32");
-    union_selector_from_fn_scope.ret(&selector_type_name);
+    union_selector_from_fn_scope.ret(format!("Result<{}>", &selector_type_name));
     union_selector_from_fn_scope.vis("pub");
     union_selector_from_fn_scope.line("match value {");
     for (field_index, field) in zunion.fields.iter().enumerate() {
         let selector_union_name = convert_to_union_selector_name(&field.borrow().name);
         union_selector_from_fn_scope.line(format!(
-            "{} => {}::{},",
+            "{} => Ok({}::{}),",
             field_index, selector_type_name, selector_union_name
         ));
     }
 
-    union_selector_from_fn_scope.line("_ => panic!(\"unsupported value\"),");
+    union_selector_from_fn_scope.line(format!(
+        "_ => Err(zserio::ZserioError::DataError(format!(\"unexpected selector {{}} of union {}\", value))),",
+        &rust_type_name
+    ));
     union_selector_from_fn_scope.line("}");
 
     // generate the union itself
@@ -206,7 +209,7 @@ fn generate_zserio_read(
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
     zserio_read_fn.line(format!(
-        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?);",
+        "self.union_selector = {}Selector::from_u32(ztype::read_varsize(reader)?)?;",
         rust_type_name
     ));
 
-- 
2.43.0


From aa1410970f83634d589180dcbe5dffb0a5e4aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 26/76] fix: pack the tag and the active member of a union

---
 .../src/internal/generator/zunion.rs          | 46 +++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index 7394ec6..a07c281 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -5,7 +5,9 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
-    file_generator::write_to_file, function::generate_function, packed_contexts::FieldDetails,
+    file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
+    packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::convert_to_union_selector_name, types::TypeGenerator,
 };
 use codegen::{Function, Scope, Struct};
@@ -128,13 +130,39 @@ pub fn generate_union(
     generate_zserio_bitsize(symbol_scope, type_generator, union_impl, zunion);
 
     // Generate the packed contexts.
+    // The context of the selector is stored in the node of the union itself, and each field has
+    // a child node.
     let create_packing_context_fn = union_impl.new_fn("zserio_create_packing_context");
     create_packing_context_fn.arg("context_node", "&mut PackingContextNode");
+    create_packing_context_fn.line("context_node.context = Some(DeltaContext::new());");
+    for (field_index, field) in zunion.fields.iter().enumerate() {
+        let field_details =
+            FieldDetails::from_field(field, field_index, symbol_scope, type_generator);
+        generate_packed_context_for_field(create_packing_context_fn, &field_details);
+    }
 
     let init_packing_context_fn = union_impl.new_fn("zserio_init_packing_context");
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
+    init_packing_context_fn.line(
+        "context_node.context.as_mut().unwrap().init(&ztype::array_traits::VarSizeArrayTrait {}, &(self.union_selector as u32))?;",
+    );
+    generate_union_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zunion,
+        true,
+        &|symbol_scope, type_generator, function, field_details, _packed| {
+            generate_init_packed_context_for_field(
+                symbol_scope,
+                type_generator,
+                function,
+                field_details,
+            )
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
@@ -228,6 +256,14 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
+    zserio_read_packed_fn.line("let mut selector: u32 = 0;");
+    zserio_read_packed_fn.line(
+        "context_node.context.as_mut().unwrap().read(&ztype::array_traits::VarSizeArrayTrait {}, reader, &mut selector)?;",
+    );
+    zserio_read_packed_fn.line(format!(
+        "self.union_selector = {}Selector::from_u32(selector)?;",
+        rust_type_name
+    ));
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -265,8 +301,9 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
-    zserio_write_packed_fn
-        .line("ztype::write_varsize(writer, self.union_selector as u32)?;".to_string());
+    zserio_write_packed_fn.line(
+        "context_node.context.as_mut().unwrap().write(&ztype::array_traits::VarSizeArrayTrait {}, writer, &(self.union_selector as u32))?;",
+    );
     generate_union_match_construct(
         symbol_scope,
         type_generator,
@@ -306,6 +343,9 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("context_node", "&mut PackingContextNode");
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
+    bitsize_packed_fn.line(
+        "end_position += context_node.context.as_mut().unwrap().bitsize_of(&ztype::array_traits::VarSizeArrayTrait {}, end_position, &(self.union_selector as u32))?;",
+    );
     generate_union_match_construct(
         symbol_scope,
         type_generator,
-- 
2.43.0


From 076685e7fecf13ae0db9570ea37b51c94e79f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 27/76] fix: generate the default case of a choice

---
 .../src/internal/ast/expression.rs               |  3 ++-
 .../src/internal/generator/pass_parameters.rs    | 16 +++++++++++++---
 .../src/internal/generator/zchoice.rs            |  6 +++---
 crates/zserio-rs-build/src/internal/visitor.rs   | 13 ++++++++++---
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 14f68e3..c7841c1 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -323,7 +323,8 @@ impl Expression {
         match &self.operand1 {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
-                    self.result_type = ExpressionType::Integer(numbits(value.max(0) as u64) as i128);
+                    self.result_type =
+                        ExpressionType::Integer(numbits(value.max(0) as u64) as i128);
                     self.fully_resolved = op1.fully_resolved;
                     self.native_type = Some(TypeReference::new_native_type("varsize"));
                 }
diff --git a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
index 4d3458c..fb5b55f 100644
--- a/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
+++ b/crates/zserio-rs-build/src/internal/generator/pass_parameters.rs
@@ -1,5 +1,5 @@
 use crate::internal::ast::{
-    expression::Expression, parameter::Parameter, type_reference::TypeReference,
+    expression::Expression, parameter::Parameter, type_reference::TypeReference, zchoice::ZChoice,
 };
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
@@ -20,13 +20,23 @@ pub fn get_type_parameter(
     }
 }
 
+/// Return the number of fields of a choice, including the one of the default case.
+fn number_of_choice_fields(zchoice: &ZChoice) -> usize {
+    zchoice
+        .cases
+        .iter()
+        .chain(&zchoice.default_case)
+        .filter(|case| case.field.is_some())
+        .count()
+}
+
 /// Return the number of fields in the rust struct that is generated for this type.
 pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     let symbol = scope.get_symbol(type_ref);
     match symbol.symbol {
         Symbol::Choice(zchoice) => {
             let zchoice = zchoice.borrow();
-            zchoice.cases.len() + zchoice.type_parameters.len()
+            number_of_choice_fields(&zchoice) + zchoice.type_parameters.len()
         }
         Symbol::Struct(zstruct) => {
             let zstruct = zstruct.borrow();
@@ -46,7 +56,7 @@ pub fn number_of_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
 pub fn number_of_data_fields(scope: &ModelScope, type_ref: &TypeReference) -> usize {
     let symbol = scope.get_symbol(type_ref);
     match symbol.symbol {
-        Symbol::Choice(zchoice) => zchoice.borrow().cases.len(),
+        Symbol::Choice(zchoice) => number_of_choice_fields(&zchoice.borrow()),
         Symbol::Struct(zstruct) => zstruct.borrow().fields.len(),
         Symbol::Union(zunion) => zunion.borrow().fields.len(),
         _ => 0,
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 826b178..66f5e1f 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -180,7 +180,7 @@ pub fn generate_choice_match_construct(
         code_gen_fn.line("},");
     }
     if let Some(default_case) = &zchoice.default_case {
-        code_gen_fn.line("_ => (");
+        code_gen_fn.line("_ => {");
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
@@ -189,7 +189,7 @@ pub fn generate_choice_match_construct(
                 type_generator,
                 code_gen_fn,
                 &field.borrow(),
-                false,
+                packed,
                 default_field.is_packable,
             );
             f(
@@ -200,7 +200,7 @@ pub fn generate_choice_match_construct(
                 packed,
             );
         }
-        code_gen_fn.line("),");
+        code_gen_fn.line("},");
     } else {
         code_gen_fn.line("_ => (),");
     }
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 62c6729..8a6e466 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -548,7 +548,15 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             };
         }
 
-        // TODO visit the default type
+        // visit the default case
+        if let Some(choice_default_ctx) = ctx.choiceDefault() {
+            match self.visit_choiceDefault(&choice_default_ctx) {
+                ZserioTreeReturnType::ChoiceCase(choice_case) => {
+                    choice.default_case = Option::from(choice_case)
+                }
+                _ => panic!("choice default type mismatch"),
+            };
+        }
 
         // Visit all functions defined for this choice.
         for function_ctx in ctx.functionDefinition_all() {
@@ -947,8 +955,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
                     .expect("failed to parse integer expression"),
             ),
             _ if literal_ctx.HEXADECIMAL_LITERAL().is_some() => ExpressionType::Integer(
-                i128::from_str_radix(&literal_text[2..], 16)
-                    .expect("Not a hex number!"),
+                i128::from_str_radix(&literal_text[2..], 16).expect("Not a hex number!"),
             ),
             _ if literal_ctx.OCTAL_LITERAL().is_some() => ExpressionType::Integer(
                 i128::from_str_radix(literal_text.as_str(), 8).expect("Not an octal number!"),
-- 
2.43.0


From 55f59a23fca0dd76a5e1792a9f07423a8173b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:23 +0000
Subject: [PATCH 28/76] fix: initialize the packing context of the selected
 choice member only

---
 .../src/internal/generator/zchoice.rs         | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 66f5e1f..7b44273 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -101,14 +101,21 @@ pub fn generate_choice(
     init_packing_context_fn.arg_ref_self();
     init_packing_context_fn.arg("context_node", "&mut PackingContextNode");
     init_packing_context_fn.ret("Result<()>");
-    for field in &field_details {
-        generate_init_packed_context_for_field(
-            symbol_scope,
-            type_generator,
-            init_packing_context_fn,
-            field,
-        );
-    }
+    generate_choice_match_construct(
+        symbol_scope,
+        type_generator,
+        init_packing_context_fn,
+        zchoice,
+        true,
+        &|symbol_scope, type_generator, function, field_details, _packed| {
+            generate_init_packed_context_for_field(
+                symbol_scope,
+                type_generator,
+                function,
+                field_details,
+            )
+        },
+    );
     init_packing_context_fn.line("Ok(())");
 
     // Generate all the zserio functions.
-- 
2.43.0


From edfdd553bed6b6189e9b50d25a759b43548b07e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:26 +0000
Subject: [PATCH 29/76] fix: return an error when the selector of a choice
 designates no member

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 7b44273..3515d4a 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -209,7 +209,11 @@ pub fn generate_choice_match_construct(
         }
         code_gen_fn.line("},");
     } else {
-        code_gen_fn.line("_ => (),");
+        // There is neither a case for this selector, nor a default.
+        code_gen_fn.line(format!(
+            "_ => return Err(zserio::ZserioError::DataError(String::from(\"no match in choice {}\"))),",
+            TypeGenerator::to_rust_type_name(&zchoice.name)
+        ));
     }
     code_gen_fn.line("}");
 }
-- 
2.43.0


From f88c1e89fc9b26494984c5bcde1e818229590439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:00 +0000
Subject: [PATCH 30/76] fix: pick the next free bit for bitmask values, in any
 order of explicit values

---
 crates/zserio-rs-build/src/internal/ast/zbitmask.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index 158afeb..eda9a0b 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -37,6 +37,7 @@ impl ZBitmaskType {
     /// Evaluates all expressions within this bitmask type.
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         let mut bitmask_value = 1u64;
+        let mut defined_values = vec![];
         for value in &mut self.values {
             // Check if the bitmask value has a value hard-coded.
             // If yes, use the value from the expression.
@@ -48,19 +49,17 @@ impl ZBitmaskType {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
-                if expr_bitmask_value < bitmask_value && expr_bitmask_value != 0 {
+                if defined_values.contains(&expr_bitmask_value) && expr_bitmask_value != 0 {
                     panic!("expression redefines bitmask value");
                 }
                 bitmask_value = expr_bitmask_value;
             }
             value.value = bitmask_value;
+            defined_values.push(bitmask_value);
 
-            // Pick the next bit for the next bitmask value.
-            if bitmask_value == 0 {
-                bitmask_value = 1;
-            } else {
-                bitmask_value <<= 1;
-            }
+            // Pick the bit above the highest bit in use for the next bitmask value.
+            let next_bit = u64::BITS - bitmask_value.leading_zeros();
+            bitmask_value = 1u64.checked_shl(next_bit).unwrap_or(0);
         }
         self.zserio_type.evaluate(scope);
     }
-- 
2.43.0


From cf0bec0befe8d46952edfc74571dc3a7b9cf0734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:28 +0000
Subject: [PATCH 31/76] fix: isset checks all bits of the value

---
 crates/zserio-rs-build/src/internal/ast/expression.rs    | 6 +++++-
 .../zserio-rs-build/src/internal/generator/expression.rs | 9 ++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index c7841c1..dbac2a7 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -289,8 +289,12 @@ impl Expression {
     fn evaluate_isset_expression(&mut self) {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_)) => {
+                (
+                    ExpressionType::BitMask(_),
+                    ExpressionType::BitMask(_) | ExpressionType::Integer(_),
+                ) => {
                     self.result_type = ExpressionType::Bool(false);
+                    self.fully_resolved = false;
                 }
                 _ => panic!(
                     "the isset(bitmask, value_to_check) expression requires two bitmask parameters"
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 4d22def..3cb9187 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -241,11 +241,10 @@ fn generate_isset_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    format!(
-        "{} & ({}) != 0",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope)
-    )
+    // All bits of the checked value have to be set.
+    let mask = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
+    let value = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
+    format!("((({mask}) & ({value})) == ({value}))")
 }
 
 fn generate_valueof_expression(
-- 
2.43.0


From 275818da24b4ed66a8128f971bf724a937ed8620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:29 +0000
Subject: [PATCH 32/76] fix: use the enum and bitmask types for the result of
 their expressions

---
 .../src/internal/ast/expression.rs                | 15 +++++++++------
 .../src/internal/generator/expression.rs          |  4 ++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index dbac2a7..94a7494 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -193,7 +193,8 @@ impl Expression {
                 ExpressionType::Enum(z_enum) => {
                     for z_enum_field in &z_enum.as_ref().borrow().items {
                         if z_enum_field.name == op2.text {
-                            self.result_type = ExpressionType::Integer(0);
+                            self.result_type = ExpressionType::Enum(z_enum.clone());
+                            self.fully_resolved = false;
                             return;
                         }
                     }
@@ -215,7 +216,7 @@ impl Expression {
                 ExpressionType::BitMask(z_bitmask) => {
                     for bitmask_value in &z_bitmask.as_ref().borrow().values {
                         if bitmask_value.name == op2.text {
-                            self.result_type = ExpressionType::Integer(0);
+                            self.result_type = ExpressionType::BitMask(z_bitmask.clone());
                             self.fully_resolved = false;
                             return;
                         }
@@ -560,11 +561,13 @@ impl Expression {
                     };
                     self.result_type = ExpressionType::Integer(result);
                 }
-                (ExpressionType::BitMask(_), ExpressionType::Integer(_))
-                | (ExpressionType::Integer(_), ExpressionType::BitMask(_))
-                | (ExpressionType::BitMask(_), ExpressionType::BitMask(_)) => {
+                (
+                    ExpressionType::BitMask(bitmask),
+                    ExpressionType::BitMask(_) | ExpressionType::Integer(_),
+                )
+                | (ExpressionType::Integer(_), ExpressionType::BitMask(bitmask)) => {
                     // For bitmasks, we won't evaluate the values yet.
-                    self.result_type = ExpressionType::Integer(0);
+                    self.result_type = ExpressionType::BitMask(bitmask.clone());
                     self.fully_resolved = false;
                 }
                 _ => {
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 3cb9187..2fb135e 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -18,8 +18,8 @@ pub fn generate_boolean_expression(
 ) -> String {
     let generated_code = generate_expression(expression, type_generator, scope);
     match expression.result_type {
-        ExpressionType::BitMask(_) => format!("{} != 0", generated_code),
-        ExpressionType::Integer(_) => format!("{} != 0", generated_code),
+        ExpressionType::BitMask(_) => format!("({}) != 0", generated_code),
+        ExpressionType::Integer(_) => format!("({}) != 0", generated_code),
         _ => generated_code,
     }
 }
-- 
2.43.0


From 2de54952ca5d72bfe6e60670ce09bfb357378f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 33/76] fix: enclose the valueof operator in parentheses, and
 support all bitmask expressions

---
 .../src/internal/generator/expression.rs      | 27 +++----------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 2fb135e..c293bd9 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -177,24 +177,6 @@ fn generate_bracketed_expression(
     )
 }
 
-fn is_bitmask_expression(expression: &Expression, scope: &ModelScope) -> bool {
-    if let Some(expr_symbol) = &expression.symbol {
-        let fund_type = match &expr_symbol.symbol {
-            Symbol::Field(field) => get_fundamental_type(&field.borrow().field_type, scope),
-            Symbol::Parameter(param) => get_fundamental_type(&param.borrow().zserio_type, scope),
-            _ => return false,
-        };
-        if fund_type.fundamental_type.is_builtin {
-            return false;
-        }
-        return matches!(
-            scope.get_symbol(&fund_type.fundamental_type).symbol,
-            Symbol::Bitmask(_)
-        );
-    }
-    false
-}
-
 fn generate_dot_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -254,14 +236,13 @@ fn generate_valueof_expression(
 ) -> String {
     let native_type = expression.native_type.as_ref().unwrap();
     let fundamental_type = get_fundamental_type(native_type, scope);
-    let bitmask_suffix = if is_bitmask_expression(expression.operand1.as_ref().unwrap(), scope) {
-        ".bits()"
-    } else {
-        ""
+    let bitmask_suffix = match &expression.operand1.as_ref().unwrap().result_type {
+        ExpressionType::BitMask(_) => ".bits()",
+        _ => "",
     };
 
     format!(
-        "{}{} as {}",
+        "(({}){} as {})",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         bitmask_suffix,
         type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type),
-- 
2.43.0


From 88c49914e2c37c1d4e628058f8327e4fc0662547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:33 +0000
Subject: [PATCH 34/76] fix: support all integer types in mixed expressions

---
 .../src/internal/ast/evaluate_mixing_native_types.rs      | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index ddd2e72..e9c1af2 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -48,6 +48,10 @@ fn get_integer_rank(integer_type: &TypeReference) -> u8 {
         "uint8" => 8,
         "uint16" => 16,
         "uint32" => 32,
+        "uint64" => 64,
+        // bit fields are always stored in 64 bits
+        "bit" => 64,
+        "int" => 64,
         "varuint16" => 15,
         "varuint32" => 29,
         "varuint64" => 57,
@@ -67,9 +71,12 @@ pub fn is_signed(int_type_name: &str) -> bool {
         "varint32" => true,
         "varint64" => true,
         "varint" => true,
+        "int" => true,
         "uint8" => false,
         "uint16" => false,
         "uint32" => false,
+        "uint64" => false,
+        "bit" => false,
         "varuint16" => false,
         "varuint32" => false,
         "varuint64" => false,
@@ -89,6 +96,7 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
         "varint32" => "varuint32".into(),
         "varint64" => "varuint64".into(),
         "varint" => "varuint".into(),
+        "int" => "bit".into(),
         _ => panic!("unexpected signed integer type {:?}", int_type_name),
     }
 }
-- 
2.43.0


From c03ae65cc0879e708b221e7f213b73686b02587f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:35 +0000
Subject: [PATCH 35/76] fix: use the float type when mixing integers and floats
 in expressions

---
 .../src/internal/ast/evaluate_mixing_native_types.rs  | 11 +++++++++++
 crates/zserio-rs-build/src/internal/ast/expression.rs |  7 ++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index e9c1af2..81880d8 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -28,6 +28,17 @@ pub fn evaluate_mixing_float_types(
     }
 }
 
+/// If one operand is an integer, the type of the other (float) operand is used.
+pub fn evaluate_mixing_integer_and_float_types(
+    integer_type: &Option<TypeReference>,
+    float_type: &Option<TypeReference>,
+) -> Option<TypeReference> {
+    match (integer_type, float_type) {
+        (_, Some(_)) => float_type.clone(),
+        _ => Some(TypeReference::new_native_type("float64")),
+    }
+}
+
 fn get_integer_rank(integer_type: &TypeReference) -> u8 {
     // if the bit length is dynamic, always assume 64bits
     if integer_type.length_expression.is_some() {
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 94a7494..bc6b3da 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -1,7 +1,8 @@
 use crate::internal::ast::zbitmask::ZBitmaskType;
 
 use crate::internal::ast::evaluate_mixing_native_types::{
-    evaluate_mixing_float_types, evaluate_mixing_integer_types,
+    evaluate_mixing_float_types, evaluate_mixing_integer_and_float_types,
+    evaluate_mixing_integer_types,
 };
 use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
@@ -487,12 +488,12 @@ impl Expression {
                 }
                 (ExpressionType::Integer(value1), ExpressionType::Float(value2)) => {
                     self.native_type =
-                        evaluate_mixing_float_types(&op1.native_type, &op2.native_type);
+                        evaluate_mixing_integer_and_float_types(&op1.native_type, &op2.native_type);
                     self.evaluate_float_arithmetic_expression(*value1 as f64, *value2);
                 }
                 (ExpressionType::Float(value1), ExpressionType::Integer(value2)) => {
                     self.native_type =
-                        evaluate_mixing_float_types(&op1.native_type, &op2.native_type);
+                        evaluate_mixing_integer_and_float_types(&op2.native_type, &op1.native_type);
                     self.evaluate_float_arithmetic_expression(*value1, *value2 as f64);
                 }
                 (ExpressionType::String(str1), ExpressionType::String(str2)) => {
-- 
2.43.0


From afa80dd1b95fcfdf23b669bdbef494deafd67d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:51 +0000
Subject: [PATCH 36/76] fix: cast the operands of comparisons to a common type

---
 .../src/internal/ast/expression.rs            |   6 +
 .../src/internal/generator/expression.rs      | 150 +++++++++++-------
 2 files changed, 99 insertions(+), 57 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index bc6b3da..b65d6b9 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -397,6 +397,12 @@ impl Expression {
                     (ExpressionType::BitMask(_), ExpressionType::Integer(value2)) => {
                         self.evaluate_integer_comparison_expression(1, *value2);
                     }
+                    // The values of expressions which mix integers and floats are not evaluated.
+                    (ExpressionType::Integer(_), ExpressionType::Float(_))
+                    | (ExpressionType::Float(_), ExpressionType::Integer(_)) => {
+                        self.result_type = ExpressionType::Bool(false);
+                        self.fully_resolved = false;
+                    }
                     (ExpressionType::Float(value1), ExpressionType::Float(value2)) => {
                         self.result_type = ExpressionType::Bool(match self.expression_type {
                             EQ => value1 == value2,
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index c293bd9..62870c7 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -1,6 +1,11 @@
+use crate::internal::ast::evaluate_mixing_native_types::{
+    evaluate_mixing_float_types, evaluate_mixing_integer_and_float_types,
+    evaluate_mixing_integer_types,
+};
 use crate::internal::ast::expression::{
     EvaluationState, Expression, ExpressionFlag, ExpressionType,
 };
+use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
 use crate::internal::generator::types::{convert_to_enum_field_name, TypeGenerator};
@@ -84,6 +89,60 @@ fn generate_unary_arithmetic_expression(
     )
 }
 
+/// Returns the type in which two operands need to be combined.
+fn common_operand_type(op1: &Expression, op2: &Expression) -> Option<TypeReference> {
+    match (&op1.result_type, &op2.result_type) {
+        (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+            evaluate_mixing_integer_types(&op1.native_type, &op2.native_type)
+        }
+        (ExpressionType::Float(_), ExpressionType::Float(_)) => {
+            evaluate_mixing_float_types(&op1.native_type, &op2.native_type)
+        }
+        (ExpressionType::Integer(_), ExpressionType::Float(_)) => {
+            evaluate_mixing_integer_and_float_types(&op1.native_type, &op2.native_type)
+        }
+        (ExpressionType::Float(_), ExpressionType::Integer(_)) => {
+            evaluate_mixing_integer_and_float_types(&op2.native_type, &op1.native_type)
+        }
+        _ => None,
+    }
+}
+
+/// Generates an operand, and casts it to the target type if needed.
+/// Casting is needed in the following cases:
+/// - mixing floats with integers
+/// - mixing signed/unsigned types
+/// - mixing different bit lengths
+/// - mixing numerals of different types
+/// Casting is not needed in the following cases:
+/// - There is no target type, because the expression is not numeric.
+/// - The operand is a numeral without type annotations, for example
+///   "17.5 + 13.6"
+fn generate_operand(
+    operand: &Expression,
+    target_type: &Option<TypeReference>,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let code = generate_expression(operand, type_generator, scope);
+    let target = match target_type {
+        Some(target_type) => target_type,
+        None => return code,
+    };
+    let target_rust_type = type_generator.ztype_to_rust_type(target);
+    let requires_cast = match (&operand.result_type, &operand.native_type) {
+        (_, Some(native_type)) => {
+            type_generator.ztype_to_rust_type(native_type) != target_rust_type
+        }
+        (ExpressionType::Integer(_), None) => target.name.starts_with("float"),
+        _ => false,
+    };
+    if requires_cast {
+        return format!("(({}) as {})", code, target_rust_type);
+    }
+    code
+}
+
 fn generate_arithmetic_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
@@ -95,64 +154,25 @@ fn generate_arithmetic_expression(
         return generate_unary_arithmetic_expression(expression, type_generator, scope);
     }
 
-    // Check if casts are required
-    let mut op1 = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
-    let mut op2 = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
-
-    let mut expression_type = None;
-    let mut op1_rust_type = None;
-    let mut op2_rust_type = None;
-
-    // Check if casting is needed because of different original types.
-    // Casting is needed in the following cases:
-    // - mixing floats with integers
-    // - mixing signed/unsigned types
-    // - mixing different bit lengths
-    // - mixing numerals of different types
-    // Casting is not needed in the following cases:
-    // - The expression result is not an integer.
-    // - One or both operands are numerals without type annotations, for example
-    //   "17.5 + 13.6"
-    match &expression.result_type {
-        ExpressionType::Integer(_) | ExpressionType::BitMask(_) | ExpressionType::Float(_) => {
-            if let Some(native_type) = &expression.native_type {
-                expression_type = Some(type_generator.ztype_to_rust_type(native_type));
-                if let Some(op1_native_type) = &expression.operand1.as_ref().unwrap().native_type {
-                    op1_rust_type = Some(type_generator.ztype_to_rust_type(op1_native_type));
-                }
-                if let Some(op2_native_type) = &expression.operand2.as_ref().unwrap().native_type {
-                    op2_rust_type = Some(type_generator.ztype_to_rust_type(op2_native_type));
-                }
-            }
-        }
-        ExpressionType::String(_) => {
-            // For string operations, using "+" sucks, due to the different issues with string
-            // ownership, and mixing "String" with "str", reference, etc. The easiest
-            // solution is to just use the format macro.
-            assert!(expression.expression_type == PLUS);
-            // Inception code
-            return format!("format!(\"{{}}{{}}\", {}, {})", op1, op2,);
-        }
-        _ => (),
-    };
-
-    // Generate the type casts
-    if let Some(result_type) = expression_type {
-        if let Some(op1_result_type) = op1_rust_type {
-            if result_type != op1_result_type {
-                op1 = format!("(({}) as {})", op1, result_type);
-            }
-        }
-        if let Some(op2_result_type) = op2_rust_type {
-            if result_type != op2_result_type {
-                op2 = format!("(({}) as {})", op2, result_type);
-            }
-        }
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    if let ExpressionType::String(_) = &expression.result_type {
+        // For string operations, using "+" sucks, due to the different issues with string
+        // ownership, and mixing "String" with "str", reference, etc. The easiest
+        // solution is to just use the format macro.
+        assert!(expression.expression_type == PLUS);
+        // Inception code
+        return format!(
+            "format!(\"{{}}{{}}\", {}, {})",
+            generate_expression(operand1, type_generator, scope),
+            generate_expression(operand2, type_generator, scope),
+        );
     }
 
+    let operand_type = common_operand_type(operand1, operand2);
     format!(
         "{} {} {}",
-        op1,
+        generate_operand(operand1, &operand_type, type_generator, scope),
         match expression.expression_type {
             PLUS => "+",
             MINUS => "-",
@@ -161,7 +181,7 @@ fn generate_arithmetic_expression(
             MODULO => "%",
             _ => panic!("unexpected arithmetic expression operator"),
         },
-        op2,
+        generate_operand(operand2, &operand_type, type_generator, scope),
     )
 }
 
@@ -389,14 +409,30 @@ fn generate_logical_expression(
     )
 }
 
+fn is_comparison(expression: &Expression) -> bool {
+    matches!(expression.expression_type, EQ | GE | GT | LE | LT | NE)
+}
+
 fn generate_comparison_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let operand_type = common_operand_type(operand1, operand2);
+    let mut op1 = generate_operand(operand1, &operand_type, type_generator, scope);
+    let mut op2 = generate_operand(operand2, &operand_type, type_generator, scope);
+    // Rust does not allow to chain comparisons.
+    if is_comparison(operand1) {
+        op1 = format!("({})", op1);
+    }
+    if is_comparison(operand2) {
+        op2 = format!("({})", op2);
+    }
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        op1,
         match expression.expression_type {
             EQ => "==",
             LE => "<=",
@@ -406,7 +442,7 @@ fn generate_comparison_expression(
             NE => "!=",
             _ => panic!("unexpected comparison expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        op2,
     )
 }
 
-- 
2.43.0


From 0005e5d3cd7496e7f4c27532b1d27c1b96e9a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:54 +0000
Subject: [PATCH 37/76] fix: determine the type of bitwise expressions, and
 cast their operands

---
 .../src/internal/ast/expression.rs            | 23 +++++++++++++++----
 .../src/internal/generator/expression.rs      | 11 +++++++--
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index b65d6b9..eafbdff 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -558,12 +558,25 @@ impl Expression {
         match (&self.operand1, &self.operand2) {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
+                    self.native_type = match self.expression_type {
+                        // The result of a shift has the type of the left operand.
+                        LSHIFT | RSHIFT => op1.native_type.clone(),
+                        _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
+                    };
+                    let v1 = if op1.fully_resolved { *value1 } else { 1 };
+                    let v2 = if op2.fully_resolved { *value2 } else { 1 };
+                    let shift = |checked_shift: fn(i128, u32) -> Option<i128>| {
+                        u32::try_from(v2)
+                            .ok()
+                            .and_then(|bits| checked_shift(v1, bits))
+                            .expect("invalid shift width")
+                    };
                     let result = match self.expression_type {
-                        AND => value1 & value2,
-                        OR => value1 | value2,
-                        XOR => value1 ^ value2,
-                        LSHIFT => value1 << value2,
-                        RSHIFT => value1 >> value2,
+                        AND => v1 & v2,
+                        OR => v1 | v2,
+                        XOR => v1 ^ v2,
+                        LSHIFT => shift(i128::checked_shl),
+                        RSHIFT => shift(i128::checked_shr),
                         _ => panic!("unexpected bitwise expression"),
                     };
                     self.result_type = ExpressionType::Integer(result);
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 62870c7..2a9ceec 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -377,9 +377,16 @@ fn generate_bitwise_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand1 = expression.operand1.as_ref().unwrap();
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let operand_type = match expression.expression_type {
+        // The operands of shift operators can have different types.
+        LSHIFT | RSHIFT => None,
+        _ => common_operand_type(operand1, operand2),
+    };
     format!(
         "{} {} {}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(operand1, &operand_type, type_generator, scope),
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -388,7 +395,7 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
+        generate_operand(operand2, &operand_type, type_generator, scope),
     )
 }
 
-- 
2.43.0


From cdf595c402cd80292f3a4b68da6e9e03aefee760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 38/76] fix: generate ternary expressions with a common type

---
 .../src/internal/ast/expression.rs            | 31 +++++++++++--------
 .../src/internal/generator/expression.rs      | 26 +++++++++++-----
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index eafbdff..84300db 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -617,21 +617,26 @@ impl Expression {
     }
 
     fn evaluate_ternary_expression(&mut self) {
-        match self.operand1.as_ref().unwrap().result_type {
+        let op1 = self.operand1.as_ref().unwrap();
+        let op2 = self.operand2.as_ref().unwrap();
+        let op3 = self.operand3.as_ref().unwrap();
+        match op1.result_type {
             ExpressionType::Bool(condition) => {
-                if condition {
-                    let op2 = self.operand2.as_ref().unwrap();
-                    self.result_type.clone_from(&op2.result_type);
-                    self.symbol.clone_from(&op2.symbol);
-                    self.fully_resolved = op2.fully_resolved;
-                } else {
-                    let op3 = self.operand3.as_ref().unwrap();
-                    self.result_type.clone_from(&op3.result_type);
-                    self.symbol.clone_from(&op3.symbol);
-                    self.fully_resolved = op3.fully_resolved;
-                }
+                let selected_operand = if condition { op2 } else { op3 };
+                self.result_type.clone_from(&selected_operand.result_type);
+                self.symbol.clone_from(&selected_operand.symbol);
+                self.fully_resolved = op1.fully_resolved && selected_operand.fully_resolved;
+                self.native_type = match (&op2.result_type, &op3.result_type) {
+                    (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
+                        evaluate_mixing_integer_types(&op2.native_type, &op3.native_type)
+                    }
+                    (ExpressionType::Float(_), ExpressionType::Float(_)) => {
+                        evaluate_mixing_float_types(&op2.native_type, &op3.native_type)
+                    }
+                    _ => selected_operand.native_type.clone(),
+                };
             }
-            _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", self.operand1.as_ref().unwrap()),
+            _ => panic!("the first operand in a ternary expression must have a boolean type, but it has {:?}", op1),
         }
     }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 2a9ceec..dd0134a 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -337,16 +337,26 @@ fn generate_ternary_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
+    let operand2 = expression.operand2.as_ref().unwrap();
+    let operand3 = expression.operand3.as_ref().unwrap();
+    let operand_type = common_operand_type(operand2, operand3);
+    // Both branches need to have the same type, and must not move values out of self.
+    let conversion = match &expression.result_type {
+        ExpressionType::String(_) => ".to_string()",
+        ExpressionType::Compound | ExpressionType::Other => ".clone()",
+        _ => "",
+    };
     format!(
-        "
-if {} {{
-    {}
+        "(if {} {{
+    ({}){}
 }} else {{
-    {}
-}}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
-        generate_expression(expression.operand3.as_ref().unwrap(), type_generator, scope),
+    ({}){}
+}})",
+        generate_boolean_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(operand2, &operand_type, type_generator, scope),
+        conversion,
+        generate_operand(operand3, &operand_type, type_generator, scope),
+        conversion,
     )
 }
 
-- 
2.43.0


From f015b6ab57956f6bfbd03b6cbded1badfbb4174b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 39/76] fix: restore the meaning of isset for values with
 several bits

---
 crates/zserio-rs-build/src/internal/generator/expression.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index dd0134a..ce6a000 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -243,10 +243,9 @@ fn generate_isset_expression(
     type_generator: &mut TypeGenerator,
     scope: &ModelScope,
 ) -> String {
-    // All bits of the checked value have to be set.
     let mask = generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope);
     let value = generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope);
-    format!("((({mask}) & ({value})) == ({value}))")
+    format!("((({mask}) & ({value})) != 0)")
 }
 
 fn generate_valueof_expression(
-- 
2.43.0


From 1d4a6dc74f9a0fba92ac05998840514fb62f9474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 40/76] fix: generate functions which return literals, objects,
 extern or bytes

---
 .../src/internal/generator/function.rs        | 41 +++++++++----------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/function.rs b/crates/zserio-rs-build/src/internal/generator/function.rs
index 005a28f..7bc5f1d 100644
--- a/crates/zserio-rs-build/src/internal/generator/function.rs
+++ b/crates/zserio-rs-build/src/internal/generator/function.rs
@@ -1,4 +1,5 @@
 use crate::internal::ast::zfunction::ZFunction;
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::types::{convert_to_function_name, TypeGenerator};
@@ -23,28 +24,24 @@ pub fn generate_function(
     fn_gen_scope.arg_ref_self();
     fn_gen_scope.vis("pub");
 
-    if zserio_function.return_type.is_builtin
-        && zserio_function.return_type.name == "string"
-        && !zserio_function.result.as_ref().borrow().fully_resolved
-    {
-        fn_gen_scope.line(format!(
-            "{}.clone()",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
-        ));
-    } else {
-        // Generate the function content.
-        fn_gen_scope.line(format!(
+    let result = generate_expression(
+        &zserio_function.result.as_ref().borrow(),
+        type_generator,
+        scope,
+    );
+    let fundamental_type = get_fundamental_type(&zserio_function.return_type, scope);
+    let return_type = fundamental_type.fundamental_type;
+
+    // Generate the function content.
+    fn_gen_scope.line(match (return_type.is_builtin, return_type.name.as_str()) {
+        (true, "bool") => result,
+        // The result can be a literal or a constant, which are string slices.
+        (true, "string") => format!("({result}).to_string()"),
+        (true, "extern" | "bytes") | (false, _) => format!("({result}).clone()"),
+        (true, _) => format!(
             "({}) as {}",
-            generate_expression(
-                &zserio_function.result.as_ref().borrow(),
-                type_generator,
-                scope
-            ),
+            result,
             type_generator.ztype_to_rust_type(&zserio_function.return_type),
-        ));
-    }
+        ),
+    });
 }
-- 
2.43.0


From 3f6a20d4de191a4aeb742c6d1599b668f0f3bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 41/76] fix: cast the values of constants

---
 .../src/internal/generator/zconst.rs          | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index ce8eeff..aeadcf3 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -1,6 +1,8 @@
+use crate::internal::ast::expression::ExpressionType;
 use crate::internal::ast::zconst::ZConst;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::generate_expression;
 use crate::internal::generator::file_generator::write_to_file;
 use crate::internal::generator::preamble::add_standard_imports;
@@ -40,15 +42,23 @@ pub fn generate_constant(
         "&str".clone_into(&mut field_type);
     }
 
+    let value_expression = zconst.value_expression.borrow();
+    let mut value = generate_expression(&value_expression, type_generator, symbol_scope);
+    let is_integer = matches!(value_expression.result_type, ExpressionType::Integer(_));
+    if expression_requires_cast(
+        &fundamental_type.fundamental_type,
+        type_generator,
+        &value_expression,
+    ) || is_integer && fundamental_type.fundamental_type.name.starts_with("float")
+    {
+        value = format!("({value}) as {field_type}");
+    }
+
     file_content += format!(
         "pub const {}: {} = {};\n",
         to_rust_constant_name(&zconst.name),
         field_type,
-        generate_expression(
-            &zconst.value_expression.borrow(),
-            type_generator,
-            symbol_scope
-        ),
+        value,
     )
     .as_str();
 
-- 
2.43.0


From 5c050b6d6cd430ad4265626b8455c365ae5e706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 42/76] fix: use the index operator and array elements in
 expressions

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 11 ++++++-----
 .../src/internal/generator/expression.rs              |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 84300db..0bb8269 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -158,11 +158,11 @@ impl Expression {
     fn evaluate_array_element(&mut self, _scope: &mut ModelScope) {
         match &self.operand1 {
             Some(op1) => {
-                match &op1.result_type {
-                    ExpressionType::Compound => {}
-                    ExpressionType::Integer(_) => {} // for @index expressions in offset
-                    _ => panic!("unexpected array expression index type"),
-                }
+                // The type of an array field is the type of its elements.
+                self.result_type.clone_from(&op1.result_type);
+                self.native_type.clone_from(&op1.native_type);
+                self.symbol.clone_from(&op1.symbol);
+                self.fully_resolved = false;
             }
             _ => panic!("array element requires an operand to be set"),
         }
@@ -642,6 +642,7 @@ impl Expression {
 
     fn evaluate_index_expression(&mut self) {
         self.result_type = ExpressionType::Integer(0);
+        self.native_type = Some(TypeReference::new_native_type("uint64"));
         self.fully_resolved = false;
     }
 
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index ce6a000..ec45968 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -191,7 +191,7 @@ fn generate_bracketed_expression(
     scope: &ModelScope,
 ) -> String {
     format!(
-        "{}[{}]",
+        "{}[({}) as usize]",
         generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
         generate_expression(expression.operand2.as_ref().unwrap(), type_generator, scope),
     )
@@ -504,5 +504,5 @@ fn generate_literal_expression(expression: &Expression) -> String {
 fn generate_index_operator() -> String {
     // Make sure this variable name matches the one used in encode/decode code generators
     // where the parameters are passed.
-    "param_index".into()
+    "(param_index as u64)".into()
 }
-- 
2.43.0


From 545cb3a9977ad021d94ad7343f1fc967bb50ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 43/76] fix: enclose type arguments in parentheses when cloning
 or casting them

---
 .../src/internal/generator/decode.rs          | 33 +++++--------------
 .../src/internal/generator/encode.rs          |  2 +-
 2 files changed, 10 insertions(+), 25 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index a8488fd..9ccdd38 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -239,15 +239,10 @@ pub fn decode_field(
                 let type_argument = type_argument_rc.borrow();
 
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
+                let mut rvalue = generate_expression(&type_argument, type_generator, scope);
                 if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
+                    rvalue = format!("({}).clone()", rvalue);
                 }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
 
                 if expression_requires_cast(
                     &type_parameter.borrow().zserio_type,
@@ -255,7 +250,7 @@ pub fn decode_field(
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -342,22 +337,17 @@ pub fn decode_field(
                     continue;
                 }
                 let type_parameter = &type_parameters[param_index];
-                let mut requires_cloning = String::from("");
+                let mut rvalue = generate_expression(&type_argument, type_generator, scope);
                 if !type_argument.fully_resolved {
-                    requires_cloning = ".clone()".into();
+                    rvalue = format!("({}).clone()", rvalue);
                 }
-                let mut rvalue = format!(
-                    "{}{}",
-                    generate_expression(&type_argument, type_generator, scope),
-                    requires_cloning
-                );
                 if expression_requires_cast(
                     &type_parameter.borrow().zserio_type,
                     type_generator,
                     &type_argument,
                 ) {
                     rvalue = format!(
-                        "{} as {}",
+                        "({}) as {}",
                         rvalue,
                         type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                     );
@@ -387,22 +377,17 @@ pub fn decode_field(
                         continue;
                     }
                     let type_parameter = &type_parameters[param_index];
-                    let mut requires_cloning = String::from("");
+                    let mut rvalue = generate_expression(&type_argument, type_generator, scope);
                     if !type_argument.fully_resolved {
-                        requires_cloning = ".clone()".into();
+                        rvalue = format!("({}).clone()", rvalue);
                     }
-                    let mut rvalue = format!(
-                        "{}{}",
-                        generate_expression(&type_argument, type_generator, scope),
-                        requires_cloning
-                    );
                     if expression_requires_cast(
                         &type_parameter.borrow().zserio_type,
                         type_generator,
                         &type_argument,
                     ) {
                         rvalue = format!(
-                            "{} as {}",
+                            "({}) as {}",
                             rvalue,
                             type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                         );
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index e03654b..1cd0e46 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -247,7 +247,7 @@ pub fn encode_field(
                 &type_argument,
             ) {
                 rvalue = format!(
-                    "{} as {}",
+                    "({}) as {}",
                     rvalue,
                     type_generator.ztype_to_rust_type(&type_parameter.borrow().zserio_type)
                 );
-- 
2.43.0


From c5f184abf074346115fcfb8ac5c6c0242057e64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:03 +0000
Subject: [PATCH 44/76] fix: return an error for bit fields with more than 64
 bits

---
 .../src/internal/generator/array.rs               |  2 +-
 .../src/internal/generator/decode.rs              | 15 ++++++---------
 .../src/internal/generator/encode.rs              | 15 ++++++---------
 crates/zserio/src/ztype/bits_decode.rs            | 10 +++++++---
 crates/zserio/src/ztype/bits_encode.rs            |  8 ++++++--
 5 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index bb35417..e861b04 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -62,7 +62,7 @@ pub fn initialize_array_trait(
         // Initialize the signed/unsigned bitfield array traits
         if let Some(length_expression) = &zserio_type.length_expression {
             code_str += format!(
-                "num_bits: ({}) as u8,\n",
+                "num_bits: u8::try_from({}).unwrap_or(u8::MAX),\n",
                 generate_expression(&length_expression.borrow(), type_generator, scope)
             )
             .as_str();
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 9ccdd38..364e751 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -73,19 +73,16 @@ pub fn decode_type(
             if fund_type.bits != 0 || fund_type.length_expression.is_some() {
                 let bit_length_string = match &fund_type.length_expression {
                     Some(bit_length_expression) => {
-                        let mut length_expression_string = generate_expression(
+                        let length_expression_string = generate_expression(
                             &bit_length_expression.borrow(),
                             type_generator,
                             scope,
                         );
-                        // check if there is a typecast needed
-                        if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                            if native_type.name != "uint8" {
-                                length_expression_string =
-                                    format!("({}) as u8", length_expression_string);
-                            }
-                        }
-                        length_expression_string
+                        // A length which does not fit is invalid, and must not be truncated.
+                        format!(
+                            "u8::try_from({}).unwrap_or(u8::MAX)",
+                            length_expression_string
+                        )
                     }
                     None => format!("{}", fund_type.bits),
                 };
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 1cd0e46..81ae23b 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -66,16 +66,13 @@ pub fn encode_type(
         } else if fund_type.bits != 0 || fund_type.length_expression.is_some() {
             let bit_length_string = match &fund_type.length_expression {
                 Some(bit_length_expression) => {
-                    let mut length_expression_string =
+                    let length_expression_string =
                         generate_expression(&bit_length_expression.borrow(), type_generator, scope);
-                    // check if there is a typecast needed
-                    if let Some(native_type) = &bit_length_expression.borrow().native_type {
-                        if native_type.name != "uint8" {
-                            length_expression_string =
-                                format!("({}) as u8", length_expression_string);
-                        }
-                    }
-                    length_expression_string
+                    // A length which does not fit is invalid, and must not be truncated.
+                    format!(
+                        "u8::try_from({}).unwrap_or(u8::MAX)",
+                        length_expression_string
+                    )
                 }
                 None => format!("{}", fund_type.bits),
             };
diff --git a/crates/zserio/src/ztype/bits_decode.rs b/crates/zserio/src/ztype/bits_decode.rs
index 9870e3d..46ef1ad 100644
--- a/crates/zserio/src/ztype/bits_decode.rs
+++ b/crates/zserio/src/ztype/bits_decode.rs
@@ -1,16 +1,20 @@
-use crate::error::Result;
+use crate::error::{Result, ZserioError};
 use bitreader::BitReader;
 
 pub fn read_unsigned_bits(reader: &mut BitReader, bits: u8) -> Result<u64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot read more than 64 bits".into(),
+        ));
     }
     Ok(reader.read_u64(bits)?)
 }
 
 pub fn read_signed_bits(reader: &mut BitReader, bits: u8) -> Result<i64> {
     if bits > 64 {
-        panic! {"cannot read more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot read more than 64 bits".into(),
+        ));
     }
     Ok(reader.read_i64(bits)?)
 }
diff --git a/crates/zserio/src/ztype/bits_encode.rs b/crates/zserio/src/ztype/bits_encode.rs
index c5c553e..c90499b 100644
--- a/crates/zserio/src/ztype/bits_encode.rs
+++ b/crates/zserio/src/ztype/bits_encode.rs
@@ -3,7 +3,9 @@ use rust_bitwriter::BitWriter;
 
 pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot write more than 64 bits".into(),
+        ));
     }
     if bits < 64 && v >> bits != 0 {
         return Err(ZserioError::DataDoesNotFit);
@@ -13,7 +15,9 @@ pub fn write_unsigned_bits(writer: &mut BitWriter, v: u64, bits: u8) -> Result<(
 
 pub fn write_signed_bits(writer: &mut BitWriter, v: i64, bits: u8) -> Result<()> {
     if bits > 64 {
-        panic! {"cannot write more than 64 bits"};
+        return Err(ZserioError::DataError(
+            "cannot write more than 64 bits".into(),
+        ));
     }
     // all bits from the sign bit upwards have to be equal
     let sign_and_upper_bits = v >> bits.saturating_sub(1);
-- 
2.43.0


From 0e70acfaeab8142178a8d0c56a03a8e2164932e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:53 +0000
Subject: [PATCH 45/76] fix: allow extern and bytes fields in expressions

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 0bb8269..1c41fdf 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -728,6 +728,11 @@ fn type_reference_to_expression_type(
                 ExpressionType::Integer(0),
                 Some(TypeReference::new_native_type(type_ref.name.as_str())),
             )
+        } else if type_ref.name == "extern" || type_ref.name == "bytes" {
+            (
+                ExpressionType::Other,
+                Some(TypeReference::new_native_type(type_ref.name.as_str())),
+            )
         } else {
             panic!("failed to determine builtin type reference type");
         }
-- 
2.43.0


From a911ddef93c438506f1b47be9dcf64cf423eab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:58 +0000
Subject: [PATCH 46/76] fix: evaluate the length of an array only if its field
 is present

---
 .../src/internal/generator/bitsize.rs         | 14 +++++-
 .../src/internal/generator/decode.rs          | 14 +++++-
 .../src/internal/generator/encode.rs          | 12 ++++-
 .../src/internal/generator/zchoice.rs         | 22 ++-------
 .../src/internal/generator/zstruct.rs         | 49 -------------------
 .../src/internal/generator/zunion.rs          |  9 ----
 6 files changed, 40 insertions(+), 80 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/bitsize.rs b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
index ef4e368..702af7a 100644
--- a/crates/zserio-rs-build/src/internal/generator/bitsize.rs
+++ b/crates/zserio-rs-build/src/internal/generator/bitsize.rs
@@ -1,12 +1,14 @@
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
+use crate::internal::generator::array::{
+    array_type_name, initialize_array_trait, instantiate_zserio_array,
+};
 use crate::internal::generator::encode::requires_borrowing;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
 use crate::internal::generator::packed_contexts::FieldDetails;
 use crate::internal::generator::pass_parameters::does_expression_contains_index_operator;
 use crate::internal::generator::types::TypeGenerator;
-use crate::internal::generator::{array::array_type_name, array::initialize_array_trait};
 use codegen::Function;
 
 pub fn bitsize_type_reference(
@@ -174,6 +176,16 @@ pub fn bitsize_field(
         }
     }
 
+    // The length of the array may only be evaluated if the field is present.
+    instantiate_zserio_array(
+        scope,
+        type_generator,
+        function,
+        &field,
+        packed,
+        field_details.is_packable,
+    );
+
     if field.array.is_some() {
         let array_type_name = array_type_name(&field.name);
         let mut index_offset = String::from("None::<&Vec<u32>>");
diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index 364e751..e67c9e3 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -10,7 +10,9 @@ use crate::internal::generator::pass_parameters::{
 use crate::internal::generator::types::TypeGenerator;
 use codegen::Function;
 
-use crate::internal::generator::array::{array_type_name, initialize_array_trait};
+use crate::internal::generator::array::{
+    array_type_name, initialize_array_trait, instantiate_zserio_array,
+};
 
 use super::pass_parameters::{number_of_data_fields, number_of_fields};
 
@@ -182,6 +184,16 @@ pub fn decode_field(
         rvalue_field_name = "optional_value".into();
     }
 
+    // The length of the array may only be evaluated if the field is present.
+    instantiate_zserio_array(
+        scope,
+        type_generator,
+        function,
+        &field,
+        packed,
+        field_details.is_packable,
+    );
+
     let has_type_parameters = !field_details
         .native_type
         .fundamental_type
diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 81ae23b..96f892c 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::field::Field;
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::array::initialize_array_trait;
+use crate::internal::generator::array::{initialize_array_trait, instantiate_zserio_array};
 use crate::internal::generator::casts::expression_requires_cast;
 use crate::internal::generator::expression::{generate_boolean_expression, generate_expression};
 use crate::internal::generator::index_offsets::extract_indexed_offset_expression;
@@ -180,6 +180,16 @@ pub fn encode_field(
         }
     }
 
+    // The length of the array may only be evaluated if the field is present.
+    instantiate_zserio_array(
+        scope,
+        type_generator,
+        function,
+        &field,
+        packed,
+        field_details.is_packable,
+    );
+
     // Parameter check: by design decision, the objects passed to the encoding
     // part are not mutable. As such, we cannot pass the parameters here ourselves.
     // We can, however, ensure, that the parameters were correctly set, and trigger
diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index 3515d4a..c5ef990 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -6,9 +6,9 @@ use crate::internal::ast::zchoice::ZChoice;
 
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
-    array::instantiate_zserio_array, bitsize::bitsize_field, decode::decode_field,
-    encode::encode_field, expression::generate_expression, file_generator::write_to_file,
-    function::generate_function, packed_contexts::generate_init_packed_context_for_field,
+    bitsize::bitsize_field, decode::decode_field, encode::encode_field,
+    expression::generate_expression, file_generator::write_to_file, function::generate_function,
+    packed_contexts::generate_init_packed_context_for_field,
     packed_contexts::generate_packed_context_for_field, packed_contexts::FieldDetails,
     preamble::add_standard_imports, types::TypeGenerator,
     zstruct::generate_struct_member_for_field,
@@ -167,14 +167,6 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &case.field {
             let field_details =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                field_details.is_packable,
-            );
             context_node_index += 1;
             f(
                 symbol_scope,
@@ -191,14 +183,6 @@ pub fn generate_choice_match_construct(
         if let Some(field) = &default_case.field {
             let default_field =
                 FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-            instantiate_zserio_array(
-                symbol_scope,
-                type_generator,
-                code_gen_fn,
-                &field.borrow(),
-                packed,
-                default_field.is_packable,
-            );
             f(
                 symbol_scope,
                 type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zstruct.rs b/crates/zserio-rs-build/src/internal/generator/zstruct.rs
index 598d681..dadea6b 100644
--- a/crates/zserio-rs-build/src/internal/generator/zstruct.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zstruct.rs
@@ -1,6 +1,5 @@
 use crate::internal::ast::zstruct::ZStruct;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
     file_generator::write_to_file, function::generate_function,
@@ -133,14 +132,6 @@ fn generate_zserio_read(
     zserio_read_fn.arg("reader", "&mut BitReader");
     zserio_read_fn.ret("Result<()>");
     for field in fields {
-        instantiate_zserio_array(
-            scope,
-            type_generator,
-            zserio_read_fn,
-            &field.field.borrow(),
-            false,
-            field.is_packable,
-        );
         decode_field(scope, type_generator, zserio_read_fn, field, false);
     }
     zserio_read_fn.line("Ok(())");
@@ -151,14 +142,6 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
     for field in fields {
-        instantiate_zserio_array(
-            scope,
-            type_generator,
-            zserio_read_packed_fn,
-            &field.field.borrow(),
-            true,
-            field.is_packable,
-        );
         decode_field(scope, type_generator, zserio_read_packed_fn, field, true);
     }
     zserio_read_packed_fn.line("Ok(())");
@@ -176,14 +159,6 @@ fn generate_zserio_write(
     zserio_write_fn.ret("Result<()>");
 
     for field_rc in fields {
-        instantiate_zserio_array(
-            symbol_scope,
-            type_generator,
-            zserio_write_fn,
-            &field_rc.field.borrow(),
-            false,
-            field_rc.is_packable,
-        );
         encode_field(
             symbol_scope,
             type_generator,
@@ -200,14 +175,6 @@ fn generate_zserio_write(
     zserio_write_packed_fn.arg("writer", "&mut BitWriter");
     zserio_write_packed_fn.ret("Result<()>");
     for field in fields {
-        instantiate_zserio_array(
-            symbol_scope,
-            type_generator,
-            zserio_write_packed_fn,
-            &field.field.borrow(),
-            true,
-            field.is_packable,
-        );
         encode_field(
             symbol_scope,
             type_generator,
@@ -231,14 +198,6 @@ fn generate_zserio_bitsize(
     bitsize_fn.arg("bit_position", "u64");
     bitsize_fn.line("let mut end_position = bit_position;");
     for field in fields {
-        instantiate_zserio_array(
-            symbol_scope,
-            type_generator,
-            bitsize_fn,
-            &field.field.borrow(),
-            false,
-            field.is_packable,
-        );
         bitsize_field(symbol_scope, type_generator, bitsize_fn, field, false);
     }
     bitsize_fn.line("Ok(end_position - bit_position)");
@@ -250,14 +209,6 @@ fn generate_zserio_bitsize(
     bitsize_packed_fn.arg("bit_position", "u64");
     bitsize_packed_fn.line("let mut end_position = bit_position;");
     for field in fields {
-        instantiate_zserio_array(
-            symbol_scope,
-            type_generator,
-            bitsize_packed_fn,
-            &field.field.borrow(),
-            true,
-            field.is_packable,
-        );
         bitsize_field(symbol_scope, type_generator, bitsize_packed_fn, field, true);
     }
     bitsize_packed_fn.line("Ok(end_position - bit_position)");
diff --git a/crates/zserio-rs-build/src/internal/generator/zunion.rs b/crates/zserio-rs-build/src/internal/generator/zunion.rs
index a07c281..5cfb84e 100644
--- a/crates/zserio-rs-build/src/internal/generator/zunion.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zunion.rs
@@ -2,7 +2,6 @@
 use crate::internal::ast::field::Field;
 use crate::internal::ast::zunion::ZUnion;
 use crate::internal::compiler::symbol_scope::ModelScope;
-use crate::internal::generator::array::instantiate_zserio_array;
 use crate::internal::generator::{
     bitsize::bitsize_field, decode::decode_field, encode::encode_field,
     file_generator::write_to_file, function::generate_function,
@@ -205,14 +204,6 @@ pub fn generate_union_match_construct(
         ));
         let field_details =
             FieldDetails::from_field(field, context_node_index, symbol_scope, type_generator);
-        instantiate_zserio_array(
-            symbol_scope,
-            type_generator,
-            code_gen_fn,
-            &field.borrow(),
-            packed,
-            field_details.is_packable,
-        );
         f(
             symbol_scope,
             type_generator,
-- 
2.43.0


From c8a57f11c7fc2d425463e925ea27519729904791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:16 +0000
Subject: [PATCH 47/76] fix: refuse to pack values which do not fit in their
 type

---
 crates/zserio/src/ztype/array_traits/delta_context.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/zserio/src/ztype/array_traits/delta_context.rs b/crates/zserio/src/ztype/array_traits/delta_context.rs
index be61291..48434f0 100644
--- a/crates/zserio/src/ztype/array_traits/delta_context.rs
+++ b/crates/zserio/src/ztype/array_traits/delta_context.rs
@@ -150,6 +150,8 @@ impl DeltaContext {
         if !self.is_packed {
             return self.write_unpacked(array_traits, writer, element);
         }
+        // A value which does not fit in its type is refused, even if its delta would fit.
+        array_traits.write(&mut BitWriter::new(), element)?;
         if self.max_bit_number > 0 {
             let element_as_u64 = array_traits.to_u64(element);
             let delta = element_as_u64.wrapping_sub(self.previous_element) as i64;
-- 
2.43.0


From f24b05a29d2b440e2cf33a8f90310d2464c16de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:30 +0000
Subject: [PATCH 48/76] fix: evaluate integer expressions in 64 bits

---
 .../ast/evaluate_mixing_native_types.rs       | 32 ++++++++++++++++---
 .../src/internal/ast/expression.rs            | 24 +++++++++-----
 .../src/internal/generator/expression.rs      | 30 +++++++++++------
 3 files changed, 64 insertions(+), 22 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
index 81880d8..57e7fec 100644
--- a/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
+++ b/crates/zserio-rs-build/src/internal/ast/evaluate_mixing_native_types.rs
@@ -112,19 +112,42 @@ pub fn convert_to_unsigned(int_type_name: &str) -> String {
     }
 }
 
+/// Integers which are smaller than 64 bits are calculated in 64 bits, so that intermediate
+/// results do not overflow (like the integer promotion of C++, or the integers of Python).
+pub fn promote_integer_type(integer_type: &Option<TypeReference>) -> Option<TypeReference> {
+    match integer_type {
+        Some(t) if get_integer_rank(t) < 64 => Some(TypeReference::new_native_type("int64")),
+        _ => integer_type.clone(),
+    }
+}
+
+/// The type in which two integers are added, subtracted etc.
+pub fn evaluate_arithmetic_integer_types(
+    type1: &Option<TypeReference>,
+    type2: &Option<TypeReference>,
+) -> Option<TypeReference> {
+    evaluate_mixing_integer_types(&promote_integer_type(type1), &promote_integer_type(type2))
+}
+
 pub fn evaluate_mixing_integer_types(
     type1: &Option<TypeReference>,
     type2: &Option<TypeReference>,
 ) -> Option<TypeReference> {
-    // For now, we use the same logic as C++ when mixing integer types:
+    // Mixing different types results in a type which has the values of both types, as far as
+    // there is one. Otherwise, the logic is the same as in C++:
     // Mixing signed/unsigned values of the same type (in the sequence of int16, int32, int64),
     // the unsigned type will win.
     // Mixing different ranks result in the higher rank being used.
-    match (type1, type2) {
+    if let (Some(t1), Some(t2)) = (type1, type2) {
+        if compare_native_types(t1, t2) {
+            return type1.clone();
+        }
+    }
+    match (&promote_integer_type(type1), &promote_integer_type(type2)) {
         (Some(t1), Some(t2)) => {
             // If both types are set, check if they are the same type.
             if compare_native_types(t1, t2) {
-                return type1.clone();
+                return Some(t1.clone());
             }
 
             // Check if there is a mix in signed/unsigned. If yes, the final
@@ -157,8 +180,7 @@ pub fn evaluate_mixing_integer_types(
             Some(result_type)
         }
         // Handle cases such as "u16Var + 12"
-        (Some(_), None) => type1.clone(),
-        (None, Some(_)) => type2.clone(),
+        (Some(t), None) | (None, Some(t)) => Some(t.clone()),
         (None, None) => None,
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 1c41fdf..fabb0c4 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -1,8 +1,8 @@
 use crate::internal::ast::zbitmask::ZBitmaskType;
 
 use crate::internal::ast::evaluate_mixing_native_types::{
-    evaluate_mixing_float_types, evaluate_mixing_integer_and_float_types,
-    evaluate_mixing_integer_types,
+    evaluate_arithmetic_integer_types, evaluate_mixing_float_types,
+    evaluate_mixing_integer_and_float_types, evaluate_mixing_integer_types, promote_integer_type,
 };
 use crate::internal::ast::zenum::ZEnum;
 use crate::internal::compiler::fundamental_type::get_fundamental_type;
@@ -345,7 +345,10 @@ impl Expression {
     fn evaluate_unary_arithmetic_expression(&mut self) {
         match &self.operand1 {
             Some(op1) => {
-                self.native_type.clone_from(&op1.native_type);
+                self.native_type = match op1.result_type {
+                    ExpressionType::Integer(_) => promote_integer_type(&op1.native_type),
+                    _ => op1.native_type.clone(),
+                };
                 match op1.result_type {
                     ExpressionType::Integer(value) => match self.expression_type {
                         PLUS => self.result_type = ExpressionType::Integer(value),
@@ -466,7 +469,7 @@ impl Expression {
             (Some(op1), Some(op2)) => match (&op1.result_type, &op2.result_type) {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
                     self.native_type =
-                        evaluate_mixing_integer_types(&op1.native_type, &op2.native_type);
+                        evaluate_arithmetic_integer_types(&op1.native_type, &op2.native_type);
                     let mut v1 = *value1;
                     let mut v2 = *value2;
                     if !op1.fully_resolved {
@@ -539,7 +542,7 @@ impl Expression {
             Some(op1) => match op1.result_type {
                 ExpressionType::Integer(value) => {
                     self.result_type = ExpressionType::Integer(!value);
-                    self.native_type.clone_from(&op1.native_type);
+                    self.native_type = promote_integer_type(&op1.native_type);
                 }
                 // The values of bitmasks are not evaluated.
                 ExpressionType::BitMask(_) => {
@@ -560,7 +563,7 @@ impl Expression {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
                     self.native_type = match self.expression_type {
                         // The result of a shift has the type of the left operand.
-                        LSHIFT | RSHIFT => op1.native_type.clone(),
+                        LSHIFT | RSHIFT => promote_integer_type(&op1.native_type),
                         _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
                     };
                     let v1 = if op1.fully_resolved { *value1 } else { 1 };
@@ -642,7 +645,7 @@ impl Expression {
 
     fn evaluate_index_expression(&mut self) {
         self.result_type = ExpressionType::Integer(0);
-        self.native_type = Some(TypeReference::new_native_type("uint64"));
+        self.native_type = Some(TypeReference::new_native_type("int64"));
         self.fully_resolved = false;
     }
 
@@ -724,9 +727,14 @@ fn type_reference_to_expression_type(
             || type_ref.name.starts_with("uint")
             || type_ref.name.starts_with("varint")
         {
+            // The bits are needed to know the range of bit fields.
             (
                 ExpressionType::Integer(0),
-                Some(TypeReference::new_native_type(type_ref.name.as_str())),
+                Some(TypeReference {
+                    bits: type_ref.bits,
+                    length_expression: type_ref.length_expression.clone(),
+                    ..TypeReference::new_native_type(type_ref.name.as_str())
+                }),
             )
         } else if type_ref.name == "extern" || type_ref.name == "bytes" {
             (
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index ec45968..e4778af 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -81,11 +81,17 @@ fn generate_unary_arithmetic_expression(
     format!(
         "{}{}",
         match expression.expression_type {
-            PLUS => "+",
+            // There is no unary plus in Rust.
+            PLUS => "",
             MINUS => "-",
             _ => panic!("unexpected unary arithmetic expression operator"),
         },
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope),
+        generate_operand(
+            expression.operand1.as_ref().unwrap(),
+            &expression.native_type,
+            type_generator,
+            scope
+        ),
     )
 }
 
@@ -169,7 +175,7 @@ fn generate_arithmetic_expression(
         );
     }
 
-    let operand_type = common_operand_type(operand1, operand2);
+    let operand_type = expression.native_type.clone();
     format!(
         "{} {} {}",
         generate_operand(operand1, &operand_type, type_generator, scope),
@@ -377,7 +383,12 @@ fn generate_bitwise_negation(
 ) -> String {
     format!(
         "!{}",
-        generate_expression(expression.operand1.as_ref().unwrap(), type_generator, scope)
+        generate_operand(
+            expression.operand1.as_ref().unwrap(),
+            &expression.native_type,
+            type_generator,
+            scope
+        )
     )
 }
 
@@ -388,14 +399,15 @@ fn generate_bitwise_expression(
 ) -> String {
     let operand1 = expression.operand1.as_ref().unwrap();
     let operand2 = expression.operand2.as_ref().unwrap();
-    let operand_type = match expression.expression_type {
+    let operand1_type = expression.native_type.clone();
+    let operand2_type = match expression.expression_type {
         // The operands of shift operators can have different types.
         LSHIFT | RSHIFT => None,
-        _ => common_operand_type(operand1, operand2),
+        _ => expression.native_type.clone(),
     };
     format!(
         "{} {} {}",
-        generate_operand(operand1, &operand_type, type_generator, scope),
+        generate_operand(operand1, &operand1_type, type_generator, scope),
         match expression.expression_type {
             AND => "&",
             OR => "|",
@@ -404,7 +416,7 @@ fn generate_bitwise_expression(
             RSHIFT => ">>",
             _ => panic!("unexpected bitwise expression operator"),
         },
-        generate_operand(operand2, &operand_type, type_generator, scope),
+        generate_operand(operand2, &operand2_type, type_generator, scope),
     )
 }
 
@@ -504,5 +516,5 @@ fn generate_literal_expression(expression: &Expression) -> String {
 fn generate_index_operator() -> String {
     // Make sure this variable name matches the one used in encode/decode code generators
     // where the parameters are passed.
-    "(param_index as u64)".into()
+    "(param_index as i64)".into()
 }
-- 
2.43.0


From 07d6f63d0acd4e3c281fc1291d0626b732cdffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:18 +0000
Subject: [PATCH 49/76] fix: return an error when the length of an array is
 negative

---
 crates/zserio-rs-build/src/internal/generator/array.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/array.rs b/crates/zserio-rs-build/src/internal/generator/array.rs
index e861b04..0be0a6b 100644
--- a/crates/zserio-rs-build/src/internal/generator/array.rs
+++ b/crates/zserio-rs-build/src/internal/generator/array.rs
@@ -119,8 +119,9 @@ pub fn instantiate_zserio_array(
         initialize_array_trait(scope, type_generator, fund_type.as_ref())
     ));
     let array_length_str = match &field_array.array_length_expression {
+        // A negative length is invalid, and must not be converted to a huge one.
         Some(array_length_expression) => format!(
-            "Some(({}) as usize)",
+            "Some(usize::try_from({}).map_err(|_| zserio::ZserioError::DataDoesNotFit)?)",
             generate_expression(&array_length_expression.borrow(), type_generator, scope)
         ),
         None => "None".to_owned(),
-- 
2.43.0


From 58afe615267482ebcd66341b58c9b8c1d437d7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:05 +0000
Subject: [PATCH 50/76] fix: resolve the functions of unions

---
 crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0bbb258..0026f64 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -245,6 +245,7 @@ fn get_symbol_name(symbol: &Symbol) -> String {
     match symbol {
         Symbol::Struct(s) => s.as_ref().borrow().name.clone(),
         Symbol::Choice(c) => c.as_ref().borrow().name.clone(),
+        Symbol::Union(u) => u.as_ref().borrow().name.clone(),
         Symbol::Subtype(s) => s.as_ref().borrow().name.clone(),
         Symbol::Enum(e) => e.as_ref().borrow().name.clone(),
         Symbol::Bitmask(bitmask) => bitmask.as_ref().borrow().name.clone(),
-- 
2.43.0


From 70f7d517e6e988848614a4cf5b7e3bba1a6957d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:37 +0000
Subject: [PATCH 51/76] fix: enclose type arguments in parentheses when
 comparing them

---
 crates/zserio-rs-build/src/internal/generator/encode.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/encode.rs b/crates/zserio-rs-build/src/internal/generator/encode.rs
index 96f892c..041fd24 100644
--- a/crates/zserio-rs-build/src/internal/generator/encode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/encode.rs
@@ -260,7 +260,7 @@ pub fn encode_field(
                 );
             }
             function.line(format!(
-                "assert!({}.{} == {});",
+                "assert!({}.{} == ({}));",
                 &element_name,
                 TypeGenerator::convert_field_name(&type_parameter.borrow().name),
                 rvalue,
-- 
2.43.0


From 59ef5f3938da177123c41ef84beab2b50c68fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:38 +0000
Subject: [PATCH 52/76] fix: evaluate expressions of literals when generating
 the code

---
 .../src/internal/generator/expression.rs      | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index e4778af..0924bb8 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -35,6 +35,9 @@ pub fn generate_expression(
     scope: &ModelScope,
 ) -> String {
     assert!(expression.evaluation_state == EvaluationState::Completed);
+    if let Some(value) = generate_resolved_expression(expression) {
+        return value;
+    }
     match expression.expression_type {
         LPAREN => format!(
             "({})",
@@ -73,6 +76,32 @@ pub fn generate_expression(
     }
 }
 
+/// Generates the value of an integer or boolean expression which consists of literals only.
+/// Without this, Rust would calculate it in the type it infers from the context, which may be
+/// too small for an intermediate result.
+fn generate_resolved_expression(expression: &Expression) -> Option<String> {
+    let is_literal = matches!(
+        expression.expression_type,
+        BOOL_LITERAL
+            | OCTAL_LITERAL
+            | HEXADECIMAL_LITERAL
+            | BINARY_LITERAL
+            | DECIMAL_LITERAL
+            | FLOAT_LITERAL
+            | DOUBLE_LITERAL
+            | STRING_LITERAL
+    );
+    if !expression.fully_resolved || is_literal {
+        return None;
+    }
+    match &expression.result_type {
+        ExpressionType::Integer(value) if *value < 0 => Some(format!("({value})")),
+        ExpressionType::Integer(value) => Some(value.to_string()),
+        ExpressionType::Bool(value) => Some(value.to_string()),
+        _ => None,
+    }
+}
+
 fn generate_unary_arithmetic_expression(
     expression: &Expression,
     type_generator: &mut TypeGenerator,
-- 
2.43.0


From 80137f745ddd8dbd15fe9dfe8dfb38488f7bdfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 53/76] fix: calculate literals which depend on a condition in
 64 bits

---
 .../zserio-rs-build/src/internal/ast/expression.rs   | 12 +++++++++++-
 .../src/internal/generator/expression.rs             |  7 ++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index fabb0c4..407baf9 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -563,7 +563,8 @@ impl Expression {
                 (ExpressionType::Integer(value1), ExpressionType::Integer(value2)) => {
                     self.native_type = match self.expression_type {
                         // The result of a shift has the type of the left operand.
-                        LSHIFT | RSHIFT => promote_integer_type(&op1.native_type),
+                        LSHIFT | RSHIFT => promote_integer_type(&op1.native_type)
+                            .or_else(|| self.type_of_unresolved_literals()),
                         _ => evaluate_mixing_integer_types(&op1.native_type, &op2.native_type),
                     };
                     let v1 = if op1.fully_resolved { *value1 } else { 1 };
@@ -619,6 +620,14 @@ impl Expression {
         });
     }
 
+    /// The type of literals if the result needs to be calculated by the generated code.
+    fn type_of_unresolved_literals(&self) -> Option<TypeReference> {
+        if self.fully_resolved {
+            return None;
+        }
+        Some(TypeReference::new_native_type("int64"))
+    }
+
     fn evaluate_ternary_expression(&mut self) {
         let op1 = self.operand1.as_ref().unwrap();
         let op2 = self.operand2.as_ref().unwrap();
@@ -632,6 +641,7 @@ impl Expression {
                 self.native_type = match (&op2.result_type, &op3.result_type) {
                     (ExpressionType::Integer(_), ExpressionType::Integer(_)) => {
                         evaluate_mixing_integer_types(&op2.native_type, &op3.native_type)
+                            .or_else(|| self.type_of_unresolved_literals())
                     }
                     (ExpressionType::Float(_), ExpressionType::Float(_)) => {
                         evaluate_mixing_float_types(&op2.native_type, &op3.native_type)
diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 0924bb8..2441128 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -378,6 +378,7 @@ fn generate_ternary_expression(
     let conversion = match &expression.result_type {
         ExpressionType::String(_) => ".to_string()",
         ExpressionType::Compound | ExpressionType::Other => ".clone()",
+        ExpressionType::Integer(_) if operand_type.is_none() => " as i64",
         _ => "",
     };
     format!(
@@ -434,9 +435,13 @@ fn generate_bitwise_expression(
         LSHIFT | RSHIFT => None,
         _ => expression.native_type.clone(),
     };
+    let mut op1 = generate_operand(operand1, &operand1_type, type_generator, scope);
+    if operand1.native_type.is_none() && matches!(expression.expression_type, LSHIFT | RSHIFT) {
+        op1 = format!("(({}) as i64)", op1);
+    }
     format!(
         "{} {} {}",
-        generate_operand(operand1, &operand1_type, type_generator, scope),
+        op1,
         match expression.expression_type {
             AND => "&",
             OR => "|",
-- 
2.43.0


From ac44c6c8a137d869a43ab6b3e8b93b8ba40439f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 54/76] fix: evaluate the expressions of each template instance
 separately

---
 .../compiler/template_instantiation.rs        | 97 +++++++++++++++----
 1 file changed, 79 insertions(+), 18 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index a429423..ec6c489 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,5 +1,5 @@
 use crate::internal::ast::expression::Expression;
-use crate::internal::ast::field::Field;
+use crate::internal::ast::field::{Array, Field};
 use crate::internal::ast::package::ZPackage;
 use crate::internal::ast::parameter::Parameter;
 use crate::internal::ast::type_reference::TypeReference;
@@ -72,6 +72,49 @@ pub fn instantiate_type(
     }
 }
 
+/// Clones an expression. Cloning the reference is not enough, because each instance of a template
+/// evaluates its expressions with its own types.
+fn clone_expression(expression: &Rc<RefCell<Expression>>) -> Rc<RefCell<Expression>> {
+    Rc::from(RefCell::from(expression.borrow().clone()))
+}
+
+fn clone_expressions(expressions: &[Rc<RefCell<Expression>>]) -> Vec<Rc<RefCell<Expression>>> {
+    expressions.iter().map(clone_expression).collect()
+}
+
+/// Clones a type reference, including its expressions.
+fn clone_type_reference(type_reference: &TypeReference) -> TypeReference {
+    TypeReference {
+        template_arguments: type_reference
+            .template_arguments
+            .iter()
+            .map(clone_type_reference)
+            .collect(),
+        type_arguments: clone_expressions(&type_reference.type_arguments),
+        length_expression: type_reference
+            .length_expression
+            .as_ref()
+            .map(clone_expression),
+        ..type_reference.clone()
+    }
+}
+
+/// Clones a field, including its expressions.
+fn clone_field(field: &Field) -> Field {
+    Field {
+        field_type: Box::from(clone_type_reference(&field.field_type)),
+        initializer: field.initializer.as_ref().map(clone_expression),
+        offset: field.offset.as_ref().map(clone_expression),
+        constraint: field.constraint.as_ref().map(clone_expression),
+        optional_clause: field.optional_clause.as_ref().map(clone_expression),
+        array: field.array.as_ref().map(|array| Array {
+            array_length_expression: array.array_length_expression.as_ref().map(clone_expression),
+            ..array.clone()
+        }),
+        ..field.clone()
+    }
+}
+
 fn generate_instantiated_name(type_reference: &TypeReference) -> String {
     let mut new_name = type_reference.name.clone();
     for template_arg in &type_reference.template_arguments {
@@ -158,7 +201,10 @@ fn instantiate_struct(
             // The parameter is not templated, and is not affected by template instantiation.
             instantiated_struct
                 .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
+                .push(Rc::new(RefCell::new(Parameter {
+                    name: param.name.clone(),
+                    zserio_type: Box::new(clone_type_reference(&param.zserio_type)),
+                })));
         }
     }
 
@@ -171,13 +217,17 @@ fn instantiate_struct(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: clone_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_struct
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(ZFunction {
+                    name: function.name.clone(),
+                    result: clone_expression(&function.result),
+                    return_type: Box::new(clone_type_reference(&function.return_type)),
+                })));
         }
     }
 
@@ -237,7 +287,7 @@ fn instantiate_choice(
         name: instantiated_name.clone(),
         template_parameters: vec![],
         type_parameters: vec![],
-        selector_expression: z_choice.selector_expression.clone(),
+        selector_expression: clone_expression(&z_choice.selector_expression),
         cases: vec![],
         default_case: None,
         functions: vec![],
@@ -246,7 +296,7 @@ fn instantiate_choice(
     // Instantiate the choice fields
     for case in &z_choice.cases {
         instantiated_choice.cases.push(ZChoiceCase {
-            conditions: case.conditions.clone(),
+            conditions: clone_expressions(&case.conditions),
             field: {
                 if let Some(field) = &case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -264,7 +314,7 @@ fn instantiate_choice(
     // Instantiate the default field, if present
     if let Some(default_case) = &z_choice.default_case {
         instantiated_choice.default_case = Option::from(ZChoiceCase {
-            conditions: default_case.conditions.clone(),
+            conditions: clone_expressions(&default_case.conditions),
             field: {
                 if let Some(field) = &default_case.field {
                     Option::from(Rc::from(RefCell::from(instantiate_field(
@@ -297,7 +347,10 @@ fn instantiate_choice(
             // The parameter is not templated, and is not affected by template instantiation.
             instantiated_choice
                 .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
+                .push(Rc::new(RefCell::new(Parameter {
+                    name: param.name.clone(),
+                    zserio_type: Box::new(clone_type_reference(&param.zserio_type)),
+                })));
         }
     }
 
@@ -310,13 +363,17 @@ fn instantiate_choice(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: clone_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_choice
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(ZFunction {
+                    name: function.name.clone(),
+                    result: clone_expression(&function.result),
+                    return_type: Box::new(clone_type_reference(&function.return_type)),
+                })));
         }
     }
     // Add the newly added choice to the package.
@@ -408,7 +465,10 @@ fn instantiate_union(
             // The parameter is not templated, and is not affected by template instantiation.
             instantiated_union
                 .type_parameters
-                .push(Rc::new(RefCell::new(param.clone())));
+                .push(Rc::new(RefCell::new(Parameter {
+                    name: param.name.clone(),
+                    zserio_type: Box::new(clone_type_reference(&param.zserio_type)),
+                })));
         }
     }
 
@@ -421,13 +481,17 @@ fn instantiate_union(
                 .functions
                 .push(Rc::new(RefCell::new(ZFunction {
                     name: function.name.clone(),
-                    result: function.result.clone(),
+                    result: clone_expression(&function.result),
                     return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
                 })));
         } else {
             instantiated_union
                 .functions
-                .push(Rc::new(RefCell::new(function.clone())));
+                .push(Rc::new(RefCell::new(ZFunction {
+                    name: function.name.clone(),
+                    result: clone_expression(&function.result),
+                    return_type: Box::new(clone_type_reference(&function.return_type)),
+                })));
         }
     }
 
@@ -446,7 +510,7 @@ pub fn instantiate_field(
     field: &Field,
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
-    let mut new_field = field.clone();
+    let mut new_field = clone_field(field);
     if !new_field.field_type.template_arguments.is_empty() {
         // The field type is not a template type itself, but by itself is a template,
         // which is using the template type in its template parameters.
@@ -474,10 +538,7 @@ pub fn instantiate_field(
     if instantiated_types.contains_key(&field.field_type.name) {
         new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
         // copy the parameters, if set
-        new_field
-            .field_type
-            .type_arguments
-            .clone_from(&field.field_type.type_arguments);
+        new_field.field_type.type_arguments = clone_expressions(&field.field_type.type_arguments);
     }
     new_field
 }
-- 
2.43.0


From 2d39e7cce369e682664f18c46389111ce61449a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 55/76] fix: instantiate the templated parameters of a choice

---
 .../src/internal/compiler/template_instantiation.rs           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index ec6c489..ab1f4bc 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -334,14 +334,14 @@ fn instantiate_choice(
     for rc_param in &z_choice.type_parameters {
         // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.name) {
+        if instantiated_types.contains_key(&param.zserio_type.name) {
             // The parameter is a templated type, so replace the parameter
             // type by a reference to the newly instantiated type.
             instantiated_choice
                 .type_parameters
                 .push(Rc::new(RefCell::new(Parameter {
                     name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.name].clone()),
+                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
                 })));
         } else {
             // The parameter is not templated, and is not affected by template instantiation.
-- 
2.43.0


From 415a4bdbf5f29ccfea412e1c9cc1e935483c71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 56/76] fix: instantiate templates in parameters, functions and
 nested template arguments

---
 .../compiler/template_instantiation.rs        | 283 +++++++++---------
 1 file changed, 143 insertions(+), 140 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index ab1f4bc..861c19e 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -186,49 +186,34 @@ fn instantiate_struct(
     }
     // Instantiate the parameters
     for rc_param in &z_struct.type_parameters {
-        // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_struct
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(clone_type_reference(&param.zserio_type)),
-                })));
-        }
+        instantiated_struct
+            .type_parameters
+            .push(Rc::new(RefCell::new(Parameter {
+                name: param.name.clone(),
+                zserio_type: Box::new(instantiate_type_reference(
+                    pkg,
+                    scope,
+                    &param.zserio_type,
+                    &instantiated_types,
+                )),
+            })));
     }
 
     for rc_function in &z_struct.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: clone_expression(&function.result),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_struct
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: clone_expression(&function.result),
-                    return_type: Box::new(clone_type_reference(&function.return_type)),
-                })));
-        }
+        instantiated_struct
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: clone_expression(&function.result),
+                return_type: Box::new(instantiate_type_reference(
+                    pkg,
+                    scope,
+                    &function.return_type,
+                    &instantiated_types,
+                )),
+            })));
     }
 
     // Add the newly added structure to the package.
@@ -332,49 +317,34 @@ fn instantiate_choice(
 
     // Instantiate the parameters
     for rc_param in &z_choice.type_parameters {
-        // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_choice
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(clone_type_reference(&param.zserio_type)),
-                })));
-        }
+        instantiated_choice
+            .type_parameters
+            .push(Rc::new(RefCell::new(Parameter {
+                name: param.name.clone(),
+                zserio_type: Box::new(instantiate_type_reference(
+                    pkg,
+                    scope,
+                    &param.zserio_type,
+                    &instantiated_types,
+                )),
+            })));
     }
 
     for rc_function in &z_choice.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: clone_expression(&function.result),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_choice
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: clone_expression(&function.result),
-                    return_type: Box::new(clone_type_reference(&function.return_type)),
-                })));
-        }
+        instantiated_choice
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: clone_expression(&function.result),
+                return_type: Box::new(instantiate_type_reference(
+                    pkg,
+                    scope,
+                    &function.return_type,
+                    &instantiated_types,
+                )),
+            })));
     }
     // Add the newly added choice to the package.
     pkg.zchoices.insert(
@@ -450,49 +420,34 @@ fn instantiate_union(
     }
     // Instantiate the parameters
     for rc_param in &z_union.type_parameters {
-        // Check if the parameter is a templated type
         let param = rc_param.as_ref().borrow();
-        if instantiated_types.contains_key(&param.zserio_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(instantiated_types[&param.zserio_type.name].clone()),
-                })));
-        } else {
-            // The parameter is not templated, and is not affected by template instantiation.
-            instantiated_union
-                .type_parameters
-                .push(Rc::new(RefCell::new(Parameter {
-                    name: param.name.clone(),
-                    zserio_type: Box::new(clone_type_reference(&param.zserio_type)),
-                })));
-        }
+        instantiated_union
+            .type_parameters
+            .push(Rc::new(RefCell::new(Parameter {
+                name: param.name.clone(),
+                zserio_type: Box::new(instantiate_type_reference(
+                    pkg,
+                    scope,
+                    &param.zserio_type,
+                    &instantiated_types,
+                )),
+            })));
     }
 
     for rc_function in &z_union.functions {
         let function = rc_function.as_ref().borrow();
-        if instantiated_types.contains_key(&function.return_type.name) {
-            // The parameter is a templated type, so replace the parameter
-            // type by a reference to the newly instantiated type.
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: clone_expression(&function.result),
-                    return_type: Box::new(instantiated_types[&function.return_type.name].clone()),
-                })));
-        } else {
-            instantiated_union
-                .functions
-                .push(Rc::new(RefCell::new(ZFunction {
-                    name: function.name.clone(),
-                    result: clone_expression(&function.result),
-                    return_type: Box::new(clone_type_reference(&function.return_type)),
-                })));
-        }
+        instantiated_union
+            .functions
+            .push(Rc::new(RefCell::new(ZFunction {
+                name: function.name.clone(),
+                result: clone_expression(&function.result),
+                return_type: Box::new(instantiate_type_reference(
+                    pkg,
+                    scope,
+                    &function.return_type,
+                    &instantiated_types,
+                )),
+            })));
     }
 
     // Update the scope to contain the newly added union.
@@ -511,36 +466,54 @@ pub fn instantiate_field(
     instantiated_types: &HashMap<String, TypeReference>,
 ) -> Field {
     let mut new_field = clone_field(field);
-    if !new_field.field_type.template_arguments.is_empty() {
-        // The field type is not a template type itself, but by itself is a template,
-        // which is using the template type in its template parameters.
-        // For example:
-        // SomeOtherTemplate<TEMPLATE_TYPE> field;
-
-        // Iterate over the template parameters and instantiate them.
-        let mut new_template_arguments = vec![];
-
-        for template_parameter in new_field.field_type.template_arguments.iter() {
-            if instantiated_types.contains_key(&template_parameter.name) {
-                new_template_arguments.push(instantiated_types[&template_parameter.name].clone());
-            } else {
-                new_template_arguments.push(template_parameter.clone());
-            }
-        }
-        new_field.field_type.template_arguments = new_template_arguments;
+    new_field.field_type = Box::from(instantiate_type_reference(
+        pkg,
+        scope,
+        &field.field_type,
+        instantiated_types,
+    ));
+    new_field
+}
 
-        new_field.field_type = Box::from(instantiate_type(pkg, scope, &new_field.field_type, ""));
-        return new_field;
-    }
+/// Instantiates a type used inside a template.
+fn instantiate_type_reference(
+    pkg: &mut ZPackage,
+    scope: &mut ModelScope,
+    type_reference: &TypeReference,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> TypeReference {
+    let mut new_type = substitute_template_types(type_reference, instantiated_types);
+    // If the type is a template, which is using the template types in its template arguments,
+    // it needs to be instantiated. For example:
+    // SomeOtherTemplate<TEMPLATE_TYPE> field;
+    let type_arguments = std::mem::take(&mut new_type.type_arguments);
+    new_type = instantiate_type(pkg, scope, &new_type, "");
+    new_type.type_arguments = type_arguments;
+    new_type
+}
 
-    // Check if the field type is directly a templated type. For example:
+/// Replaces the template types within a type by the types they are instantiated with.
+fn substitute_template_types(
+    type_reference: &TypeReference,
+    instantiated_types: &HashMap<String, TypeReference>,
+) -> TypeReference {
+    let mut new_type = clone_type_reference(type_reference);
+
+    // Check if the type is directly a templated type. For example:
     // TEMPLATE_TYPE field;
-    if instantiated_types.contains_key(&field.field_type.name) {
-        new_field.field_type = Box::from(instantiated_types[&field.field_type.name].clone());
-        // copy the parameters, if set
-        new_field.field_type.type_arguments = clone_expressions(&field.field_type.type_arguments);
+    if new_type.package.is_empty() {
+        if let Some(instantiated_type) = instantiated_types.get(&new_type.name) {
+            return TypeReference {
+                // copy the parameters, if set
+                type_arguments: new_type.type_arguments,
+                ..clone_type_reference(instantiated_type)
+            };
+        }
     }
-    new_field
+    for template_argument in &mut new_type.template_arguments {
+        *template_argument = substitute_template_types(template_argument, instantiated_types);
+    }
+    new_type
 }
 
 /// Instantiates a struct that is not templated by itself, but has
@@ -566,6 +539,8 @@ pub fn instantiate_struct_fields(
         let new_type = Box::new(instantiate_type(pkg, scope, &field.borrow().field_type, ""));
         field.borrow_mut().field_type = new_type;
     }
+    instantiate_parameters(pkg, scope, &zstruct.type_parameters);
+    instantiate_functions(pkg, scope, &zstruct.functions);
 }
 
 /// Instantiates a choice that is not templated by itself, but has
@@ -601,6 +576,8 @@ pub fn instantiate_choice_fields(
             field.borrow_mut().field_type = new_type;
         }
     }
+    instantiate_parameters(pkg, scope, &zchoice.type_parameters);
+    instantiate_functions(pkg, scope, &zchoice.functions);
 }
 
 /// Instantiates an union that is not templated by itself, but has
@@ -622,4 +599,30 @@ pub fn instantiate_union_fields(pkg: &mut ZPackage, scope: &mut ModelScope, zuni
         let new_type = Box::new(instantiate_type(pkg, scope, &field.borrow().field_type, ""));
         field.borrow_mut().field_type = new_type;
     }
+    instantiate_parameters(pkg, scope, &zunion.type_parameters);
+    instantiate_functions(pkg, scope, &zunion.functions);
+}
+
+/// Instantiates the templates used as parameter types.
+fn instantiate_parameters(
+    pkg: &mut ZPackage,
+    scope: &mut ModelScope,
+    parameters: &[Rc<RefCell<Parameter>>],
+) {
+    for parameter in parameters {
+        let new_type = instantiate_type(pkg, scope, &parameter.borrow().zserio_type, "");
+        parameter.borrow_mut().zserio_type = Box::new(new_type);
+    }
+}
+
+/// Instantiates the templates used as result types of functions.
+fn instantiate_functions(
+    pkg: &mut ZPackage,
+    scope: &mut ModelScope,
+    functions: &[Rc<RefCell<ZFunction>>],
+) {
+    for function in functions {
+        let new_type = instantiate_type(pkg, scope, &function.borrow().return_type, "");
+        function.borrow_mut().return_type = Box::new(new_type);
+    }
 }
-- 
2.43.0


From 73ffe1f5fe69c609f8c9d73a04f2f32a9230cae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 57/76] fix: resolve the symbols of a template in the package
 of the template

---
 .../src/internal/ast/expression.rs            |  13 +-
 .../src/internal/compiler/resolve_types.rs    |   3 +-
 .../src/internal/compiler/symbol_scope.rs     |  22 ++-
 .../compiler/template_instantiation.rs        | 160 +++++++++++++++++-
 crates/zserio-rs-build/src/internal/model.rs  |  12 +-
 5 files changed, 198 insertions(+), 12 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 407baf9..8552786 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -667,7 +667,11 @@ impl Expression {
             // value will be evaluated when the complete dot expression is evaluated.
             return;
         }
-        let symbol_reference = scope.resolve_symbol(&self.text, false);
+        // The symbols of template instances may already be resolved.
+        let symbol_reference = match &self.symbol {
+            Some(symbol) => symbol.clone(),
+            None => scope.resolve_symbol(&self.text, false),
+        };
         self.symbol = Option::from(symbol_reference.clone());
         (self.result_type, self.native_type) = symbol_to_expression_type(&symbol_reference, scope);
         self.fully_resolved = false;
@@ -756,6 +760,11 @@ fn type_reference_to_expression_type(
         }
     } else {
         // Resolve the symbol recursively, until a fundamental type is found.
-        symbol_to_expression_type(&scope.resolve_symbol(&type_ref.name, true), scope)
+        let symbol = if type_ref.package.is_empty() {
+            scope.resolve_symbol(&type_ref.name, true)
+        } else {
+            scope.get_symbol(type_ref)
+        };
+        symbol_to_expression_type(&symbol, scope)
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
index b2cef2a..6f9a20d 100644
--- a/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/resolve_types.rs
@@ -83,8 +83,9 @@ pub fn resolve_type_reference(type_reference: &mut TypeReference, scope: &ModelS
     if type_reference.is_builtin {
         return;
     }
-    let symbol_ref = scope.resolve_symbol(&type_reference.name, true);
+    // The types of template instances are already resolved.
     if type_reference.package.is_empty() {
+        let symbol_ref = scope.resolve_symbol(&type_reference.name, true);
         type_reference.package.clone_from(&symbol_ref.package);
     }
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index 0026f64..ba54c9d 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -108,6 +108,20 @@ impl ModelScope {
         name: &String,
         ignore_symbol_local_scopes: bool,
     ) -> SymbolReference {
+        match self.try_resolve_symbol(name, ignore_symbol_local_scopes) {
+            Some(symbol) => symbol,
+            // The symbol lookup has failed, and the symbol was not found anywhere.
+            None => panic!("symbol not found: {:?}", name),
+        }
+    }
+
+    /// This function resolves a symbol based on the imports in the current package.
+    /// It returns `None` if the symbol was not found.
+    pub fn try_resolve_symbol(
+        &self,
+        name: &String,
+        ignore_symbol_local_scopes: bool,
+    ) -> Option<SymbolReference> {
         let evaluation_scope = self.scope_stack.last().unwrap();
         let package_scope = self.package_scopes.get(&evaluation_scope.package).unwrap();
 
@@ -115,7 +129,7 @@ impl ModelScope {
         if let Some(symbol) =
             package_scope.resolve_symbol(name, ignore_symbol_local_scopes, evaluation_scope)
         {
-            return symbol;
+            return Some(symbol);
         }
 
         // Try to find the symbol in the imported packages.
@@ -142,7 +156,7 @@ impl ModelScope {
                         symbol_name: None,
                     },
                 ) {
-                    return symbol;
+                    return Some(symbol);
                 }
 
                 // If the symbol was not found in one of the current imports,
@@ -154,9 +168,7 @@ impl ModelScope {
             // packages that were just processed.
             imports_to_process = new_imports_to_process;
         }
-        // If this line is reached, the symbol lookup has failed, and the symbol
-        // was not found anywhere.
-        panic!("symbol not found: {:?}", name);
+        None
     }
 }
 
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 861c19e..133b5b6 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,4 +1,4 @@
-use crate::internal::ast::expression::Expression;
+use crate::internal::ast::expression::{Expression, ExpressionFlag};
 use crate::internal::ast::field::{Array, Field};
 use crate::internal::ast::package::ZPackage;
 use crate::internal::ast::parameter::Parameter;
@@ -9,8 +9,9 @@ use crate::internal::ast::zstruct::{add_struct_to_scope, ZStruct};
 use crate::internal::ast::zunion::{add_zunion_to_scope, ZUnion};
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::parser::gen::zserioparser::ID;
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 /// Instantiates a templated type reference.
@@ -36,7 +37,11 @@ pub fn instantiate_type(
         new_type_name = generate_instantiated_name(zserio_type);
     }
 
-    let symbol = scope.resolve_symbol(&zserio_type.name, true);
+    let symbol = if zserio_type.package.is_empty() {
+        scope.resolve_symbol(&zserio_type.name, true)
+    } else {
+        scope.get_symbol(zserio_type)
+    };
     match symbol.symbol {
         Symbol::Struct(s) => {
             return instantiate_struct(
@@ -72,6 +77,155 @@ pub fn instantiate_type(
     }
 }
 
+/// Resolves the symbols used by a template in the package of the template. Its instances may be
+/// located in other packages, where the same names may designate other symbols, or none at all.
+struct TemplateSymbolResolver<'a> {
+    scope: &'a ModelScope,
+
+    /// The names which belong to the template: its template parameters, fields, parameters
+    /// and functions.
+    local_names: HashSet<String>,
+}
+
+impl TemplateSymbolResolver<'_> {
+    fn resolve_type_reference(&self, type_reference: &mut TypeReference) {
+        if !type_reference.is_builtin
+            && type_reference.package.is_empty()
+            && !self.local_names.contains(&type_reference.name)
+        {
+            if let Some(symbol) = self.scope.try_resolve_symbol(&type_reference.name, true) {
+                type_reference.package = symbol.package;
+            }
+        }
+        for template_argument in &mut type_reference.template_arguments {
+            self.resolve_type_reference(template_argument);
+        }
+        for type_argument in &type_reference.type_arguments {
+            self.resolve_expression(&mut type_argument.borrow_mut());
+        }
+        if let Some(length_expression) = &type_reference.length_expression {
+            self.resolve_expression(&mut length_expression.borrow_mut());
+        }
+    }
+
+    fn resolve_expression(&self, expression: &mut Expression) {
+        if expression.expression_type == ID
+            && expression.flag != ExpressionFlag::IsDotExpressionRightOperand
+            && !self.local_names.contains(&expression.text)
+        {
+            expression.symbol = self.scope.try_resolve_symbol(&expression.text, true);
+        }
+        for operand in [
+            &mut expression.operand1,
+            &mut expression.operand2,
+            &mut expression.operand3,
+        ]
+        .into_iter()
+        .flatten()
+        {
+            self.resolve_expression(operand);
+        }
+    }
+
+    fn resolve_field(&self, field: &Field) {
+        let array_length = field
+            .array
+            .as_ref()
+            .and_then(|array| array.array_length_expression.as_ref());
+        for expression in [
+            field.initializer.as_ref(),
+            field.offset.as_ref(),
+            field.constraint.as_ref(),
+            field.optional_clause.as_ref(),
+            array_length,
+        ]
+        .into_iter()
+        .flatten()
+        {
+            self.resolve_expression(&mut expression.borrow_mut());
+        }
+    }
+
+    fn resolve(
+        scope: &ModelScope,
+        template_parameters: &[String],
+        fields: &[Rc<RefCell<Field>>],
+        parameters: &[Rc<RefCell<Parameter>>],
+        functions: &[Rc<RefCell<ZFunction>>],
+        expressions: &[Rc<RefCell<Expression>>],
+    ) {
+        let mut local_names: HashSet<String> = template_parameters.iter().cloned().collect();
+        local_names.extend(fields.iter().map(|x| x.borrow().name.clone()));
+        local_names.extend(parameters.iter().map(|x| x.borrow().name.clone()));
+        local_names.extend(functions.iter().map(|x| x.borrow().name.clone()));
+        let resolver = TemplateSymbolResolver { scope, local_names };
+
+        for field in fields {
+            resolver.resolve_type_reference(&mut field.borrow_mut().field_type);
+            resolver.resolve_field(&field.borrow());
+        }
+        for parameter in parameters {
+            resolver.resolve_type_reference(&mut parameter.borrow_mut().zserio_type);
+        }
+        for function in functions {
+            resolver.resolve_type_reference(&mut function.borrow_mut().return_type);
+            resolver.resolve_expression(&mut function.borrow().result.borrow_mut());
+        }
+        for expression in expressions {
+            resolver.resolve_expression(&mut expression.borrow_mut());
+        }
+    }
+}
+
+/// Resolves the symbols used by the templates of the current package.
+pub fn resolve_template_symbols(pkg: &ZPackage, scope: &ModelScope) {
+    for rc_struct in pkg.structs.values() {
+        let zstruct = rc_struct.borrow();
+        if !zstruct.template_parameters.is_empty() {
+            TemplateSymbolResolver::resolve(
+                scope,
+                &zstruct.template_parameters,
+                &zstruct.fields,
+                &zstruct.type_parameters,
+                &zstruct.functions,
+                &[],
+            );
+        }
+    }
+    for rc_choice in pkg.zchoices.values() {
+        let zchoice = rc_choice.borrow();
+        if !zchoice.template_parameters.is_empty() {
+            let mut fields = vec![];
+            let mut expressions = vec![zchoice.selector_expression.clone()];
+            for case in zchoice.cases.iter().chain(&zchoice.default_case) {
+                fields.extend(case.field.clone());
+                expressions.extend(case.conditions.clone());
+            }
+            TemplateSymbolResolver::resolve(
+                scope,
+                &zchoice.template_parameters,
+                &fields,
+                &zchoice.type_parameters,
+                &zchoice.functions,
+                &expressions,
+            );
+        }
+    }
+    for rc_union in pkg.zunions.values() {
+        let zunion = rc_union.borrow();
+        if !zunion.template_parameters.is_empty() {
+            TemplateSymbolResolver::resolve(
+                scope,
+                &zunion.template_parameters,
+                &zunion.fields,
+                &zunion.type_parameters,
+                &zunion.functions,
+                &[],
+            );
+        }
+    }
+}
+
 /// Clones an expression. Cloning the reference is not enough, because each instance of a template
 /// evaluates its expressions with its own types.
 fn clone_expression(expression: &Rc<RefCell<Expression>>) -> Rc<RefCell<Expression>> {
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index bb0af7e..20e4f9e 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -13,7 +13,7 @@ use super::compiler::symbol_scope::ScopeLocation;
 pub mod package;
 use crate::internal::compiler::template_instantiation::{
     instantiate_choice_fields, instantiate_struct_fields, instantiate_type,
-    instantiate_union_fields,
+    instantiate_union_fields, resolve_template_symbols,
 };
 
 /// A data structure containing all zserio files related to each other.
@@ -132,6 +132,16 @@ impl Model {
 
     pub fn instantiate_templates(&mut self) {
         let scope = &mut self.scope;
+        for pkg in self.packages.values() {
+            scope.scope_stack.push(ScopeLocation {
+                package: pkg.name.clone(),
+                import_symbol: None,
+                symbol_name: None,
+            });
+            resolve_template_symbols(pkg, scope);
+            scope.scope_stack.pop();
+        }
+
         for pkg in self.packages.values_mut() {
             scope.scope_stack.push(ScopeLocation {
                 package: pkg.name.clone(),
-- 
2.43.0


From c06a296e659ab9cbcc1fe1d35886352efc0c0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:09 +0000
Subject: [PATCH 58/76] fix: resolve the items of choice cases in the type of
 the selector

---
 .../src/internal/ast/zchoice.rs               | 120 ++++++++++--------
 crates/zserio-rs-build/src/internal/model.rs  |   2 +-
 2 files changed, 68 insertions(+), 54 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index d74e0ef..cc20c96 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -10,7 +10,8 @@ use std::rc::Rc;
 
 use std::collections::HashMap;
 
-use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol};
+use crate::internal::compiler::fundamental_type::get_fundamental_type;
+use crate::internal::compiler::symbol_scope::{ModelScope, PackageScope, Symbol, SymbolReference};
 
 #[derive(Clone, Debug)]
 pub struct ZChoiceCase {
@@ -74,7 +75,7 @@ impl ZChoice {
         }
     }
 
-    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self) {
+    pub fn add_enumeration_type_prefix_to_choice_cases(&mut self, scope: &ModelScope) {
         // For enumerator parameters, this function will look for choice cases that are not fully
         // described, and replaces them by a dot expression.
         // This is needed to satisfy the zserio rule:
@@ -91,64 +92,77 @@ impl ZChoice {
             return;
         }
 
+        let Some(selector_type) = self.get_selector_enumeration_type(scope) else {
+            return;
+        };
         for case in &mut self.cases {
             for condition in &mut case.conditions.iter_mut() {
-                let mut dot_expression = None;
+                let mut operand2 = Box::from(condition.as_ref().borrow().clone());
+                if operand2.expression_type != ID
+                    || !has_enumeration_item(&selector_type.symbol, &operand2.text)
                 {
-                    let condition_expression = condition.as_ref().borrow();
-                    if condition_expression.expression_type == ID {
-                        match &self
-                            .selector_expression
-                            .as_ref()
-                            .borrow()
-                            .symbol
-                            .as_ref()
-                            .unwrap()
-                            .symbol
-                        {
-                            Symbol::Parameter(p) => {
-                                let mut operand2 = Box::from(condition_expression.clone());
-                                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
-
-                                dot_expression = Option::from(Expression {
-                                    expression_type: DOT,
-                                    flag: ExpressionFlag::None,
-                                    operand1: Option::from(Box::new(Expression {
-                                        expression_type: ID,
-                                        text: p.as_ref().borrow().zserio_type.name.clone(),
-                                        flag: ExpressionFlag::None,
-                                        operand1: None,
-                                        operand2: None,
-                                        operand3: None,
-                                        result_type: ExpressionType::Other,
-                                        symbol: None,
-                                        fully_resolved: false,
-                                        evaluation_state: EvaluationState::NotEvaluated,
-                                        native_type: None,
-                                    })),
-                                    operand2: Option::from(operand2),
-                                    operand3: None,
-                                    text: "".into(),
-                                    result_type: ExpressionType::Other,
-                                    symbol: None,
-                                    fully_resolved: false,
-                                    evaluation_state: EvaluationState::NotEvaluated,
-                                    native_type: None,
-                                });
-                            }
-                            _ => panic!("selector expression is not a parameter"),
-                        }
-                    }
-                }
-                if let Some(new_dot_expression) = dot_expression {
-                    // TODO fully understand how the rust FnOnce() works. Using
-                    // replace_with() would make this function non-mutable.
-                    //condition.replace_with(|dot_expression| dot_expression.clone());
-                    *condition = Rc::from(RefCell::from(new_dot_expression));
+                    continue;
                 }
+                operand2.flag = ExpressionFlag::IsDotExpressionRightOperand;
+
+                let dot_expression = Expression {
+                    expression_type: DOT,
+                    flag: ExpressionFlag::None,
+                    operand1: Option::from(Box::new(Expression {
+                        expression_type: ID,
+                        text: selector_type.name.clone(),
+                        flag: ExpressionFlag::None,
+                        operand1: None,
+                        operand2: None,
+                        operand3: None,
+                        result_type: ExpressionType::Other,
+                        symbol: Option::from(selector_type.clone()),
+                        fully_resolved: false,
+                        evaluation_state: EvaluationState::NotEvaluated,
+                        native_type: None,
+                    })),
+                    operand2: Option::from(operand2),
+                    operand3: None,
+                    text: "".into(),
+                    result_type: ExpressionType::Other,
+                    symbol: None,
+                    fully_resolved: false,
+                    evaluation_state: EvaluationState::NotEvaluated,
+                    native_type: None,
+                };
+                // TODO fully understand how the rust FnOnce() works. Using
+                // replace_with() would make this function non-mutable.
+                //condition.replace_with(|dot_expression| dot_expression.clone());
+                *condition = Rc::from(RefCell::from(dot_expression));
             }
         }
     }
+
+    /// Returns the enum or bitmask type of the selector expression, or `None` if the selector
+    /// has another type.
+    fn get_selector_enumeration_type(&self, scope: &ModelScope) -> Option<SymbolReference> {
+        let selector_expression = self.selector_expression.as_ref().borrow();
+        let selector_type = match &selector_expression.symbol.as_ref()?.symbol {
+            Symbol::Parameter(parameter) => parameter.borrow().zserio_type.clone(),
+            Symbol::Field(field) => field.borrow().field_type.clone(),
+            Symbol::Function(function) => function.borrow().return_type.clone(),
+            _ => return None,
+        };
+        let selector_type = get_fundamental_type(&selector_type, scope).fundamental_type;
+        if selector_type.is_builtin {
+            return None;
+        }
+        Some(scope.get_symbol(&selector_type))
+    }
+}
+
+/// Tells if an enum or bitmask has an item with this name.
+fn has_enumeration_item(enumeration: &Symbol, name: &str) -> bool {
+    match enumeration {
+        Symbol::Enum(zenum) => zenum.borrow().items.iter().any(|x| x.name == name),
+        Symbol::Bitmask(bitmask) => bitmask.borrow().values.iter().any(|x| x.name == name),
+        _ => false,
+    }
 }
 
 pub fn add_choice_to_scope(z_choice: &Rc<RefCell<ZChoice>>, package_scope: &mut PackageScope) {
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 20e4f9e..6a074c4 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -251,7 +251,7 @@ impl Model {
                 z_choice.borrow().evaluate_selector_expression(scope);
                 z_choice
                     .borrow_mut()
-                    .add_enumeration_type_prefix_to_choice_cases();
+                    .add_enumeration_type_prefix_to_choice_cases(scope);
                 z_choice.borrow().evaluate(scope);
 
                 scope.scope_stack.pop();
-- 
2.43.0


From 6dd41c37261b1a3fc2a6bfd775208b88bf9399b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 59/76] fix: an import of a single symbol does not import the
 entire package

---
 .../src/internal/compiler/symbol_scope.rs     | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
index ba54c9d..cb53301 100644
--- a/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/symbol_scope.rs
@@ -16,7 +16,7 @@ use crate::internal::ast::{
 };
 
 use std::cell::RefCell;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
 /// This enum is used to cover any possible type of symbols.
@@ -133,20 +133,35 @@ impl ModelScope {
         }
 
         // Try to find the symbol in the imported packages.
-        let mut imports_to_process = vec![];
-        for reference in package_scope.imports.iter() {
-            imports_to_process.push(reference);
-        }
+        let mut imports_to_process: Vec<&ZImport> = package_scope.imports.iter().collect();
+        let mut processed_packages = HashSet::new();
 
         while !imports_to_process.is_empty() {
+            // Imports of a single symbol have precedence over imports of an entire package.
+            let (single_imports, package_imports): (Vec<&ZImport>, Vec<&ZImport>) =
+                imports_to_process
+                    .into_iter()
+                    .partition(|import| import.symbol_name.is_some());
             let mut new_imports_to_process = vec![];
 
-            for import in imports_to_process {
+            for import in single_imports.into_iter().chain(package_imports) {
                 let package_name = import.package_dir.join(".");
                 let imported_package = self
                     .package_scopes
                     .get(&package_name)
                     .unwrap_or_else(|| panic!("reference to unknown package {package_name}"));
+
+                // If the symbol is not found in one of the current imports,
+                // it may be located in an import of the current import. Keep
+                // track of them to process them later.
+                if processed_packages.insert(package_name.clone()) {
+                    new_imports_to_process.extend(&imported_package.imports);
+                }
+
+                // The import of a single symbol does not provide any other symbols.
+                if import.symbol_name.as_ref().is_some_and(|x| x != name) {
+                    continue;
+                }
                 if let Some(symbol) = imported_package.resolve_symbol(
                     name,
                     ignore_symbol_local_scopes,
@@ -158,11 +173,6 @@ impl ModelScope {
                 ) {
                     return Some(symbol);
                 }
-
-                // If the symbol was not found in one of the current imports,
-                // it may be located in an import of the current import. Keep
-                // track of them to process them later.
-                new_imports_to_process.extend(&imported_package.imports);
             }
             // If the symbol was not found, it may be found in an import of the
             // packages that were just processed.
-- 
2.43.0


From ac1abe1aabfdbf8c69eddf6842d43824f1abff31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 60/76] fix: keep the types of a package if there are packages
 located below it

---
 .../src/internal/generator/mod_file.rs        | 35 ++++++++++++++++---
 .../src/internal/generator/model.rs           | 14 ++++++--
 .../src/internal/generator/package.rs         |  3 ++
 3 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/mod_file.rs b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
index 230bf37..cdc9ac9 100644
--- a/crates/zserio-rs-build/src/internal/generator/mod_file.rs
+++ b/crates/zserio-rs-build/src/internal/generator/mod_file.rs
@@ -8,6 +8,8 @@ use std::path::Path;
 use std::rc::Rc;
 
 struct ZserioModuleTreeNode {
+    /// Set if there is a package with this name, not only packages located below it.
+    is_package: bool,
     children: HashMap<String, Rc<RefCell<ZserioModuleTreeNode>>>,
 }
 
@@ -31,6 +33,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
         current_node.borrow_mut().children.insert(
             rust_module_name.clone(),
             Rc::from(RefCell::from(ZserioModuleTreeNode {
+                is_package: false,
                 children: HashMap::new(),
             })),
         );
@@ -42,6 +45,7 @@ fn add_package_to_tree(tree_node: &Rc<RefCell<ZserioModuleTreeNode>>, pkg_name:
             .clone();
         current_node = new_node;
     }
+    current_node.borrow_mut().is_package = true;
 }
 
 fn generate_mod_section(
@@ -57,7 +61,8 @@ fn generate_mod_section(
             *file_content += "#[rustfmt::skip]\n";
         }
 
-        if module_tree_node.borrow().children.is_empty() {
+        // The packages located below a package are part of the mod file of that package.
+        if module_tree_node.borrow().is_package {
             *file_content += format!("pub mod {};\n", mod_name).as_str();
             return;
         }
@@ -79,17 +84,37 @@ fn generate_mod_section(
     }
 }
 
-/// This function generates the top-level mod file, which adds all generated packages
-/// to the known packages.
-pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
-    // Reorganize the packages into a tree structure, categorized by module.
+/// Reorganizes the packages into a tree structure, categorized by module.
+fn build_module_tree(model: &Model) -> Rc<RefCell<ZserioModuleTreeNode>> {
     let module_tree_root = Rc::from(RefCell::from(ZserioModuleTreeNode {
+        is_package: false,
         children: HashMap::new(),
     }));
 
     for package in model.packages.values() {
         add_package_to_tree(&module_tree_root, &package.name);
     }
+    module_tree_root
+}
+
+/// Generates the "pub mod X;" for the packages located below a package, for example for the
+/// package `a.b`, if there is also a package `a`.
+pub fn generate_sub_package_section(model: &Model, package_name: &str) -> String {
+    let mut current_node = build_module_tree(model);
+    for module_path in package_name.split('.') {
+        let rust_module_name = TypeGenerator::to_rust_module_name(module_path);
+        let child_node = current_node.borrow().children[&rust_module_name].clone();
+        current_node = child_node;
+    }
+    let mut section = String::from("");
+    generate_mod_section(&mut section, "", &current_node, 0);
+    section
+}
+
+/// This function generates the top-level mod file, which adds all generated packages
+/// to the known packages.
+pub fn generate_top_level_mod_file(model: &Model, package_directory: &Path, root_package: &str) {
+    let module_tree_root = build_module_tree(model);
 
     // Generate the mod.rs file content.
     let mut mod_file_content = String::from("");
diff --git a/crates/zserio-rs-build/src/internal/generator/model.rs b/crates/zserio-rs-build/src/internal/generator/model.rs
index 29a612b..acf097b 100644
--- a/crates/zserio-rs-build/src/internal/generator/model.rs
+++ b/crates/zserio-rs-build/src/internal/generator/model.rs
@@ -1,4 +1,6 @@
-use crate::internal::generator::mod_file::generate_top_level_mod_file;
+use crate::internal::generator::mod_file::{
+    generate_sub_package_section, generate_top_level_mod_file,
+};
 use crate::internal::generator::package::generate_package;
 use crate::internal::generator::types::TypeGenerator;
 use crate::internal::model::Model;
@@ -8,11 +10,17 @@ use std::path::Path;
 pub fn generate_model(model: &mut Model, package_directory: &Path, root_package: &str) {
     let mut type_generator = TypeGenerator::new(root_package.to_owned());
 
-    let scope = &mut model.scope;
     // Generate the rust interface files for all packages.
     for package in model.packages.values() {
         info!("generating rust code for package {0}...", package.name);
-        generate_package(&mut type_generator, scope, package, package_directory);
+        let sub_packages = generate_sub_package_section(model, &package.name);
+        generate_package(
+            &mut type_generator,
+            &model.scope,
+            package,
+            package_directory,
+            &sub_packages,
+        );
     }
 
     // Generate the overall mod file.
diff --git a/crates/zserio-rs-build/src/internal/generator/package.rs b/crates/zserio-rs-build/src/internal/generator/package.rs
index 8fa410a..04962e3 100644
--- a/crates/zserio-rs-build/src/internal/generator/package.rs
+++ b/crates/zserio-rs-build/src/internal/generator/package.rs
@@ -14,6 +14,7 @@ pub fn generate_package(
     symbol_scope: &ModelScope,
     package: &ZPackage,
     package_directory: &Path,
+    sub_packages: &str,
 ) {
     let package_name = &package.name;
     let mut module_names = Vec::new();
@@ -166,6 +167,8 @@ pub fn generate_package(
         mod_file_content += format!("pub mod {module_name};\n").as_str();
     }
 
+    mod_file_content += sub_packages;
+
     for module_name in &module_names {
         mod_file_content += format!("pub use {module_name}::*;\n").as_str();
     }
-- 
2.43.0


From 683a7da0fa257a25a810006f5ce9bb498dbd3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 61/76] fix: support subtypes as the type of enums and bitmasks

---
 .../src/internal/ast/expression.rs            |  8 ++---
 .../src/internal/generator/zbitmask.rs        | 25 +++++----------
 .../src/internal/generator/zenum.rs           | 31 ++++++-------------
 crates/zserio-rs-build/src/internal/model.rs  | 22 ++++++++++++-
 4 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 8552786..23ce7cf 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -107,7 +107,7 @@ impl Expression {
             DOT => self.evaluate_dot_expression(scope),
             ISSET => self.evaluate_isset_expression(),
             LENGTHOF => self.evaluate_lengthof_operator(),
-            VALUEOF => self.evaluate_valueof_operator(),
+            VALUEOF => self.evaluate_valueof_operator(scope),
             NUMBITS => self.evaluate_numbits_operator(),
             EQ | GE | GT | LE | LT | NE => self.evaluate_comparison_expression(),
             PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => self.evaluate_arithmetic_expression(),
@@ -306,18 +306,18 @@ impl Expression {
         }
     }
 
-    fn evaluate_valueof_operator(&mut self) {
+    fn evaluate_valueof_operator(&mut self, scope: &ModelScope) {
         match &self.operand1 {
             Some(op1) => match &op1.result_type {
                 ExpressionType::BitMask(bitmask) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
-                    self.native_type = Some(*bitmask.as_ref().borrow().zserio_type.clone());
+                    self.native_type = Some(*get_fundamental_type(&bitmask.as_ref().borrow().zserio_type, scope).fundamental_type);
                 },
                 ExpressionType::Enum(zenum) => {
                     self.result_type = ExpressionType::Integer(0);
                     self.fully_resolved = false;
-                    self.native_type = Some(*zenum.as_ref().borrow().enum_type.clone());
+                    self.native_type = Some(*get_fundamental_type(&zenum.as_ref().borrow().enum_type, scope).fundamental_type);
                 },
                 _ => panic!("valueof operator can only be applied to bitmask or enum expressions, but was called for {:?}", op1)
             },
diff --git a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
index f7449b2..41e737a 100644
--- a/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zbitmask.rs
@@ -8,7 +8,7 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
     array::initialize_array_trait, bitsize::bitsize_type_reference, decode::decode_type,
     encode::encode_type, file_generator::write_to_file, preamble::add_standard_imports,
-    types::convert_to_enum_field_name, types::zserio_to_rust_type, types::TypeGenerator,
+    types::convert_to_enum_field_name, types::TypeGenerator,
 };
 use std::path::Path;
 
@@ -63,9 +63,9 @@ pub fn generate_bitmask(
     z_impl.impl_trait("ztype::ZserioPackableObject");
 
     // generate the functions to serialize/deserialize
-    generate_zserio_read(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_read(scope, type_generator, z_impl, &fundamental_type);
     generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zbitmask, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -92,9 +92,9 @@ fn generate_zserio_read(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
+    let rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
     let zserio_read_fn = impl_codegen.new_fn("zserio_read");
     zserio_read_fn.arg_mut_self();
     zserio_read_fn.arg("reader", "&mut BitReader");
@@ -103,10 +103,7 @@ fn generate_zserio_read(
         scope,
         type_generator,
         zserio_read_fn,
-        &format!(
-            "let v: {}",
-            zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
-        ),
+        &format!("let v: {}", rust_type),
         &String::from(""),
         fundamental_type,
         0,
@@ -120,10 +117,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
-    zserio_read_packed_fn.line(format!(
-        "let mut v: {} = 0;",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
-    ));
+    zserio_read_packed_fn.line(format!("let mut v: {} = 0;", rust_type));
     decode_type(
         scope,
         type_generator,
@@ -182,13 +176,10 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zbitmask: &ZBitmaskType,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
-    let rust_type_name = format!(
-        "(self.bits as {})",
-        zserio_to_rust_type(zbitmask.zserio_type.name.as_str()).unwrap()
-    );
+    let rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let rust_type_name = format!("(self.bits as {})", rust_type);
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
     bitsize_fn.ret("Result<u64>");
diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 7ad0bf0..1e21993 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -8,7 +8,7 @@ use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::{
     array::initialize_array_trait, bitsize::bitsize_type_reference, decode::decode_type,
     encode::encode_type, file_generator::write_to_file, preamble::add_standard_imports,
-    types::convert_to_enum_field_name, types::zserio_to_rust_type, types::TypeGenerator,
+    types::convert_to_enum_field_name, types::TypeGenerator,
 };
 use std::path::Path;
 
@@ -97,8 +97,8 @@ pub fn generate_enum(
 
     // generate the functions to serialize/deserialize
     generate_zserio_read(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_write(scope, type_generator, z_impl, zenum, &fundamental_type);
-    generate_zserio_bitsize(scope, type_generator, z_impl, zenum, &fundamental_type);
+    generate_zserio_write(scope, type_generator, z_impl, &fundamental_type);
+    generate_zserio_bitsize(scope, type_generator, z_impl, &fundamental_type);
 
     // Generate the packed contexts.
     let create_packing_context_fn = z_impl.new_fn("zserio_create_packing_context");
@@ -131,6 +131,7 @@ fn generate_zserio_read(
     zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
+    let rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
     let rust_type_name = TypeGenerator::to_rust_type_name(&zenum.name);
     let zserio_read_fn = struct_impl.new_fn("zserio_read");
     zserio_read_fn.arg_mut_self();
@@ -140,10 +141,7 @@ fn generate_zserio_read(
         scope,
         type_generator,
         zserio_read_fn,
-        &format!(
-            "let v: {}",
-            zserio_to_rust_type(&zenum.enum_type.name).unwrap()
-        ),
+        &format!("let v: {}", rust_type),
         &String::from(""),
         fundamental_type,
         0,
@@ -157,10 +155,7 @@ fn generate_zserio_read(
     zserio_read_packed_fn.arg("context_node", "&mut PackingContextNode");
     zserio_read_packed_fn.arg("reader", "&mut BitReader");
     zserio_read_packed_fn.ret("Result<()>");
-    zserio_read_packed_fn.line(format!(
-        "let mut v: {} = 0;",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
-    ));
+    zserio_read_packed_fn.line(format!("let mut v: {} = 0;", rust_type));
     decode_type(
         scope,
         type_generator,
@@ -179,13 +174,10 @@ fn generate_zserio_write(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
-    let rust_type_name = format!(
-        "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
-    );
+    let rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let rust_type_name = format!("(*self as {})", rust_type);
 
     let zserio_write_fn = impl_codegen.new_fn("zserio_write");
     zserio_write_fn.arg_ref_self();
@@ -223,13 +215,10 @@ fn generate_zserio_bitsize(
     scope: &ModelScope,
     type_generator: &mut TypeGenerator,
     impl_codegen: &mut codegen::Impl,
-    zenum: &ZEnum,
     fundamental_type: &FundamentalZserioTypeReference,
 ) {
-    let rust_type_name = format!(
-        "(*self as {})",
-        zserio_to_rust_type(zenum.enum_type.name.as_str()).unwrap()
-    );
+    let rust_type = type_generator.ztype_to_rust_type(&fundamental_type.fundamental_type);
+    let rust_type_name = format!("(*self as {})", rust_type);
 
     let bitsize_fn = impl_codegen.new_fn("zserio_bitsize");
     bitsize_fn.ret("Result<u64>");
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 6a074c4..5cf45b0 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -1,7 +1,7 @@
 use crate::internal::ast::package::ZPackage;
 use crate::internal::compiler::resolve_types::{
     resolve_choice_types, resolve_constant, resolve_struct_types, resolve_subtype,
-    resolve_union_types,
+    resolve_type_reference, resolve_union_types,
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
@@ -118,6 +118,26 @@ impl Model {
                 scope.scope_stack.pop();
             }
 
+            for z_enum in &pkg.enums {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(z_enum.borrow().name.clone()),
+                });
+                resolve_type_reference(&mut z_enum.borrow_mut().enum_type, scope);
+                scope.scope_stack.pop();
+            }
+
+            for bitmask in &pkg.bitmask_types {
+                scope.scope_stack.push(ScopeLocation {
+                    package: pkg.name.clone(),
+                    import_symbol: None,
+                    symbol_name: Option::from(bitmask.borrow().name.clone()),
+                });
+                resolve_type_reference(&mut bitmask.borrow_mut().zserio_type, scope);
+                scope.scope_stack.pop();
+            }
+
             for zconstant in &pkg.consts {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
-- 
2.43.0


From bcde6a57b445b8d7f196544de33925c68543b4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 62/76] fix: evaluate constants in the values of enums,
 bitmasks and choice cases

---
 .../src/internal/ast/expression.rs            | 56 +++++++++++++++++++
 .../src/internal/ast/zbitmask.rs              |  8 ++-
 .../src/internal/ast/zchoice.rs               |  3 +
 .../zserio-rs-build/src/internal/ast/zenum.rs |  7 +++
 4 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 23ce7cf..6ece380 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -124,6 +124,62 @@ impl Expression {
         self.evaluation_state = EvaluationState::Completed;
     }
 
+    /// Replaces constants by their values, and evaluates the expression again. This is needed
+    /// where the value has to be known when generating the code, for example for enum values.
+    pub fn fold_constants(&self, scope: &mut ModelScope) -> Expression {
+        let mut folded = self.clone();
+        if folded.fully_resolved {
+            return folded;
+        }
+        folded.fully_resolved = true;
+        for operand in [
+            &mut folded.operand1,
+            &mut folded.operand2,
+            &mut folded.operand3,
+        ]
+        .into_iter()
+        .flatten()
+        {
+            **operand = operand.fold_constants(scope);
+            folded.fully_resolved &= operand.fully_resolved;
+        }
+        match folded.expression_type {
+            ID => {
+                folded.fully_resolved = false;
+                if let Some(SymbolReference {
+                    symbol: Symbol::Const(z_const),
+                    package,
+                    ..
+                }) = &self.symbol
+                {
+                    // The constant may not be evaluated yet.
+                    scope.scope_stack.push(ScopeLocation {
+                        package: package.clone(),
+                        import_symbol: None,
+                        symbol_name: None,
+                    });
+                    let value_expression = z_const.borrow().value_expression.clone();
+                    value_expression.borrow_mut().evaluate(scope);
+                    let value = value_expression.borrow().fold_constants(scope);
+                    scope.scope_stack.pop();
+                    folded.result_type = value.result_type;
+                    folded.fully_resolved = value.fully_resolved;
+                }
+            }
+            LPAREN => folded.evaluate_paranthesized_expression(),
+            NUMBITS => folded.evaluate_numbits_operator(),
+            EQ | GE | GT | LE | LT | NE => folded.evaluate_comparison_expression(),
+            PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => folded.evaluate_arithmetic_expression(),
+            BANG => folded.evaluate_logical_negation(),
+            TILDE => folded.evaluate_bitwise_negation(),
+            AND | OR | XOR | LSHIFT | RSHIFT => folded.evaluate_bitwise_expression(),
+            LOGICAL_OR | LOGICAL_AND => folded.evaluate_logical_expression(),
+            QUESTIONMARK => folded.evaluate_ternary_expression(),
+            _ => folded.fully_resolved = false,
+        }
+        folded
+    }
+
     fn evaluate_paranthesized_expression(&mut self) {
         match &self.operand1 {
             Some(op1) => {
diff --git a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
index eda9a0b..069be58 100644
--- a/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zbitmask.rs
@@ -45,7 +45,13 @@ impl ZBitmaskType {
                 let mut value_expression = value_expression_rc.as_ref().borrow_mut();
 
                 value_expression.evaluate(scope);
-                let expr_bitmask_value = match value_expression.result_type {
+                let folded_expression = value_expression.fold_constants(scope);
+                assert!(
+                    folded_expression.fully_resolved,
+                    "the value of the bitmask item {} is not constant",
+                    &value.name
+                );
+                let expr_bitmask_value = match folded_expression.result_type {
                     ExpressionType::Integer(v) => v as u64,
                     _ => panic!("only integer bitmask values are supported"),
                 };
diff --git a/crates/zserio-rs-build/src/internal/ast/zchoice.rs b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
index cc20c96..5e9b226 100644
--- a/crates/zserio-rs-build/src/internal/ast/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zchoice.rs
@@ -60,6 +60,9 @@ impl ZChoice {
             }
             for case_condition in &case.conditions {
                 case_condition.as_ref().borrow_mut().evaluate(scope);
+                // The patterns of the match statement must not contain expressions.
+                let folded_condition = case_condition.borrow().fold_constants(scope);
+                *case_condition.borrow_mut() = folded_condition;
             }
         }
         if let Some(default_field) = &self.default_case {
diff --git a/crates/zserio-rs-build/src/internal/ast/zenum.rs b/crates/zserio-rs-build/src/internal/ast/zenum.rs
index 872e849..882b512 100644
--- a/crates/zserio-rs-build/src/internal/ast/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zenum.rs
@@ -25,6 +25,13 @@ impl ZEnum {
         for item in &mut self.items {
             if let Some(item_expression) = &mut item.value {
                 item_expression.as_ref().borrow_mut().evaluate(scope);
+                let folded_expression = item_expression.borrow().fold_constants(scope);
+                assert!(
+                    folded_expression.fully_resolved,
+                    "the value of the enum item {} is not constant",
+                    &item.name
+                );
+                *item_expression.borrow_mut() = folded_expression;
             }
         }
         self.enum_type.evaluate(scope);
-- 
2.43.0


From a67be735da42aad1237293580a9cd1bd27a18384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 63/76] fix: support expressions as the selector of a choice

---
 crates/zserio-rs-build/src/internal/generator/zchoice.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zchoice.rs b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
index c5ef990..0e148c3 100644
--- a/crates/zserio-rs-build/src/internal/generator/zchoice.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zchoice.rs
@@ -146,11 +146,14 @@ pub fn generate_choice_match_construct(
     packed: bool,
     f: &dyn Fn(&ModelScope, &mut TypeGenerator, &mut Function, &FieldDetails, bool),
 ) {
-    let selector_name =
-        TypeGenerator::convert_field_name(&zchoice.selector_expression.as_ref().borrow().text);
+    let selector = generate_expression(
+        &zchoice.selector_expression.as_ref().borrow(),
+        type_generator,
+        symbol_scope,
+    );
     let mut context_node_index = 0;
 
-    code_gen_fn.line(format!("match self.{} {{", selector_name));
+    code_gen_fn.line(format!("match {} {{", selector));
 
     for case in &zchoice.cases {
         let mut case_expressions = vec![];
-- 
2.43.0


From 0bcff44ff213d8f14e571c673605edd7afde7260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 64/76] fix: evaluate the valueof operator in the values of
 enums, bitmasks and choice cases

Also calculates constants when generating the code where possible, as numbits is not available in Rust constants.
---
 .../src/internal/ast/expression.rs            | 78 +++++++++++++++++++
 .../src/internal/ast/zconst.rs                |  5 ++
 2 files changed, 83 insertions(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index 6ece380..eee5e4e 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -168,6 +168,13 @@ impl Expression {
             }
             LPAREN => folded.evaluate_paranthesized_expression(),
             NUMBITS => folded.evaluate_numbits_operator(),
+            VALUEOF => {
+                let value = self.fold_valueof_operator(scope);
+                folded.fully_resolved = value.is_some();
+                if let Some(value) = value {
+                    folded.result_type = ExpressionType::Integer(value);
+                }
+            }
             EQ | GE | GT | LE | LT | NE => folded.evaluate_comparison_expression(),
             PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => folded.evaluate_arithmetic_expression(),
             BANG => folded.evaluate_logical_negation(),
@@ -180,6 +187,77 @@ impl Expression {
         folded
     }
 
+    /// Returns the value of the enum or bitmask item to which the valueof operator is applied,
+    /// or None if it is not applied to a single item.
+    fn fold_valueof_operator(&self, scope: &mut ModelScope) -> Option<i128> {
+        let mut operand = self.operand1.as_ref()?;
+        while operand.expression_type == LPAREN {
+            operand = operand.operand1.as_ref()?;
+        }
+        if operand.expression_type != DOT {
+            return None;
+        }
+        let item_type = operand.operand1.as_ref()?;
+        let item_name = &operand.operand2.as_ref()?.text;
+        // The symbol may be a subtype of the enum or bitmask, possibly from another package.
+        let package = match &item_type.symbol {
+            Some(SymbolReference {
+                symbol: Symbol::Subtype(subtype),
+                ..
+            }) => {
+                get_fundamental_type(&subtype.borrow().zserio_type, scope)
+                    .fundamental_type
+                    .package
+            }
+            Some(symbol) => symbol.package.clone(),
+            None => return None,
+        };
+        let items: Vec<(String, Option<Rc<RefCell<Expression>>>)> = match &item_type.result_type {
+            ExpressionType::Enum(z_enum) => z_enum
+                .borrow()
+                .items
+                .iter()
+                .map(|item| (item.name.clone(), item.value.clone()))
+                .collect(),
+            ExpressionType::BitMask(z_bitmask) => z_bitmask
+                .borrow()
+                .values
+                .iter()
+                .map(|item| (item.name.clone(), item.value_expression.clone()))
+                .collect(),
+            _ => return None,
+        };
+        let is_enum = matches!(item_type.result_type, ExpressionType::Enum(_));
+
+        scope.scope_stack.push(ScopeLocation {
+            package,
+            import_symbol: None,
+            symbol_name: None,
+        });
+        let mut result = None;
+        let mut value: i128 = if is_enum { 0 } else { 1 };
+        for (name, value_expression) in items {
+            if let Some(value_expression) = value_expression {
+                value_expression.borrow_mut().evaluate(scope);
+                match value_expression.borrow().fold_constants(scope).result_type {
+                    ExpressionType::Integer(v) => value = v,
+                    _ => break,
+                }
+            }
+            if name == *item_name {
+                result = Some(value);
+                break;
+            }
+            value = if is_enum {
+                value + 1
+            } else {
+                1 << (i128::BITS - value.leading_zeros())
+            };
+        }
+        scope.scope_stack.pop();
+        result
+    }
+
     fn evaluate_paranthesized_expression(&mut self) {
         match &self.operand1 {
             Some(op1) => {
diff --git a/crates/zserio-rs-build/src/internal/ast/zconst.rs b/crates/zserio-rs-build/src/internal/ast/zconst.rs
index dc5496d..40c6921 100644
--- a/crates/zserio-rs-build/src/internal/ast/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/ast/zconst.rs
@@ -16,6 +16,11 @@ pub struct ZConst {
 impl ZConst {
     pub fn evaluate(&mut self, scope: &mut ModelScope) {
         self.value_expression.as_ref().borrow_mut().evaluate(scope);
+        // Not everything which is allowed in an expression can be calculated in a Rust constant.
+        let folded_expression = self.value_expression.borrow().fold_constants(scope);
+        if folded_expression.fully_resolved {
+            *self.value_expression.borrow_mut() = folded_expression;
+        }
     }
 }
 
-- 
2.43.0


From 5d8a50920ce1aac90001f3fbf15afab300e3f091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:31 +0000
Subject: [PATCH 65/76] fix: support string constants as arguments and in
 concatenations

---
 .../src/internal/generator/decode.rs          | 31 ++++++++++++-------
 .../src/internal/generator/zconst.rs          |  6 +++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/decode.rs b/crates/zserio-rs-build/src/internal/generator/decode.rs
index e67c9e3..d77ddaf 100644
--- a/crates/zserio-rs-build/src/internal/generator/decode.rs
+++ b/crates/zserio-rs-build/src/internal/generator/decode.rs
@@ -1,3 +1,4 @@
+use crate::internal::ast::expression::{Expression, ExpressionType};
 use crate::internal::compiler::fundamental_type::FundamentalZserioTypeReference;
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::generator::casts::expression_requires_cast;
@@ -16,6 +17,21 @@ use crate::internal::generator::array::{
 
 use super::pass_parameters::{number_of_data_fields, number_of_fields};
 
+/// Generates the value of a type argument.
+fn generate_type_argument(
+    type_argument: &Expression,
+    type_generator: &mut TypeGenerator,
+    scope: &ModelScope,
+) -> String {
+    let value = generate_expression(type_argument, type_generator, scope);
+    match &type_argument.result_type {
+        // The argument can be a literal or a constant, which are string slices.
+        ExpressionType::String(_) => format!("({value}).to_string()"),
+        _ if type_argument.fully_resolved => value,
+        _ => format!("({value}).clone()"),
+    }
+}
+
 #[allow(clippy::too_many_arguments)]
 pub fn decode_type(
     scope: &ModelScope,
@@ -248,10 +264,7 @@ pub fn decode_field(
                 let type_argument = type_argument_rc.borrow();
 
                 let type_parameter = &type_parameters[param_index];
-                let mut rvalue = generate_expression(&type_argument, type_generator, scope);
-                if !type_argument.fully_resolved {
-                    rvalue = format!("({}).clone()", rvalue);
-                }
+                let mut rvalue = generate_type_argument(&type_argument, type_generator, scope);
 
                 if expression_requires_cast(
                     &type_parameter.borrow().zserio_type,
@@ -346,10 +359,7 @@ pub fn decode_field(
                     continue;
                 }
                 let type_parameter = &type_parameters[param_index];
-                let mut rvalue = generate_expression(&type_argument, type_generator, scope);
-                if !type_argument.fully_resolved {
-                    rvalue = format!("({}).clone()", rvalue);
-                }
+                let mut rvalue = generate_type_argument(&type_argument, type_generator, scope);
                 if expression_requires_cast(
                     &type_parameter.borrow().zserio_type,
                     type_generator,
@@ -386,10 +396,7 @@ pub fn decode_field(
                         continue;
                     }
                     let type_parameter = &type_parameters[param_index];
-                    let mut rvalue = generate_expression(&type_argument, type_generator, scope);
-                    if !type_argument.fully_resolved {
-                        rvalue = format!("({}).clone()", rvalue);
-                    }
+                    let mut rvalue = generate_type_argument(&type_argument, type_generator, scope);
                     if expression_requires_cast(
                         &type_parameter.borrow().zserio_type,
                         type_generator,
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index aeadcf3..5e7023b 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -43,7 +43,11 @@ pub fn generate_constant(
     }
 
     let value_expression = zconst.value_expression.borrow();
-    let mut value = generate_expression(&value_expression, type_generator, symbol_scope);
+    let mut value = match &value_expression.result_type {
+        // The value may be a concatenation, which can't be calculated in a Rust constant.
+        ExpressionType::String(value) if value_expression.fully_resolved => format!("\"{value}\""),
+        _ => generate_expression(&value_expression, type_generator, symbol_scope),
+    };
     let is_integer = matches!(value_expression.result_type, ExpressionType::Integer(_));
     if expression_requires_cast(
         &fundamental_type.fundamental_type,
-- 
2.43.0


From ee1f28d1a1c68379d97646ce03240c3310694e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 66/76] fix: evaluate comparisons of booleans, enum and bitmask
 items in constants

---
 .../src/internal/ast/expression.rs            | 174 +++++++++++-------
 1 file changed, 104 insertions(+), 70 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index eee5e4e..d1012d6 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -169,12 +169,26 @@ impl Expression {
             LPAREN => folded.evaluate_paranthesized_expression(),
             NUMBITS => folded.evaluate_numbits_operator(),
             VALUEOF => {
-                let value = self.fold_valueof_operator(scope);
+                let value = fold_item_value(&self.operand1, scope);
                 folded.fully_resolved = value.is_some();
                 if let Some(value) = value {
                     folded.result_type = ExpressionType::Integer(value);
                 }
             }
+            EQ | NE
+                if self
+                    .operand1
+                    .as_ref()
+                    .is_some_and(|operand| operand.is_enum_or_bitmask()) =>
+            {
+                let value1 = fold_item_value(&self.operand1, scope);
+                let value2 = fold_item_value(&self.operand2, scope);
+                folded.fully_resolved = value1.is_some() && value2.is_some();
+                if folded.fully_resolved {
+                    folded.result_type =
+                        ExpressionType::Bool((value1 == value2) == (self.expression_type == EQ));
+                }
+            }
             EQ | GE | GT | LE | LT | NE => folded.evaluate_comparison_expression(),
             PLUS | MINUS | MULTIPLY | DIVIDE | MODULO => folded.evaluate_arithmetic_expression(),
             BANG => folded.evaluate_logical_negation(),
@@ -187,75 +201,11 @@ impl Expression {
         folded
     }
 
-    /// Returns the value of the enum or bitmask item to which the valueof operator is applied,
-    /// or None if it is not applied to a single item.
-    fn fold_valueof_operator(&self, scope: &mut ModelScope) -> Option<i128> {
-        let mut operand = self.operand1.as_ref()?;
-        while operand.expression_type == LPAREN {
-            operand = operand.operand1.as_ref()?;
-        }
-        if operand.expression_type != DOT {
-            return None;
-        }
-        let item_type = operand.operand1.as_ref()?;
-        let item_name = &operand.operand2.as_ref()?.text;
-        // The symbol may be a subtype of the enum or bitmask, possibly from another package.
-        let package = match &item_type.symbol {
-            Some(SymbolReference {
-                symbol: Symbol::Subtype(subtype),
-                ..
-            }) => {
-                get_fundamental_type(&subtype.borrow().zserio_type, scope)
-                    .fundamental_type
-                    .package
-            }
-            Some(symbol) => symbol.package.clone(),
-            None => return None,
-        };
-        let items: Vec<(String, Option<Rc<RefCell<Expression>>>)> = match &item_type.result_type {
-            ExpressionType::Enum(z_enum) => z_enum
-                .borrow()
-                .items
-                .iter()
-                .map(|item| (item.name.clone(), item.value.clone()))
-                .collect(),
-            ExpressionType::BitMask(z_bitmask) => z_bitmask
-                .borrow()
-                .values
-                .iter()
-                .map(|item| (item.name.clone(), item.value_expression.clone()))
-                .collect(),
-            _ => return None,
-        };
-        let is_enum = matches!(item_type.result_type, ExpressionType::Enum(_));
-
-        scope.scope_stack.push(ScopeLocation {
-            package,
-            import_symbol: None,
-            symbol_name: None,
-        });
-        let mut result = None;
-        let mut value: i128 = if is_enum { 0 } else { 1 };
-        for (name, value_expression) in items {
-            if let Some(value_expression) = value_expression {
-                value_expression.borrow_mut().evaluate(scope);
-                match value_expression.borrow().fold_constants(scope).result_type {
-                    ExpressionType::Integer(v) => value = v,
-                    _ => break,
-                }
-            }
-            if name == *item_name {
-                result = Some(value);
-                break;
-            }
-            value = if is_enum {
-                value + 1
-            } else {
-                1 << (i128::BITS - value.leading_zeros())
-            };
-        }
-        scope.scope_stack.pop();
-        result
+    fn is_enum_or_bitmask(&self) -> bool {
+        matches!(
+            self.result_type,
+            ExpressionType::Enum(_) | ExpressionType::BitMask(_)
+        )
     }
 
     fn evaluate_paranthesized_expression(&mut self) {
@@ -551,6 +501,12 @@ impl Expression {
                             _ => panic!("unexpected float comparison"),
                         })
                     }
+                    (ExpressionType::Bool(value1), ExpressionType::Bool(value2))
+                        if matches!(self.expression_type, EQ | NE) =>
+                    {
+                        self.result_type =
+                            ExpressionType::Bool((value1 == value2) == (self.expression_type == EQ))
+                    }
                     (ExpressionType::String(value1), ExpressionType::String(value2)) => {
                         self.result_type = ExpressionType::Bool(match self.expression_type {
                             EQ => value1 == value2,
@@ -812,6 +768,84 @@ impl Expression {
     }
 }
 
+/// Returns the value of an expression made of enum or bitmask items, or None if it isn't constant.
+fn fold_item_value(operand: &Option<Box<Expression>>, scope: &mut ModelScope) -> Option<i128> {
+    let operand = operand.as_ref()?;
+    match operand.expression_type {
+        LPAREN => return fold_item_value(&operand.operand1, scope),
+        AND | OR | XOR => {
+            let value1 = fold_item_value(&operand.operand1, scope)?;
+            let value2 = fold_item_value(&operand.operand2, scope)?;
+            return Some(match operand.expression_type {
+                AND => value1 & value2,
+                OR => value1 | value2,
+                _ => value1 ^ value2,
+            });
+        }
+        DOT => (),
+        _ => return None,
+    }
+    let item_type = operand.operand1.as_ref()?;
+    let item_name = &operand.operand2.as_ref()?.text;
+    // The symbol may be a subtype of the enum or bitmask, possibly from another package.
+    let package = match &item_type.symbol {
+        Some(SymbolReference {
+            symbol: Symbol::Subtype(subtype),
+            ..
+        }) => {
+            get_fundamental_type(&subtype.borrow().zserio_type, scope)
+                .fundamental_type
+                .package
+        }
+        Some(symbol) => symbol.package.clone(),
+        None => return None,
+    };
+    let items: Vec<(String, Option<Rc<RefCell<Expression>>>)> = match &item_type.result_type {
+        ExpressionType::Enum(z_enum) => z_enum
+            .borrow()
+            .items
+            .iter()
+            .map(|item| (item.name.clone(), item.value.clone()))
+            .collect(),
+        ExpressionType::BitMask(z_bitmask) => z_bitmask
+            .borrow()
+            .values
+            .iter()
+            .map(|item| (item.name.clone(), item.value_expression.clone()))
+            .collect(),
+        _ => return None,
+    };
+    let is_enum = matches!(item_type.result_type, ExpressionType::Enum(_));
+
+    scope.scope_stack.push(ScopeLocation {
+        package,
+        import_symbol: None,
+        symbol_name: None,
+    });
+    let mut result = None;
+    let mut value: i128 = if is_enum { 0 } else { 1 };
+    for (name, value_expression) in items {
+        if let Some(value_expression) = value_expression {
+            value_expression.borrow_mut().evaluate(scope);
+            match value_expression.borrow().fold_constants(scope).result_type {
+                ExpressionType::Integer(v) => value = v,
+                _ => break,
+            }
+        }
+        if name == *item_name {
+            result = Some(value);
+            break;
+        }
+        value = if is_enum {
+            value + 1
+        } else {
+            1 << (i128::BITS - value.leading_zeros())
+        };
+    }
+    scope.scope_stack.pop();
+    result
+}
+
 fn symbol_to_expression_type(
     symbol_reference: &SymbolReference,
     scope: &mut ModelScope,
-- 
2.43.0


From aa93674a47556953b1319f78467aaa2f07db2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 67/76] fix: rename fields, modules and functions which are
 Rust keywords

---
 .../src/internal/generator/types.rs           | 24 ++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index a1fca93..7695a9f 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -1,6 +1,15 @@
 use crate::internal::ast::type_reference::TypeReference;
 use stringcase::Caser;
 
+/// The keywords of Rust, including the reserved ones, which can be names in zserio.
+const RUST_KEYWORDS: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "type", "typeof",
+    "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
+];
+
 pub struct TypeGenerator {
     pub root_package_name: String,
 }
@@ -24,7 +33,7 @@ impl TypeGenerator {
     }
 
     pub fn convert_field_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_snake_case_name(name)
     }
 
     pub fn ztype_to_rust_type(&mut self, ztype: &TypeReference) -> String {
@@ -51,7 +60,7 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_module_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+        to_rust_snake_case_name(name)
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
@@ -85,6 +94,15 @@ fn remove_reserved_identifier(name: &str) -> &str {
     }
 }
 
+/// Converts a zserio name to snake case, avoiding the Rust keywords.
+fn to_rust_snake_case_name(name: &str) -> String {
+    let rust_name = remove_reserved_identifier(name).to_snake_case_with_nums_as_word();
+    if RUST_KEYWORDS.contains(&rust_name.as_str()) {
+        return format!("z_{rust_name}");
+    }
+    rust_name
+}
+
 /// Translates a zserio name to a rust constant name.
 pub fn to_rust_constant_name(name: &str) -> String {
     remove_reserved_identifier(name).to_ascii_uppercase()
@@ -100,7 +118,7 @@ pub fn convert_to_union_selector_name(field_name: &str) -> String {
 
 pub fn convert_to_function_name(name: &str) -> String {
     // Converts a function name from zserio style to rust style (snake case).
-    remove_reserved_identifier(name).to_snake_case_with_nums_as_word()
+    to_rust_snake_case_name(name)
 }
 
 pub fn zserio_to_rust_type(name: &str) -> Result<String, &'static str> {
-- 
2.43.0


From cf382c6508a109fc8baec365566126790c6cebab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 68/76] fix: allow enum items called Error

---
 crates/zserio-rs-build/src/internal/generator/zenum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index 1e21993..e62c351 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -65,7 +65,7 @@ pub fn generate_enum(
     tryfrom_impl.associate_type("Error", "zserio::ZserioError");
     let from_int_fn = tryfrom_impl.new_fn("try_from");
     from_int_fn.arg("v", "i64");
-    from_int_fn.ret("Result<Self, Self::Error>");
+    from_int_fn.ret("std::result::Result<Self, zserio::ZserioError>");
     from_int_fn.line("match v {");
 
     let mut enum_value = 0;
-- 
2.43.0


From 6e4515ff67e87a50430ad10585ee2393bd9a1758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:26 +0000
Subject: [PATCH 69/76] fix: rename types whose names are used by the generated
 code

---
 .../src/internal/generator/types.rs           | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/types.rs b/crates/zserio-rs-build/src/internal/generator/types.rs
index 7695a9f..64ce822 100644
--- a/crates/zserio-rs-build/src/internal/generator/types.rs
+++ b/crates/zserio-rs-build/src/internal/generator/types.rs
@@ -10,6 +10,24 @@ const RUST_KEYWORDS: &[&str] = &[
     "unsafe", "unsized", "use", "virtual", "where", "while", "yield",
 ];
 
+/// The names of types and traits which the generated code uses without their path.
+const USED_TYPE_NAMES: &[&str] = &[
+    "BitReader",
+    "BitWriter",
+    "Box",
+    "Default",
+    "DeltaContext",
+    "From",
+    "Option",
+    "PackingContextNode",
+    "PartialEq",
+    "Result",
+    "String",
+    "TryFrom",
+    "Vec",
+    "ZserioPackableObject",
+];
+
 pub struct TypeGenerator {
     pub root_package_name: String,
 }
@@ -64,7 +82,11 @@ impl TypeGenerator {
     }
 
     pub fn to_rust_type_name(name: &str) -> String {
-        remove_reserved_identifier(name).to_pascal_case()
+        let rust_name = remove_reserved_identifier(name).to_pascal_case();
+        if USED_TYPE_NAMES.contains(&rust_name.as_str()) {
+            return format!("Z{rust_name}");
+        }
+        rust_name
     }
 
     pub fn custom_type_to_rust_type(name: &str) -> String {
-- 
2.43.0


From 935b24218ababc4551b12629d506434aa4d38523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:59 +0000
Subject: [PATCH 70/76] fix: distinguish the template instances whose names are
 equal

---
 .../src/internal/ast/package.rs               |   4 +
 .../compiler/template_instantiation.rs        | 169 ++++++++++--------
 crates/zserio-rs-build/src/internal/model.rs  |   7 +-
 .../zserio-rs-build/src/internal/visitor.rs   |   1 +
 4 files changed, 107 insertions(+), 74 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/package.rs b/crates/zserio-rs-build/src/internal/ast/package.rs
index 048451f..25acc1a 100644
--- a/crates/zserio-rs-build/src/internal/ast/package.rs
+++ b/crates/zserio-rs-build/src/internal/ast/package.rs
@@ -29,4 +29,8 @@ pub struct ZPackage {
     pub subtypes: Vec<Rc<RefCell<Subtype>>>,
     pub instantiated_types: Vec<Rc<RefCell<InstantiateType>>>,
     pub bitmask_types: Vec<Rc<RefCell<ZBitmaskType>>>,
+
+    /// The names of the types created by template instantiations, by the template and the
+    /// template arguments they belong to.
+    pub template_instances: HashMap<String, String>,
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 133b5b6..b7d88f3 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -8,7 +8,7 @@ use crate::internal::ast::zfunction::ZFunction;
 use crate::internal::ast::zstruct::{add_struct_to_scope, ZStruct};
 use crate::internal::ast::zunion::{add_zunion_to_scope, ZUnion};
 
-use crate::internal::compiler::symbol_scope::{ModelScope, Symbol};
+use crate::internal::compiler::symbol_scope::{ModelScope, Symbol, SymbolReference};
 use crate::internal::parser::gen::zserioparser::ID;
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
@@ -31,24 +31,48 @@ pub fn instantiate_type(
         return zserio_type.clone();
     }
 
-    let mut new_type_name = String::from(name);
-    if new_type_name.is_empty() {
-        // in case no name is provided, a new name needs to be generated.
-        new_type_name = generate_instantiated_name(zserio_type);
-    }
-
     let symbol = if zserio_type.package.is_empty() {
         scope.resolve_symbol(&zserio_type.name, true)
     } else {
         scope.get_symbol(zserio_type)
     };
+    // If a template argument is a template by itself, it must be instantiated first. In case it
+    // is not a template, instantiate_type() will just pass the type through.
+    let template_arguments: Vec<TypeReference> = zserio_type
+        .template_arguments
+        .iter()
+        .map(|argument| instantiate_type(pkg, scope, argument, ""))
+        .collect();
+
+    let signature = instance_signature(scope, &symbol, &template_arguments);
+    if name.is_empty() {
+        if let Some(instance_name) = pkg.template_instances.get(&signature) {
+            // The template was already instantiated, there is no need to instantiate it again.
+            // Return a new reference to the already existing type.
+            return TypeReference {
+                package: pkg.name.clone(),
+                name: instance_name.clone(),
+                template_arguments: vec![],
+                ..zserio_type.clone()
+            };
+        }
+    }
+    let mut new_type_name = String::from(name);
+    if new_type_name.is_empty() {
+        // in case no name is provided, a new name needs to be generated.
+        new_type_name = generate_instantiated_name(pkg, scope, &symbol.name, &template_arguments);
+    }
+    pkg.template_instances
+        .entry(signature)
+        .or_insert_with(|| new_type_name.clone());
+
     match symbol.symbol {
         Symbol::Struct(s) => {
             return instantiate_struct(
                 pkg,
                 scope,
                 &s.as_ref().borrow(),
-                &zserio_type.template_arguments,
+                &template_arguments,
                 &zserio_type.type_arguments,
                 &new_type_name,
             );
@@ -58,7 +82,7 @@ pub fn instantiate_type(
                 pkg,
                 scope,
                 &c.as_ref().borrow(),
-                &zserio_type.template_arguments,
+                &template_arguments,
                 &zserio_type.type_arguments,
                 &new_type_name,
             );
@@ -68,7 +92,7 @@ pub fn instantiate_type(
                 pkg,
                 scope,
                 &u.as_ref().borrow(),
-                &zserio_type.template_arguments,
+                &template_arguments,
                 &zserio_type.type_arguments,
                 &new_type_name,
             );
@@ -269,12 +293,54 @@ fn clone_field(field: &Field) -> Field {
     }
 }
 
-fn generate_instantiated_name(type_reference: &TypeReference) -> String {
-    let mut new_name = type_reference.name.clone();
-    for template_arg in &type_reference.template_arguments {
+/// Returns a text which identifies the instance of a template. The names of the template and its
+/// arguments are not sufficient, as packages may contain different types of the same name.
+fn instance_signature(
+    scope: &ModelScope,
+    template: &SymbolReference,
+    template_arguments: &[TypeReference],
+) -> String {
+    let mut signature = format!("{}.{}", template.package, template.name);
+    for argument in template_arguments {
+        let mut package = argument.package.clone();
+        if !argument.is_builtin && package.is_empty() {
+            package = scope.resolve_symbol(&argument.name, true).package;
+        }
+        signature += &format!(" {}.{}:{}", package, argument.name, argument.bits);
+        if let Some(length_expression) = &argument.length_expression {
+            signature += &length_expression.borrow().text;
+        }
+    }
+    signature
+}
+
+/// Generates the name of a template instance.
+fn generate_instantiated_name(
+    pkg: &ZPackage,
+    scope: &mut ModelScope,
+    template_name: &str,
+    template_arguments: &[TypeReference],
+) -> String {
+    let mut new_name = String::from(template_name);
+    for template_arg in template_arguments {
         new_name += template_arg.name.as_str();
+        if template_arg.bits != 0 {
+            new_name += &template_arg.bits.to_string();
+        }
+    }
+
+    // The name may be in use already, for example by an instance which uses types with the same
+    // names from other packages.
+    let file_symbols = &scope.get_package_scope().file_symbols;
+    let mut unique_name = new_name.clone();
+    let mut suffix = 1;
+    while file_symbols.contains_key(&unique_name)
+        || pkg.template_instances.values().any(|x| *x == unique_name)
+    {
+        suffix += 1;
+        unique_name = format!("{new_name}_{suffix}");
     }
-    new_name
+    unique_name
 }
 
 fn instantiate_struct(
@@ -298,25 +364,12 @@ fn instantiate_struct(
         length_expression: None,
     };
 
-    if pkg.structs.contains_key(instantiated_name) {
-        // The structure was already instantiated, there is no need to instantiate it again.
-        // Return a new reference to the already existing type.
-        return new_type_ref;
-    }
-
-    // The instantiated struct doesn't exist yet. Start by instantiating the
-    // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
-    for (index, template_arg) in template_arguments.iter().enumerate() {
-        // In case the type instantiation is a template itself, it must be instantiated
-        // before mapping it. In case the template argument itself is not a template,
-        // instantiate_type() will just pass the type through.
-        let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
-            z_struct.template_parameters[index].clone(),
-            instantiated_type,
-        );
-    }
+    let instantiated_types: HashMap<String, TypeReference> = z_struct
+        .template_parameters
+        .iter()
+        .cloned()
+        .zip(template_arguments.iter().cloned())
+        .collect();
 
     let mut instantiated_struct = ZStruct {
         name: instantiated_name.clone(),
@@ -402,25 +455,12 @@ fn instantiate_choice(
         length_expression: None,
     };
 
-    if pkg.zchoices.contains_key(instantiated_name) {
-        // The structure was already instantiated, there is no need to instantiate it again.
-        // Return a new reference to the already existing type.
-        return new_type_ref;
-    }
-
-    // The instantiated struct doesn't exist yet. Start by instantiating the
-    // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
-    for (index, template_arg) in template_arguments.iter().enumerate() {
-        // In case the type instantiation is a template itself, it must be instantiated
-        // before mapping it. In case the template argument itself is not a template,
-        // instantiate_type() will just pass the type through.
-        let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
-            z_choice.template_parameters[index].clone(),
-            instantiated_type,
-        );
-    }
+    let instantiated_types: HashMap<String, TypeReference> = z_choice
+        .template_parameters
+        .iter()
+        .cloned()
+        .zip(template_arguments.iter().cloned())
+        .collect();
 
     let mut instantiated_choice = ZChoice {
         name: instantiated_name.clone(),
@@ -532,25 +572,12 @@ fn instantiate_union(
         length_expression: None,
     };
 
-    if pkg.zunions.contains_key(instantiated_name) {
-        // The union was already instantiated, there is no need to instantiate it again.
-        // Return a new reference to the already existing type.
-        return new_type_ref;
-    }
-
-    // The instantiated struct doesn't exist yet. Start by instantiating the
-    // template parameter itself.
-    let mut instantiated_types: HashMap<String, TypeReference> = HashMap::new();
-    for (index, template_arg) in template_arguments.iter().enumerate() {
-        // In case the type instantiation is a template itself, it must be instantiated
-        // before mapping it. In case the template argument itself is not a template,
-        // instantiate_type() will just pass the type through.
-        let instantiated_type = instantiate_type(pkg, scope, template_arg, "");
-        instantiated_types.insert(
-            z_union.template_parameters[index].clone(),
-            instantiated_type,
-        );
-    }
+    let instantiated_types: HashMap<String, TypeReference> = z_union
+        .template_parameters
+        .iter()
+        .cloned()
+        .zip(template_arguments.iter().cloned())
+        .collect();
 
     let mut instantiated_union = ZUnion {
         name: instantiated_name.clone(),
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index 5cf45b0..e5532eb 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -5,6 +5,7 @@ use crate::internal::compiler::resolve_types::{
 };
 use crate::internal::compiler::symbol_scope::ModelScope;
 use crate::internal::model::package::package_from_file;
+use itertools::Itertools;
 use std::collections::HashMap;
 use std::path::Path;
 use walkdir::WalkDir;
@@ -204,7 +205,7 @@ impl Model {
             // to not work on a list that is modified on the fly, we take a clone of
             // the current structs/choices/unions.
             let zstructs = pkg.structs.clone();
-            for z_struct in zstructs.values() {
+            for z_struct in zstructs.values().sorted_by_key(|x| x.borrow().name.clone()) {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
@@ -215,7 +216,7 @@ impl Model {
             }
 
             let zchoices = pkg.zchoices.clone();
-            for z_choice in zchoices.values() {
+            for z_choice in zchoices.values().sorted_by_key(|x| x.borrow().name.clone()) {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
@@ -226,7 +227,7 @@ impl Model {
             }
 
             let zunions = pkg.zunions.clone();
-            for z_union in zunions.values() {
+            for z_union in zunions.values().sorted_by_key(|x| x.borrow().name.clone()) {
                 scope.scope_stack.push(ScopeLocation {
                     package: pkg.name.clone(),
                     import_symbol: None,
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 8a6e466..66c0bcf 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -173,6 +173,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             subtypes: vec![],
             instantiated_types: vec![],
             bitmask_types: vec![],
+            template_instances: HashMap::new(),
         });
 
         for directive in ctx.languageDirective_all() {
-- 
2.43.0


From 0df6261107854257477ba3117e2c337e1c79506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:31 +0000
Subject: [PATCH 71/76] fix: allow the names of template instances in template
 arguments and templates

---
 .../src/internal/ast/package.rs               |  19 +-
 .../compiler/template_instantiation.rs        | 205 ++++++++++--------
 crates/zserio-rs-build/src/internal/model.rs  |  75 ++++---
 .../zserio-rs-build/src/internal/visitor.rs   |   1 +
 4 files changed, 185 insertions(+), 115 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/ast/package.rs b/crates/zserio-rs-build/src/internal/ast/package.rs
index 25acc1a..4d4ce1b 100644
--- a/crates/zserio-rs-build/src/internal/ast/package.rs
+++ b/crates/zserio-rs-build/src/internal/ast/package.rs
@@ -1,12 +1,17 @@
 use crate::internal::ast::{zenum::ZEnum, zstruct::ZStruct};
+use crate::internal::compiler::symbol_scope::Symbol;
 use std::cell::RefCell;
 use std::collections::HashMap;
 use std::rc::Rc;
 use std::string::String;
 
 use super::{
-    type_reference::InstantiateType, zbitmask::ZBitmaskType, zchoice::ZChoice, zconst::ZConst,
-    zsubtype::Subtype, zunion::ZUnion,
+    type_reference::{InstantiateType, TypeReference},
+    zbitmask::ZBitmaskType,
+    zchoice::ZChoice,
+    zconst::ZConst,
+    zsubtype::Subtype,
+    zunion::ZUnion,
 };
 #[derive(Clone)]
 pub struct ZImport {
@@ -33,4 +38,14 @@ pub struct ZPackage {
     /// The names of the types created by template instantiations, by the template and the
     /// template arguments they belong to.
     pub template_instances: HashMap<String, String>,
+
+    /// The instances of templates whose content has not been generated yet.
+    pub pending_instances: Vec<PendingInstance>,
+}
+
+/// An instance of a template, of which only the name exists so far.
+pub struct PendingInstance {
+    pub template: Symbol,
+    pub template_arguments: Vec<TypeReference>,
+    pub name: String,
 }
diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index b7d88f3..4aac2d4 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -1,6 +1,6 @@
 use crate::internal::ast::expression::{Expression, ExpressionFlag};
 use crate::internal::ast::field::{Array, Field};
-use crate::internal::ast::package::ZPackage;
+use crate::internal::ast::package::{PendingInstance, ZPackage};
 use crate::internal::ast::parameter::Parameter;
 use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::ast::zchoice::{add_choice_to_scope, ZChoice, ZChoiceCase};
@@ -31,11 +31,8 @@ pub fn instantiate_type(
         return zserio_type.clone();
     }
 
-    let symbol = if zserio_type.package.is_empty() {
-        scope.resolve_symbol(&zserio_type.name, true)
-    } else {
-        scope.get_symbol(zserio_type)
-    };
+    let symbol = template_symbol(scope, zserio_type);
+    let pkg_name = pkg.name.clone();
     // If a template argument is a template by itself, it must be instantiated first. In case it
     // is not a template, instantiate_type() will just pass the type through.
     let template_arguments: Vec<TypeReference> = zserio_type
@@ -44,17 +41,21 @@ pub fn instantiate_type(
         .map(|argument| instantiate_type(pkg, scope, argument, ""))
         .collect();
 
+    let new_type_ref = |name: &str| TypeReference {
+        is_builtin: false,
+        package: pkg_name.clone(),
+        name: name.to_string(),
+        bits: 0,
+        template_arguments: vec![],
+        type_arguments: zserio_type.type_arguments.clone(),
+        length_expression: None,
+    };
     let signature = instance_signature(scope, &symbol, &template_arguments);
     if name.is_empty() {
         if let Some(instance_name) = pkg.template_instances.get(&signature) {
             // The template was already instantiated, there is no need to instantiate it again.
             // Return a new reference to the already existing type.
-            return TypeReference {
-                package: pkg.name.clone(),
-                name: instance_name.clone(),
-                template_arguments: vec![],
-                ..zserio_type.clone()
-            };
+            return new_type_ref(instance_name);
         }
     }
     let mut new_type_name = String::from(name);
@@ -66,38 +67,117 @@ pub fn instantiate_type(
         .entry(signature)
         .or_insert_with(|| new_type_name.clone());
 
-    match symbol.symbol {
-        Symbol::Struct(s) => {
-            return instantiate_struct(
+    declare_instance(pkg, scope, &symbol.symbol, &new_type_name);
+    let type_ref = new_type_ref(&new_type_name);
+    pkg.pending_instances.push(PendingInstance {
+        template: symbol.symbol,
+        template_arguments,
+        name: new_type_name,
+    });
+    type_ref
+}
+
+/// Adds the name of an instance to the package. Its content is added later, by
+/// `complete_instances()`, because it may use the names of other instances.
+pub fn declare_instance(
+    pkg: &mut ZPackage,
+    scope: &mut ModelScope,
+    template: &Symbol,
+    instantiated_name: &str,
+) {
+    let name = String::from(instantiated_name);
+    match template {
+        Symbol::Struct(_) => {
+            let instance = pkg.structs.entry(name.clone()).or_insert_with(|| {
+                Rc::from(RefCell::from(ZStruct {
+                    name,
+                    comment: String::new(),
+                    template_parameters: vec![],
+                    type_parameters: vec![],
+                    fields: vec![],
+                    functions: vec![],
+                }))
+            });
+            add_struct_to_scope(instance, scope.get_package_scope());
+        }
+        Symbol::Choice(template) => {
+            let instance = pkg.zchoices.entry(name.clone()).or_insert_with(|| {
+                Rc::from(RefCell::from(ZChoice {
+                    name,
+                    template_parameters: vec![],
+                    type_parameters: vec![],
+                    selector_expression: clone_expression(&template.borrow().selector_expression),
+                    cases: vec![],
+                    default_case: None,
+                    functions: vec![],
+                }))
+            });
+            add_choice_to_scope(instance, scope.get_package_scope());
+        }
+        Symbol::Union(_) => {
+            let instance = pkg.zunions.entry(name.clone()).or_insert_with(|| {
+                Rc::from(RefCell::from(ZUnion {
+                    name,
+                    comment: String::new(),
+                    template_parameters: vec![],
+                    type_parameters: vec![],
+                    fields: vec![],
+                    functions: vec![],
+                }))
+            });
+            add_zunion_to_scope(instance, scope.get_package_scope());
+        }
+        _ => panic!("unsupported type for template instantiation"),
+    }
+}
+
+/// Returns the symbol of the template used by a type.
+pub fn template_symbol(scope: &ModelScope, zserio_type: &TypeReference) -> SymbolReference {
+    if zserio_type.package.is_empty() {
+        scope.resolve_symbol(&zserio_type.name, true)
+    } else {
+        scope.get_symbol(zserio_type)
+    }
+}
+
+/// Returns how deep the template arguments of a type are nested.
+pub fn template_depth(zserio_type: &TypeReference) -> usize {
+    zserio_type
+        .template_arguments
+        .iter()
+        .map(|argument| template_depth(argument) + 1)
+        .max()
+        .unwrap_or(0)
+}
+
+/// Generates the content of the instances which were created by `instantiate_type()`, including
+/// those which are needed by other instances.
+pub fn complete_instances(pkg: &mut ZPackage, scope: &mut ModelScope) {
+    while let Some(instance) = pkg.pending_instances.pop() {
+        match &instance.template {
+            Symbol::Struct(s) => instantiate_struct(
                 pkg,
                 scope,
                 &s.as_ref().borrow(),
-                &template_arguments,
-                &zserio_type.type_arguments,
-                &new_type_name,
-            );
-        }
-        Symbol::Choice(c) => {
-            return instantiate_choice(
+                &instance.template_arguments,
+                &instance.name,
+            ),
+            Symbol::Choice(c) => instantiate_choice(
                 pkg,
                 scope,
                 &c.as_ref().borrow(),
-                &template_arguments,
-                &zserio_type.type_arguments,
-                &new_type_name,
-            );
-        }
-        Symbol::Union(u) => {
-            return instantiate_union(
+                &instance.template_arguments,
+                &instance.name,
+            ),
+            Symbol::Union(u) => instantiate_union(
                 pkg,
                 scope,
                 &u.as_ref().borrow(),
-                &template_arguments,
-                &zserio_type.type_arguments,
-                &new_type_name,
-            );
+                &instance.template_arguments,
+                &instance.name,
+            ),
+            _ => panic!("unsupported type for template instantiation"),
         }
-        _ => panic!("unsupported type for template instantiation"),
     }
 }
 
@@ -348,22 +428,11 @@ fn instantiate_struct(
     scope: &mut ModelScope,
     z_struct: &ZStruct,
     template_arguments: &[TypeReference],
-    type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
-) -> TypeReference {
+) {
     assert!(!z_struct.template_parameters.is_empty());
     assert!(z_struct.template_parameters.len() == template_arguments.len());
 
-    let new_type_ref = TypeReference {
-        is_builtin: false,
-        package: pkg.name.clone(),
-        name: instantiated_name.clone(),
-        bits: 0,
-        template_arguments: vec![],
-        type_arguments: type_arguments.to_owned(),
-        length_expression: None,
-    };
-
     let instantiated_types: HashMap<String, TypeReference> = z_struct
         .template_parameters
         .iter()
@@ -424,14 +493,10 @@ fn instantiate_struct(
     }
 
     // Add the newly added structure to the package.
-    pkg.structs.insert(
-        instantiated_name.clone(),
-        Rc::from(RefCell::from(instantiated_struct)),
-    );
+    *pkg.structs[instantiated_name].borrow_mut() = instantiated_struct;
 
     // Update the scope to contain the newly added structure.
     add_struct_to_scope(&pkg.structs[instantiated_name], scope.get_package_scope());
-    new_type_ref
 }
 
 fn instantiate_choice(
@@ -439,22 +504,11 @@ fn instantiate_choice(
     scope: &mut ModelScope,
     z_choice: &ZChoice,
     template_arguments: &[TypeReference],
-    type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
-) -> TypeReference {
+) {
     assert!(!z_choice.template_parameters.is_empty());
     assert!(z_choice.template_parameters.len() == template_arguments.len());
 
-    let new_type_ref = TypeReference {
-        is_builtin: false,
-        package: pkg.name.clone(),
-        name: instantiated_name.clone(),
-        bits: 0,
-        template_arguments: vec![],
-        type_arguments: type_arguments.to_owned(),
-        length_expression: None,
-    };
-
     let instantiated_types: HashMap<String, TypeReference> = z_choice
         .template_parameters
         .iter()
@@ -541,14 +595,10 @@ fn instantiate_choice(
             })));
     }
     // Add the newly added choice to the package.
-    pkg.zchoices.insert(
-        instantiated_name.clone(),
-        Rc::from(RefCell::from(instantiated_choice)),
-    );
+    *pkg.zchoices[instantiated_name].borrow_mut() = instantiated_choice;
 
     // Update the scope to contain the newly added structure.
     add_choice_to_scope(&pkg.zchoices[instantiated_name], scope.get_package_scope());
-    new_type_ref
 }
 
 fn instantiate_union(
@@ -556,22 +606,11 @@ fn instantiate_union(
     scope: &mut ModelScope,
     z_union: &ZUnion,
     template_arguments: &[TypeReference],
-    type_arguments: &[Rc<RefCell<Expression>>],
     instantiated_name: &String,
-) -> TypeReference {
+) {
     assert!(!z_union.template_parameters.is_empty());
     assert!(z_union.template_parameters.len() == template_arguments.len());
 
-    let new_type_ref = TypeReference {
-        is_builtin: false,
-        package: pkg.name.clone(),
-        name: instantiated_name.clone(),
-        bits: 0,
-        template_arguments: vec![],
-        type_arguments: type_arguments.to_owned(),
-        length_expression: None,
-    };
-
     let instantiated_types: HashMap<String, TypeReference> = z_union
         .template_parameters
         .iter()
@@ -632,12 +671,8 @@ fn instantiate_union(
     }
 
     // Update the scope to contain the newly added union.
-    pkg.zunions.insert(
-        instantiated_name.clone(),
-        Rc::from(RefCell::from(instantiated_union)),
-    );
+    *pkg.zunions[instantiated_name].borrow_mut() = instantiated_union;
     add_zunion_to_scope(&pkg.zunions[instantiated_name], scope.get_package_scope());
-    new_type_ref
 }
 
 pub fn instantiate_field(
diff --git a/crates/zserio-rs-build/src/internal/model.rs b/crates/zserio-rs-build/src/internal/model.rs
index e5532eb..09996a5 100644
--- a/crates/zserio-rs-build/src/internal/model.rs
+++ b/crates/zserio-rs-build/src/internal/model.rs
@@ -12,9 +12,11 @@ use walkdir::WalkDir;
 
 use super::compiler::symbol_scope::ScopeLocation;
 pub mod package;
+use crate::internal::ast::type_reference::TypeReference;
 use crate::internal::compiler::template_instantiation::{
-    instantiate_choice_fields, instantiate_struct_fields, instantiate_type,
-    instantiate_union_fields, resolve_template_symbols,
+    complete_instances, declare_instance, instantiate_choice_fields, instantiate_struct_fields,
+    instantiate_type, instantiate_union_fields, resolve_template_symbols, template_depth,
+    template_symbol,
 };
 
 /// A data structure containing all zserio files related to each other.
@@ -153,6 +155,21 @@ impl Model {
 
     pub fn instantiate_templates(&mut self) {
         let scope = &mut self.scope;
+        // The names of the instances may be used before they are instantiated, for example by the
+        // template arguments of other instances.
+        for pkg in self.packages.values_mut() {
+            scope.scope_stack.push(ScopeLocation {
+                package: pkg.name.clone(),
+                import_symbol: None,
+                symbol_name: None,
+            });
+            for (name, zserio_type) in named_instances(pkg) {
+                let template = template_symbol(scope, &zserio_type).symbol;
+                declare_instance(pkg, scope, &template, &name);
+            }
+            scope.scope_stack.pop();
+        }
+
         for pkg in self.packages.values() {
             scope.scope_stack.push(ScopeLocation {
                 package: pkg.name.clone(),
@@ -170,32 +187,12 @@ impl Model {
                 symbol_name: None,
             });
 
-            // Generate template instantiations using the "instantiate" keyword.
-            // Need to clone "instantiated_types", so that the package (pkg) can
-            // be modified.
-            let type_instantiations = pkg.instantiated_types.clone();
-            for rc_instantiation in &type_instantiations {
-                let instantiation = rc_instantiation.as_ref().borrow_mut();
-                instantiate_type(
-                    pkg,
-                    scope,
-                    &instantiation.zserio_type.clone(),
-                    &instantiation.name.clone(),
-                );
-            }
-
-            // Generate template instantiations using the "subtype" keyword.
-            let subtypes = pkg.subtypes.clone();
-            for rc_subtype in subtypes {
-                let subtype = rc_subtype.borrow();
-                if !subtype.zserio_type.template_arguments.is_empty() {
-                    instantiate_type(
-                        pkg,
-                        scope,
-                        &subtype.zserio_type.clone(),
-                        &subtype.name.clone(),
-                    );
-                }
+            // Generate the template instantiations using the "instantiate" and "subtype" keywords.
+            // Those which are used by the template arguments of others come first.
+            let mut named_instances = named_instances(pkg);
+            named_instances.sort_by_key(|(_, zserio_type)| template_depth(zserio_type));
+            for (name, zserio_type) in named_instances {
+                instantiate_type(pkg, scope, &zserio_type, &name);
             }
 
             // instantiate all structs/choices/unions that are not templates themselves,
@@ -236,6 +233,8 @@ impl Model {
                 instantiate_union_fields(pkg, scope, &mut z_union.borrow_mut());
                 scope.scope_stack.pop();
             }
+
+            complete_instances(pkg, scope);
             scope.scope_stack.pop();
         }
     }
@@ -310,3 +309,23 @@ impl Model {
         }
     }
 }
+
+/// Returns the instances of templates which have a name, given by the "instantiate" or "subtype"
+/// keyword.
+fn named_instances(pkg: &ZPackage) -> Vec<(String, TypeReference)> {
+    let mut instances = vec![];
+    for rc_instantiation in &pkg.instantiated_types {
+        let instantiation = rc_instantiation.borrow();
+        instances.push((
+            instantiation.name.clone(),
+            (*instantiation.zserio_type).clone(),
+        ));
+    }
+    for rc_subtype in &pkg.subtypes {
+        let subtype = rc_subtype.borrow();
+        if !subtype.zserio_type.template_arguments.is_empty() {
+            instances.push((subtype.name.clone(), (*subtype.zserio_type).clone()));
+        }
+    }
+    instances
+}
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index 66c0bcf..e3f56be 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -174,6 +174,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             instantiated_types: vec![],
             bitmask_types: vec![],
             template_instances: HashMap::new(),
+            pending_instances: vec![],
         });
 
         for directive in ctx.languageDirective_all() {
-- 
2.43.0


From db9a1c6b3852c5205ab869c88a8ddb36505536cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 72/76] fix: distinguish template instances by the names of
 their Rust modules

---
 .../internal/compiler/template_instantiation.rs   | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
index 4aac2d4..8551948 100644
--- a/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
+++ b/crates/zserio-rs-build/src/internal/compiler/template_instantiation.rs
@@ -9,6 +9,7 @@ use crate::internal::ast::zstruct::{add_struct_to_scope, ZStruct};
 use crate::internal::ast::zunion::{add_zunion_to_scope, ZUnion};
 
 use crate::internal::compiler::symbol_scope::{ModelScope, Symbol, SymbolReference};
+use crate::internal::generator::types::TypeGenerator;
 use crate::internal::parser::gen::zserioparser::ID;
 use std::cell::RefCell;
 use std::collections::{HashMap, HashSet};
@@ -410,13 +411,17 @@ fn generate_instantiated_name(
     }
 
     // The name may be in use already, for example by an instance which uses types with the same
-    // names from other packages.
-    let file_symbols = &scope.get_package_scope().file_symbols;
+    // names from other packages. Two names must also differ when they are used in Rust.
+    let used_modules: HashSet<String> = scope
+        .get_package_scope()
+        .file_symbols
+        .keys()
+        .chain(pkg.template_instances.values())
+        .map(|name| TypeGenerator::to_rust_module_name(name))
+        .collect();
     let mut unique_name = new_name.clone();
     let mut suffix = 1;
-    while file_symbols.contains_key(&unique_name)
-        || pkg.template_instances.values().any(|x| *x == unique_name)
-    {
+    while used_modules.contains(&TypeGenerator::to_rust_module_name(&unique_name)) {
         suffix += 1;
         unique_name = format!("{new_name}_{suffix}");
     }
-- 
2.43.0


From b84a554dcb8a30647ac1af02e0cee6f8301bce78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 73/76] fix: pass the arguments of rust-zserio without the name
 of the program

---
 crates/rust-zserio/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/rust-zserio/src/main.rs b/crates/rust-zserio/src/main.rs
index d67f4cf..9e8a0dc 100644
--- a/crates/rust-zserio/src/main.rs
+++ b/crates/rust-zserio/src/main.rs
@@ -8,7 +8,8 @@ use cargo_util::ProcessBuilder;
 use std::env;
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    // The first argument is the name of this program.
+    let args: Vec<String> = env::args().skip(1).collect();
 
     if ProcessBuilder::new("zserio-rs-build")
         .args_replace(&args)
-- 
2.43.0


From 523e42787aad9d866e230dc3259e87c30720bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 74/76] fix: interpret the escape sequences of string literals

---
 .../src/internal/generator/expression.rs      |  4 +-
 .../src/internal/generator/zconst.rs          |  2 +-
 .../zserio-rs-build/src/internal/visitor.rs   | 54 ++++++++++++++++++-
 3 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/expression.rs b/crates/zserio-rs-build/src/internal/generator/expression.rs
index 2441128..4e666ce 100644
--- a/crates/zserio-rs-build/src/internal/generator/expression.rs
+++ b/crates/zserio-rs-build/src/internal/generator/expression.rs
@@ -537,10 +537,10 @@ fn generate_literal_expression(expression: &Expression) -> String {
         }
         STRING_LITERAL => {
             if expression.fully_resolved {
-                return format!("\"{}\"", &string_value);
+                return format!("{:?}", &string_value);
             }
             // need to cast into a rust string
-            format!("\"{}\".into()", &string_value)
+            format!("{:?}.into()", &string_value)
         }
 
         _ => panic!("unexpected comparison expression operator"),
diff --git a/crates/zserio-rs-build/src/internal/generator/zconst.rs b/crates/zserio-rs-build/src/internal/generator/zconst.rs
index 5e7023b..c53421e 100644
--- a/crates/zserio-rs-build/src/internal/generator/zconst.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zconst.rs
@@ -45,7 +45,7 @@ pub fn generate_constant(
     let value_expression = zconst.value_expression.borrow();
     let mut value = match &value_expression.result_type {
         // The value may be a concatenation, which can't be calculated in a Rust constant.
-        ExpressionType::String(value) if value_expression.fully_resolved => format!("\"{value}\""),
+        ExpressionType::String(value) if value_expression.fully_resolved => format!("{value:?}"),
         _ => generate_expression(&value_expression, type_generator, symbol_scope),
     };
     let is_integer = matches!(value_expression.result_type, ExpressionType::Integer(_));
diff --git a/crates/zserio-rs-build/src/internal/visitor.rs b/crates/zserio-rs-build/src/internal/visitor.rs
index e3f56be..9095494 100644
--- a/crates/zserio-rs-build/src/internal/visitor.rs
+++ b/crates/zserio-rs-build/src/internal/visitor.rs
@@ -110,6 +110,58 @@ impl Default for ZserioTreeReturnType {
         ZserioTreeReturnType::Str("".into())
     }
 }
+/// Returns the value of a zserio string literal, of which the quotes were removed.
+fn unescape_string(literal: &str) -> String {
+    let mut value = String::with_capacity(literal.len());
+    let mut chars = literal.chars().peekable();
+    while let Some(c) = chars.next() {
+        if c != '\\' {
+            value.push(c);
+            continue;
+        }
+        let (radix, max_digits) = match chars.next() {
+            Some('n') => {
+                value.push('\n');
+                continue;
+            }
+            Some('r') => {
+                value.push('\r');
+                continue;
+            }
+            Some('t') => {
+                value.push('\t');
+                continue;
+            }
+            Some('f') => {
+                value.push('\u{c}');
+                continue;
+            }
+            Some('u') => (16, 4),
+            Some('x') => (16, 2),
+            Some('0') => (8, 3),
+            Some(escaped) => {
+                value.push(escaped);
+                continue;
+            }
+            None => break,
+        };
+        let mut code = 0;
+        for _ in 0..max_digits {
+            let Some(digit) = chars.peek().and_then(|c| c.to_digit(radix)) else {
+                break;
+            };
+            // An octal escape sequence can't be larger than "\0377".
+            if radix == 8 && code * radix + digit > 0o377 {
+                break;
+            }
+            code = code * radix + digit;
+            chars.next();
+        }
+        value.push(char::from_u32(code).expect("invalid character in a string literal"));
+    }
+    value
+}
+
 pub struct Visitor(pub ZserioTreeReturnType);
 impl ParseTreeVisitorCompat<'_> for Visitor {
     type Node = ZserioParserContextType;
@@ -968,7 +1020,7 @@ impl ZserioParserVisitorCompat<'_> for Visitor {
             ),
             _ if literal_ctx.STRING_LITERAL().is_some() => {
                 assert!(literal_text.len() >= 2);
-                ExpressionType::String(literal_text[1..literal_text.len() - 1].into())
+                ExpressionType::String(unescape_string(&literal_text[1..literal_text.len() - 1]))
             }
             _ if literal_ctx.FLOAT_LITERAL().is_some() => ExpressionType::Float(
                 literal_text
-- 
2.43.0


From cbdd09928829921917beb2232adc8640d264b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:08 +0000
Subject: [PATCH 75/76] fix: generate enums with values above the range of
 int64

---
 .../zserio-rs-build/src/internal/generator/zenum.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/zserio-rs-build/src/internal/generator/zenum.rs b/crates/zserio-rs-build/src/internal/generator/zenum.rs
index e62c351..6d6c29d 100644
--- a/crates/zserio-rs-build/src/internal/generator/zenum.rs
+++ b/crates/zserio-rs-build/src/internal/generator/zenum.rs
@@ -38,7 +38,8 @@ pub fn generate_enum(
     gen_enum.derive("PartialEq");
     gen_enum.derive("Eq");
 
-    let mut enum_value = 0;
+    let mut enum_value: i128 = 0;
+    let mut max_enum_value = i128::MIN;
     let mut first_option = true;
     for item in &zenum.items {
         if let Some(value_expression) = &item.value {
@@ -56,8 +57,13 @@ pub fn generate_enum(
             v.annotation("#[default]");
             first_option = false;
         }
+        max_enum_value = max_enum_value.max(enum_value);
         enum_value += 1;
     }
+    if max_enum_value > i64::MAX as i128 {
+        // By default, Rust stores the values of an enum as signed integers.
+        gen_enum.repr(&rust_type_type);
+    }
 
     let tryfrom_impl = gen_scope
         .new_impl(&rust_type_name)
@@ -68,7 +74,7 @@ pub fn generate_enum(
     from_int_fn.ret("std::result::Result<Self, zserio::ZserioError>");
     from_int_fn.line("match v {");
 
-    let mut enum_value = 0;
+    let mut enum_value: i128 = 0;
     for item in &zenum.items {
         if let Some(value_expression) = &item.value {
             match value_expression.as_ref().borrow().result_type {
@@ -78,7 +84,8 @@ pub fn generate_enum(
         }
         from_int_fn.line(format!(
             "{} => Ok({}::{}),",
-            enum_value,
+            // Large unsigned values wrap around, like the value passed by the read functions.
+            enum_value as i64,
             rust_type_name,
             convert_to_enum_field_name(&item.name)
         ));
-- 
2.43.0


From 0a3495ca8e34f9ac398ff855f65a81d91d55a494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 76/76] fix: allow the members of the compound returned by a
 function

---
 crates/zserio-rs-build/src/internal/ast/expression.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/zserio-rs-build/src/internal/ast/expression.rs b/crates/zserio-rs-build/src/internal/ast/expression.rs
index d1012d6..a9341ea 100644
--- a/crates/zserio-rs-build/src/internal/ast/expression.rs
+++ b/crates/zserio-rs-build/src/internal/ast/expression.rs
@@ -335,6 +335,7 @@ impl Expression {
                 // compound type (struct or choice).
                 param.as_ref().borrow().zserio_type.clone()
             }
+            Symbol::Function(func) => func.as_ref().borrow().return_type.clone(),
             _ => panic!(
                 "unsupported compound type symbol parameter {:?}",
                 self.operand1.as_ref().unwrap().symbol.as_ref().unwrap()
-- 
2.43.0


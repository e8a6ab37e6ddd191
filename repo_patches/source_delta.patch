From 0eabdbaf70a057e8a5c3142a7eae819b4b8ec3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 1/9] fix: report a truncated HPACK integer instead of
 panicking

---
 hpack/src/decoder/primitives.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 77d4cbd..578dd7e 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -67,7 +67,7 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 
     let mut shift = 0;
     loop {
-        let byte = if buf.is_empty() {
+        let byte = if total >= buf.len() {
             return Err(DecoderError::IntegerUnderflow);
         } else {
             total += 1;
-- 
2.43.0


From c6236750b9429d54da61c9d550ba1108e5952dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 2/9] fix: report a missing HPACK string instead of panicking

---
 hpack/src/decoder/primitives.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpack/src/decoder/primitives.rs b/hpack/src/decoder/primitives.rs
index 578dd7e..2e29d86 100644
--- a/hpack/src/decoder/primitives.rs
+++ b/hpack/src/decoder/primitives.rs
@@ -105,6 +105,9 @@ pub(crate) fn decode_integer(buf: &[u8], dst: &mut u32, prefix_size: u8) -> Resu
 /// 
 /// [5.2.]: https://tools.ietf.org/html/rfc7541#section-5.2
 pub(crate) fn decode_string(buf: &[u8], speed: DecoderSpeed, dst: &mut Vec<u8>) -> Result<usize, DecoderError> {
+    if buf.is_empty() {
+        return Err(DecoderError::IntegerUnderflow);
+    }
     let huffman = buf[0] & 128 == 128;
 
     let mut len = 0;
-- 
2.43.0


From ae393ef517eb90296c684e820784714f81ad98a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 3/9] fix: count the octets of size updates in the decoded
 total

---
 hpack/src/decoder/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 8f4f2b2..470ff74 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -155,7 +155,7 @@ impl<'a> Decoder<'a> {
             } else if octet & 64 == 64 { // with indexing
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
-                self.update_max_dynamic_size(buf)?;
+                total += self.update_max_dynamic_size(buf)?;
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From ea799428e34d8b844af759a7364bb41d987cd640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 4/9] fix: do not count a size update as one of the exact
 headers

---
 hpack/src/decoder/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hpack/src/decoder/mod.rs b/hpack/src/decoder/mod.rs
index 470ff74..9f29b05 100644
--- a/hpack/src/decoder/mod.rs
+++ b/hpack/src/decoder/mod.rs
@@ -156,6 +156,7 @@ impl<'a> Decoder<'a> {
                 total += self.decode_literal(buf, dst)?;
             } else if octet & 32 == 32 {
                 total += self.update_max_dynamic_size(buf)?;
+                limit += 1; // not a header
             } else if octet & 16 == 16 { // never indexed
                 total += self.decode_literal(buf, dst)?;
             } else { // without indexing
-- 
2.43.0


From 28c2642499fdc388d46122d3ea810d4bc48a15ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 5/9] fix: accept only up to 7 one-bits as Huffman padding

---
 huffman/src/decoder/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huffman/src/decoder/reader.rs b/huffman/src/decoder/reader.rs
index 2743d07..6a27e3c 100644
--- a/huffman/src/decoder/reader.rs
+++ b/huffman/src/decoder/reader.rs
@@ -87,7 +87,7 @@ impl DecodeReader {
         self.buf = 0;
         self.buf_size = 0;
 
-        if !vec![0, 1, 3, 7, 15, 31, 63, 127].iter().any(|p| *p == self.tail) { // validate padding
+        if self.tail_size > 7 || self.tail != (1 << self.tail_size) - 1 { // validate padding (up to 7 bits of value 1)
             return Err(DecoderError::InvalidInput);
         }
 
-- 
2.43.0


From 229a82394be8c42220089711ae399131e5629176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 6/9] fix: keep the never indexed mark when searching the best
 format

---
 hpack/src/encoder/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hpack/src/encoder/mod.rs b/hpack/src/encoder/mod.rs
index 83f48e7..aa28ed4 100644
--- a/hpack/src/encoder/mod.rs
+++ b/hpack/src/encoder/mod.rs
@@ -156,6 +156,9 @@ impl<'a> Encoder<'a> {
             EncoderInput::Literal(name, value, flags) => {
                 if flags & 0x10 == 0x10 {
                     match self.table.find(&name, &value) {
+                        Some((index, true)) if flags & 0xc == 0x8 => { // keep the never indexed mark
+                            self.encode_indexed_name(index as u32, value, flags, dst)
+                        },
                         Some((index, true)) => {
                             self.encode_indexed(index as u32, dst)
                         },
-- 
2.43.0


From 3c15b6cb50b9beaae469129d08e5f36379180d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 7/9] fix: continue decoding after an empty length-delimited
 field

---
 protos/src/decoder/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protos/src/decoder/mod.rs b/protos/src/decoder/mod.rs
index e84cdab..d3c45ba 100644
--- a/protos/src/decoder/mod.rs
+++ b/protos/src/decoder/mod.rs
@@ -75,6 +75,7 @@ impl Decoder {
     ) -> Result<usize, DecoderError> {
         let mut total = 0;
         loop {
+            let count = dst.len();
             let mut _size = 0;
             match self.key.1 {
                 Typ::Unknown => {
@@ -93,7 +94,7 @@ impl Decoder {
                     _size = self.extract_ld(buf, dst)?;
                 },
             }
-            if _size == 0 {
+            if _size == 0 && dst.len() == count { // empty fields have no bytes
                 break;
             }
             total += _size;
-- 
2.43.0


From 3341def1b711eba385828208e03b638eb3723c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:39 +0000
Subject: [PATCH 8/9] fix: reject varints longer than ten bytes

---
 protos/src/decoder/primitives.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protos/src/decoder/primitives.rs b/protos/src/decoder/primitives.rs
index 47ca7d8..9cc9267 100644
--- a/protos/src/decoder/primitives.rs
+++ b/protos/src/decoder/primitives.rs
@@ -40,6 +40,8 @@ pub fn decode_varint(buf: &[u8], dst: &mut u64) -> Result<usize, DecoderError> {
         if byte <= 0x7F {
             *dst = value;
             return Ok(count);
+        } else if count == 10 { // a number has at most 64 bits
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
@@ -627,6 +629,8 @@ pub fn extract_varint(
         if byte <= 0x7F {
             dst.append(&mut bytes);
             return Ok(count);
+        } else if count == 10 { // a number has at most 64 bits
+            return Err(DecoderError::InvalidInput);
         }
     }
 }
-- 
2.43.0


From 591ad2c913397add99880436b88cf5157ea4fe8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 9/9] fix: flatten code words of 31 and 32 bits at speeds that
 do not divide 32

---
 huffman/src/flattener/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/huffman/src/flattener/mod.rs b/huffman/src/flattener/mod.rs
index d14b1d8..470a5dc 100644
--- a/huffman/src/flattener/mod.rs
+++ b/huffman/src/flattener/mod.rs
@@ -207,11 +207,11 @@ fn generate_blank_transition(speed: usize) -> Vec<(Option<u8>, Option<u16>, u8)>
 ///             [1100, 0000, 1110, 0111]
 /// ```
 fn generate_coding_paths(coding: &(u8, u32), speed: usize) -> Vec<Vec<usize>> {
-    let mut bits: u32 = 0; // HPACK value can be up to 32 bits
+    let mut bits: u64 = 0; // HPACK value can be up to 32 bits, plus the leftover
     let chunks_len = (coding.0 as f32 / speed as f32).ceil() as usize;
     let chunk_max = 2u32.pow(speed as u32) as usize - 1;
     let leftover = chunks_len * speed - coding.0 as usize;
-    bits |= coding.1;
+    bits |= coding.1 as u64;
     bits <<= leftover;
 
     let mut chunks = vec![];
-- 
2.43.0


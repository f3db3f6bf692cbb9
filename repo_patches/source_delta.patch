From 51d0cc66dcec4fa36b264c422f0c3e564b56794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 1/2] fix: utf8 decode: only treat a valid prefix at end of
 input as truncated

The truncation test looked at the lead byte and the number of bytes left
only, so e.g. [E3, 41] was reported as one truncated sequence covering the
ASCII byte (with is_end), and [C0], [F5] or [E3, 41] were left pending
forever (without is_end) although no continuation can make them valid.
---
 src/utf8.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/utf8.rs b/src/utf8.rs
index dd260ea..7a01de1 100644
--- a/src/utf8.rs
+++ b/src/utf8.rs
@@ -15,10 +15,11 @@ pub fn encode_from_str<'a>(input: &str, out_buffer: &'a mut [u8]) -> EncodeResul
 }
 
 pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -> DecodeResult<'a> {
-    // Find how much of the data is valid utf8.
-    let valid_up_to = match core::str::from_utf8(input) {
-        Ok(text) => text.len(),
-        Err(e) => e.valid_up_to(),
+    // Find how much of the data is valid utf8, and whether what follows is a
+    // truncated (but so far valid) sequence.
+    let (valid_up_to, is_truncated) = match core::str::from_utf8(input) {
+        Ok(text) => (text.len(), false),
+        Err(e) => (e.valid_up_to(), e.error_len().is_none()),
     };
 
     // Copy over what we can.
@@ -27,12 +28,7 @@ pub fn decode_to_str<'a>(input: &[u8], out_buffer: &'a mut [u8], is_end: bool) -
 
     // Determine if there's an error.
     if bytes_copied < out_buffer.len() && bytes_copied == valid_up_to && valid_up_to < input.len() {
-        let trailing_bytes = input.len() - valid_up_to;
-        let byte = input[valid_up_to];
         // First we check if we're truncated.  If not, then it's an error.
-        let is_truncated = ((byte & 0b1110_0000) == 0b1100_0000 && trailing_bytes < 2)
-            || ((byte & 0b1111_0000) == 0b1110_0000 && trailing_bytes < 3)
-            || ((byte & 0b1111_1000) == 0b1111_0000 && trailing_bytes < 4);
         if !is_truncated {
             // Find the byte range of the error by finding the next valid
             // starting byte (or reaching end of input).
-- 
2.43.0


From cfca6adad2be5251563239768c9b7e3b837b62c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 2/2] fix: document the substitutions the Shift JIS encoder
 makes

The module documentation claimed that encoding is lossless, which does not
hold for U+00A5, U+203E and U+2212 (as WHATWG requires).
---
 src/shiftjis_whatwg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shiftjis_whatwg.rs b/src/shiftjis_whatwg.rs
index f0e2418..190993d 100644
--- a/src/shiftjis_whatwg.rs
+++ b/src/shiftjis_whatwg.rs
@@ -3,7 +3,9 @@
 //! There is a one-to-many mapping between Unicode and WHATWG Shift JIS.
 //! Therefore, decoding from WHATWG Shift JIS to `str` is lossy, because it
 //! throws away distinctions made in WHATWG Shift JIS that don't exist in
-//! Unicode.  Encoding from `str` to WHATWG Shift JIS, however, is lossless.
+//! Unicode.  Encoding from `str` to WHATWG Shift JIS, however, is lossless
+//! except for three substitutions that WHATWG dictates: U+00A5 is encoded as
+//! 0x5C, U+203E as 0x7E, and U+2212 the same as U+FF0D.
 use core;
 use {DecodeError, DecodeErrorCause, DecodeResult, EncodeError, EncodeResult};
 
-- 
2.43.0


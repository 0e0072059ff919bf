From cb35431e00774281fc2b95a6d4d29d228ec01a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 1/8] fix: consider DC prediction resets when optimizing
 huffman tables

With a restart interval the DC differences after a restart marker are coded
against a prediction of zero. The statistics for the optimized tables ignored
this, so a needed category could be missing from the table (panic in debug
builds, undecodable data in release builds).
---
 src/encoder.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index eded305..728f219 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -1055,6 +1055,7 @@ impl<W: JfifWrite> Encoder<W> {
         // TODO: Find out if it's possible to reuse some code from the writer
 
         let max_tables = self.components.len().min(2) as u8;
+        let restart_interval = usize::from(self.restart_interval.unwrap_or(0));
 
         for table in 0..max_tables {
             let mut dc_freq = [0u32; 257];
@@ -1073,7 +1074,12 @@ impl<W: JfifWrite> Encoder<W> {
 
                     debug_assert!(!blocks[i].is_empty());
 
-                    for block in &blocks[i] {
+                    for (n, block) in blocks[i].iter().enumerate() {
+                        // The DC prediction is reset at every restart marker
+                        if restart_interval > 0 && n % restart_interval == 0 {
+                            prev_dc = 0;
+                        }
+
                         let value = block[0];
                         let diff = value - prev_dc;
                         let num_bits = get_num_bits(diff);
-- 
2.43.0


From 323244b12dc084d4eb9cff883fa609271c0e8ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 2/8] fix: never write empty spectral selections in progressive
 mode

The 63 AC coefficients were divided as if there were 64 of them. With 34 or
more scans this made the first AC scan empty (Ss = 1, Se = 0), which is not a
legal JPEG scan.
---
 src/encoder.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 728f219..dc50486 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -892,15 +892,15 @@ impl<W: JfifWrite> Encoder<W> {
         // Phase 2: AC scans
         let scans = scans as usize - 1;
 
-        let values_per_scan = 64 / scans;
+        let values_per_scan = 63 / scans;
 
         for scan in 0..scans {
-            let start = (scan * values_per_scan).max(1);
+            let start = 1 + scan * values_per_scan;
             let end = if scan == scans - 1 {
                 // ensure last scan is always transfers the remaining coefficients
                 64
             } else {
-                (scan + 1) * values_per_scan
+                start + values_per_scan
             };
 
             for (i, component) in self.components.iter().enumerate() {
@@ -1096,15 +1096,15 @@ impl<W: JfifWrite> Encoder<W> {
                     if let Some(scans) = self.progressive_scans {
                         let scans = scans as usize - 1;
 
-                        let values_per_scan = 64 / scans;
+                        let values_per_scan = 63 / scans;
 
                         for scan in 0..scans {
-                            let start = (scan * values_per_scan).max(1);
+                            let start = 1 + scan * values_per_scan;
                             let end = if scan == scans - 1 {
                                 // Due to rounding we might need to transfer more than values_per_scan values in the last scan
                                 64
                             } else {
-                                (scan + 1) * values_per_scan
+                                start + values_per_scan
                             };
 
                             debug_assert!(!blocks[i].is_empty());
-- 
2.43.0


From 341cd83187cfee122f77b2e72c7ebc2eb9d14edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 3/8] fix: limit custom quantization tables to 8 bit values

Tables are always written with 8 bit precision. Larger values were used for
the quantization but truncated in the file, so decoders used other (possibly
zero) values.
---
 src/quantization.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/quantization.rs b/src/quantization.rs
index 93055e6..c78f5bc 100644
--- a/src/quantization.rs
+++ b/src/quantization.rs
@@ -250,7 +250,8 @@ impl QuantizationTable {
     fn get_user_table(table: &[u16; 64]) -> [NonZeroU16; 64] {
         let mut q_table = [NonZeroU16::new(1).unwrap(); 64];
         for (i, &v) in table.iter().enumerate() {
-            q_table[i] = match NonZeroU16::new(v.clamp(1, 2 << 10) << 3) {
+            // Tables are written with 8 bit precision
+            q_table[i] = match NonZeroU16::new(v.clamp(1, 255) << 3) {
                 Some(v) => v,
                 None => panic!("Invalid quantization table value: {}", v),
             };
-- 
2.43.0


From 4b0d44822ae27181d3e75dd3ecf71842e9173992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 4/8] fix: accept ICC profiles of up to 255 chunks

255 chunks of 65519 bytes are the documented maximum of 16,707,345 bytes.
---
 src/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index dc50486..f2ea589 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -381,7 +381,7 @@ impl<W: JfifWrite> Encoder<W> {
         let num_chunks = ceil_div(data.len(), MAX_CHUNK_LENGTH);
 
         // Sequence number is stored as a byte and starts with 1
-        if num_chunks >= 255 {
+        if num_chunks > 255 {
             return Err(EncodingError::IccTooLarge(data.len()));
         }
 
-- 
2.43.0


From 94d9580f2d81e5582a3a2b62b057782a487997ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 5/8] fix: round all lanes in the second pass of the AVX2 fdct

The rounding term was only added to every second 16 bit value, so half of the
columns differed from the scalar implementation.
---
 src/avx2/fdct.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/avx2/fdct.rs b/src/avx2/fdct.rs
index b7caa38..ce6f569 100644
--- a/src/avx2/fdct.rs
+++ b/src/avx2/fdct.rs
@@ -11,18 +11,18 @@
 use core::arch::x86::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
     _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_set1_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 #[cfg(target_arch = "x86_64")]
 use core::arch::x86_64::{
     __m256i, _mm256_add_epi16, _mm256_add_epi32, _mm256_loadu_si256, _mm256_madd_epi16,
     _mm256_packs_epi32, _mm256_permute2x128_si256, _mm256_permute4x64_epi64, _mm256_set_epi16,
-    _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16, _mm256_srai_epi32,
-    _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16, _mm256_unpackhi_epi32,
-    _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
+    _mm256_set1_epi16, _mm256_set_epi32, _mm256_sign_epi16, _mm256_slli_epi16, _mm256_srai_epi16,
+    _mm256_srai_epi32, _mm256_storeu_si256, _mm256_sub_epi16, _mm256_unpackhi_epi16,
+    _mm256_unpackhi_epi32, _mm256_unpacklo_epi16, _mm256_unpacklo_epi32,
 };
 
 const CONST_BITS: i32 = 13;
@@ -188,16 +188,8 @@ unsafe fn fdct_avx2_internal(data: &mut [i16; 64]) {
     #[allow(non_snake_case)]
     #[inline(always)]
     unsafe fn PW_DESCALE_P2X() -> __m256i {
-        _mm256_set_epi32(
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-            1 << (PASS1_BITS - 1),
-        )
+        // Added to sixteen 16 bit values
+        _mm256_set1_epi16(1 << (PASS1_BITS - 1))
     }
 
     // In-place 8x8x16-bit matrix transpose using AVX2 instructions
-- 
2.43.0


From 9cf92b63e4457debfaedf33947853a4137b281c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 6/8] fix: flush the writer after encoding

The encoder consumes its writer. Data that was still buffered (always the case
for Encoder::new_file) was only written on drop, where errors are ignored. So
encoding could return Ok even though the file was never written.
---
 src/encoder.rs |  3 +++
 src/writer.rs  | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/src/encoder.rs b/src/encoder.rs
index f2ea589..4dc60b6 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -529,6 +529,9 @@ impl<W: JfifWrite> Encoder<W> {
 
         self.writer.write_marker(Marker::EOI)?;
 
+        // Without this, errors of buffered writers would be lost when the writer is dropped
+        self.writer.flush()?;
+
         Ok(())
     }
 
diff --git a/src/writer.rs b/src/writer.rs
index e818b67..65cac72 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -38,6 +38,15 @@ pub trait JfifWrite {
     ///
     /// Return an error if the data can't be written
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError>;
+
+    /// Flushes all buffered data at the end of the image. The behavior must be identical to
+    /// std::io::Write::flush. By default, this does nothing.
+    /// # Errors
+    ///
+    /// Return an error if the buffered data can't be written
+    fn flush_all(&mut self) -> Result<(), EncodingError> {
+        Ok(())
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -45,6 +54,10 @@ impl<W: JfifWrite + ?Sized> JfifWrite for &mut W {
     fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
         (**self).write_all(buf)
     }
+
+    fn flush_all(&mut self) -> Result<(), EncodingError> {
+        (**self).flush_all()
+    }
 }
 
 #[cfg(not(feature = "std"))]
@@ -62,6 +75,11 @@ impl<W: std::io::Write + ?Sized> JfifWrite for W {
         self.write_all(buf)?;
         Ok(())
     }
+
+    fn flush_all(&mut self) -> Result<(), EncodingError> {
+        self.flush()?;
+        Ok(())
+    }
 }
 
 pub(crate) struct JfifWriter<W: JfifWrite> {
@@ -84,6 +102,10 @@ impl<W: JfifWrite> JfifWriter<W> {
         self.w.write_all(buf)
     }
 
+    pub fn flush(&mut self) -> Result<(), EncodingError> {
+        self.w.flush_all()
+    }
+
     #[inline(always)]
     pub fn write_u8(&mut self, value: u8) -> Result<(), EncodingError> {
         self.w.write_all(&[value])
-- 
2.43.0


From 83e9a0e6e0b2705cca5bbc27076d07cfdac2e3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 7/8] fix: handle Huffman codes longer than 32 bits before
 limiting them

---
 src/huffman.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/huffman.rs b/src/huffman.rs
index a32debd..8b698b2 100644
--- a/src/huffman.rs
+++ b/src/huffman.rs
@@ -156,7 +156,8 @@ impl HuffmanTable {
         // Find the number of codes of each size
         // Figure K.2
 
-        let mut bits = [0u8; 33];
+        // Before limiting, a code for 257 symbols can be up to 256 bits long
+        let mut bits = [0u8; 257];
 
         for &size in codesize.iter() {
             if size > 0 {
@@ -167,7 +168,7 @@ impl HuffmanTable {
         // Limiting code lengths to 16 bits
         // Figure K.3
 
-        let mut i = 32;
+        let mut i = bits.len() - 1;
 
         while i > 16 {
             while bits[i] > 0 {
@@ -197,7 +198,8 @@ impl HuffmanTable {
 
         let mut k = 0;
 
-        for i in 1..=32 {
+        let max_size = codesize.iter().copied().max().unwrap_or(0);
+        for i in 1..=max_size {
             for j in 0..=255 {
                 if codesize[j] == i {
                     huffval[k] = j as u8;
-- 
2.43.0


From f06c3358e4dc5e328e8c7cf44c29a3d26f707e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 8/8] fix: don't overflow the required image data length on 32
 bit targets

---
 src/encoder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder.rs b/src/encoder.rs
index 4dc60b6..f8092dc 100644
--- a/src/encoder.rs
+++ b/src/encoder.rs
@@ -410,7 +410,10 @@ impl<W: JfifWrite> Encoder<W> {
         height: u16,
         color_type: ColorType,
     ) -> Result<(), EncodingError> {
-        let required_data_len = width as usize * height as usize * color_type.get_bytes_per_pixel();
+        // Saturates on targets where the product doesn't fit an usize. No slice can be that long.
+        let required_data_len = (width as usize)
+            .saturating_mul(height as usize)
+            .saturating_mul(color_type.get_bytes_per_pixel());
 
         if data.len() < required_data_len {
             return Err(EncodingError::BadImageData {
-- 
2.43.0


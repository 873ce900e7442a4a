From 2c90fc4ebc119dcf3e1ce2715b431d526ae7bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 01/36] fix: streams with more than 255 frames overflow the
 header frame count

---
 atsc/src/header.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atsc/src/header.rs b/atsc/src/header.rs
index 807b00e..1dcfbed 100644
--- a/atsc/src/header.rs
+++ b/atsc/src/header.rs
@@ -50,7 +50,8 @@ impl CompressorHeader {
     }
 
     pub fn add_frame(&mut self) {
-        self.frame_count += 1;
+        // The count is a single byte on disk: stop at the highest value it can hold
+        self.frame_count = self.frame_count.saturating_add(1);
     }
 
     pub fn get_frame_count(&mut self) -> u8 {
-- 
2.43.0


From 65cf91a130b560dfa4a25cf8279e0d76d0f4897d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:36 +0000
Subject: [PATCH 02/36] fix: data statistics take huge values and tiny
 fractions for zero

---
 atsc/src/optimizer/utils.rs | 46 ++-----------------------------------
 1 file changed, 2 insertions(+), 44 deletions(-)

diff --git a/atsc/src/optimizer/utils.rs b/atsc/src/optimizer/utils.rs
index 556a253..f1aa2eb 100644
--- a/atsc/src/optimizer/utils.rs
+++ b/atsc/src/optimizer/utils.rs
@@ -112,51 +112,9 @@ impl DataStats {
         }
     }
 }
+/// Splits a number into its integer part, saturated to the i64 range, and its fractional part
 fn split_n(x: f64) -> (i64, f64) {
-    const FRACT_SCALE: f64 = 1.0 / (65536.0 * 65536.0 * 65536.0 * 65536.0); // 1_f64.exp(-64)
-    const STORED_MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS - 1;
-    const STORED_MANTISSA_MASK: u64 = (1 << STORED_MANTISSA_DIGITS) - 1;
-    const MANTISSA_MSB: u64 = 1 << STORED_MANTISSA_DIGITS;
-
-    const EXPONENT_BITS: u32 = 64 - 1 - STORED_MANTISSA_DIGITS;
-    const EXPONENT_MASK: u32 = (1 << EXPONENT_BITS) - 1;
-    const EXPONENT_BIAS: i32 = (1 << (EXPONENT_BITS - 1)) - 1;
-
-    let bits = x.to_bits();
-    let is_negative = (bits as i64) < 0;
-    let exponent = ((bits >> STORED_MANTISSA_DIGITS) as u32 & EXPONENT_MASK) as i32;
-
-    let mantissa = (bits & STORED_MANTISSA_MASK) | MANTISSA_MSB;
-    let mantissa = if is_negative {
-        -(mantissa as i64)
-    } else {
-        mantissa as i64
-    };
-
-    let shl = exponent + (64 - f64::MANTISSA_DIGITS as i32 - EXPONENT_BIAS + 1);
-    if shl <= 0 {
-        let shr = -shl;
-        if shr < 64 {
-            // x >> 0..64
-            let fraction = ((mantissa as u64) >> shr) as f64 * FRACT_SCALE;
-            (0, fraction)
-        } else {
-            // x >> 64..
-            (0, 0.0)
-        }
-    } else if shl < 64 {
-        // x << 1..64
-        let int = mantissa >> (64 - shl);
-        let fraction = ((mantissa as u64) << shl) as f64 * FRACT_SCALE;
-        (int, fraction)
-    } else if shl < 128 {
-        // x << 64..128
-        let int = mantissa << (shl - 64);
-        (int, 0.0)
-    } else {
-        // x << 128..
-        (0, 0.0)
-    }
+    (x.trunc() as i64, x.fract())
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2704ccec02750a268774d49b31f151bf4615cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 03/36] fix: FFT measures its error over padding that is never
 decompressed

---
 atsc/src/compressor/fft.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 4c9fa07..04a5533 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -342,7 +342,9 @@ impl FFT {
                 .iter()
                 .map(|&f| self.round(f.re / len_f32, DECIMAL_PRECISION.into()))
                 .collect();
-            current_err = calculate_error(g_data, &out_data);
+            // The padding is dropped when decompressing, only the real samples count for the error
+            let prefix_len = (len - data.len()) / 2;
+            current_err = calculate_error(data, &out_data[prefix_len..prefix_len + data.len()]);
             trace!("Current Err: {}", current_err);
             // Max iterations is 22 (We start at 10%, we can go to 95% and 1% at a time)
             match iterations {
-- 
2.43.0


From f2280f59d2ef9da33f54a6594031c02d609da5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 04/36] fix: FFT reports no error for values that only differ
 past single precision

---
 atsc/src/compressor/fft.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index 04a5533..e29c0c3 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -288,6 +288,8 @@ impl FFT {
     pub fn compress_bounded(&mut self, data: &[f64], max_err: f64) {
         if self.max_value == self.min_value {
             debug!("Same max and min, we're done here!");
+            // They can be the same only because of the conversion to f32, so there can be an error
+            self.error = Some(calculate_error(data, &self.to_data(data.len())));
             return;
         }
 
-- 
2.43.0


From fec320e15331d5915adac41251d94bf897f1b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 05/36] fix: percentage error is NaN when a zero is reproduced
 exactly

---
 atsc/src/utils/error.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atsc/src/utils/error.rs b/atsc/src/utils/error.rs
index d472b5d..7c8b713 100644
--- a/atsc/src/utils/error.rs
+++ b/atsc/src/utils/error.rs
@@ -109,6 +109,8 @@ pub fn error_mape(original: &[f64], generated: &[f64]) -> f64 {
     let abs_error: f64 = original
         .iter()
         .zip(generated.iter())
+        // Equal values have no error, even when they are 0 and the division is not defined
+        .filter(|(original, generated)| original != generated)
         .map(|(original, generated)| ((generated - original) / original).abs())
         .sum();
     // TODO: NaN needs to be handled
-- 
2.43.0


From 31ba6e323eb20d48bb41afe78e66501aa8fba5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 06/36] fix: FFT without an error bound is not padded as
 decompression expects

---
 atsc/src/compressor/fft.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index e29c0c3..f206dbe 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -269,9 +269,15 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Decompression expects anything this long to be padded
+        let g_data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
-        let mut buffer = FFT::optimize(data);
+        let fft = planner.plan_fft_forward(g_data.len());
+        let mut buffer = FFT::optimize(g_data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
         // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
@@ -379,9 +385,15 @@ impl FFT {
         if !v.is_power_of_two() {
             warn!("Slow FFT, data segment is not a power of 2!");
         }
+        // Decompression expects anything this long to be padded
+        let g_data: &[f64] = if v >= 128 {
+            &FFT::gibbs_sizing(data)
+        } else {
+            data
+        };
         let mut planner = FftPlanner::new();
-        let fft = planner.plan_fft_forward(v);
-        let mut buffer = FFT::optimize(data);
+        let fft = planner.plan_fft_forward(g_data.len());
+        let mut buffer = FFT::optimize(g_data);
         // The data is processed in place, it gets back to the buffer
         fft.process(&mut buffer);
         // We need half + 1 frequencies at most, due to the mirrored nature of FFT (signal is always real!)
-- 
2.43.0


From 54ef342fec5e6d272e25d17e39974b003b9eab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 07/36] fix: polynomial rounds and interpolates frames that
 store every point

---
 atsc/src/compressor/polynomial.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 531a82a..988e391 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -397,6 +397,10 @@ impl Polynomial {
             debug!("Same max and min, faster decompression!");
             return vec![self.max; frame_size];
         }
+        if self.data_points.len() == frame_size {
+            debug!("All the points are stored, nothing to calculate!");
+            return self.data_points.clone();
+        }
         match self.id {
             PolynomialType::Idw => self.idw_to_data(frame_size),
             PolynomialType::Polynomial => self.polynomial_to_data(frame_size),
-- 
2.43.0


From 406eba39de4dc46d1b182293a95e4632756f732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:00 +0000
Subject: [PATCH 08/36] fix: polynomial stops on an error that only rounds to
 the allowed one

---
 atsc/src/compressor/polynomial.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 988e391..4a65865 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -15,7 +15,7 @@ limitations under the License.
 */
 
 use crate::optimizer::utils::{Bitdepth, DataStats};
-use crate::utils::{error::calculate_error, round_and_limit_f64, round_f64, DECIMAL_PRECISION};
+use crate::utils::{error::calculate_error, round_and_limit_f64, DECIMAL_PRECISION};
 
 use super::{BinConfig, CompressorResult};
 use bincode::{Decode, Encode};
@@ -226,15 +226,13 @@ impl Polynomial {
         let mut current_err = max_err + 1.0;
         let mut jump: usize = 0;
         let mut iterations = 0;
-        // Locking max target error precision to 0.1%
-        let target_error = round_f64(max_err, 3);
-        while target_error < round_f64(current_err, 4) {
+        while current_err.is_nan() || current_err > max_err {
             trace!(
                 "Method: {:?} Iterations: {} Error: {} Target: {}",
                 method,
                 iterations,
                 current_err,
-                target_error
+                max_err
             );
             iterations += 1;
             self.compress_hinted(data, baseline_points + jump);
@@ -252,7 +250,7 @@ impl Polynomial {
                 1..=17 => jump += (data_len / 10).max(1),
                 18..=22 => jump += (data_len / 100).max(1),
                 // No more jumping, but we landed right in the end
-                _ if target_error > round_f64(current_err, 4) => break,
+                _ if current_err <= max_err => break,
                 // We can't hit the target, store everything
                 _ => {
                     self.compress_hinted(data, data_len);
-- 
2.43.0


From 152af8f5c37622c2dff658b90837fd836b4aa5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 09/36] fix: sampled compressor selection ignores the error
 over the full data

---
 atsc/src/frame/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/atsc/src/frame/mod.rs b/atsc/src/frame/mod.rs
index 1f726e4..af434b6 100644
--- a/atsc/src/frame/mod.rs
+++ b/atsc/src/frame/mod.rs
@@ -105,10 +105,18 @@ impl CompressorFrame {
                 .unwrap();
             self.compressor = *chosen_compressor;
             // Now do the full data compression
-            self.data = self
+            let result = self
                 .compressor
-                .get_compress_bounded_results(data, max_error as f64)
-                .compressed_data;
+                .get_compress_bounded_results(data, max_error as f64);
+            #[allow(
+                clippy::neg_cmp_op_on_partial_ord,
+                reason = "the error can be NaN, which is not within the allowed one"
+            )]
+            if !(result.error <= max_error as f64) {
+                // The sample didn't represent the full data, so all of it has to be evaluated
+                return self.compress_best(data, max_error, 0);
+            }
+            self.data = result.compressed_data;
         } else {
             // Run all the eligible compressors and choose smallest
             let compressor_results: Vec<_> = compressor_list
-- 
2.43.0


From 0527ac19a75765436af8709e1bb0daafedeb8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 10/36] fix: a stream without frames can't be read back

---
 atsc/src/utils/readers/bro_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/utils/readers/bro_reader.rs b/atsc/src/utils/readers/bro_reader.rs
index f2b7e37..bb12740 100644
--- a/atsc/src/utils/readers/bro_reader.rs
+++ b/atsc/src/utils/readers/bro_reader.rs
@@ -37,9 +37,9 @@ pub fn read_file(file_path: &Path) -> Result<Option<Vec<u8>>, Error> {
     }
 }
 fn is_bro_file(file_path: &Path) -> io::Result<bool> {
-    // Open the file for reading and read the first 12 bytes (header) of the file
+    // Open the file for reading and read the first 4 bytes (magic) of the file
     let mut file = fs::File::open(file_path)?;
-    let mut header = [0u8; 12];
+    let mut header = [0u8; 4];
     file.read_exact(&mut header)?;
     // Check if the file starts with "BRRO"
     Ok(header.starts_with(b"BRRO"))
-- 
2.43.0


From 5b5f5d39f5a8cf1103e6a4337d9b38b3f52238e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 11/36] fix: reading a WavBrro depends on the alignment of the
 buffer

---
 wavbrro/src/wavbrro.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wavbrro/src/wavbrro.rs b/wavbrro/src/wavbrro.rs
index 651a910..f68cc0a 100644
--- a/wavbrro/src/wavbrro.rs
+++ b/wavbrro/src/wavbrro.rs
@@ -128,7 +128,10 @@ impl WavBrro {
     }
 
     pub fn from_bytes(bytes: &[u8]) -> Self {
-        rkyv::from_bytes::<WavBrro>(bytes).expect("Failed to deserialize data!")
+        // The archive can only be accessed aligned, which a slice of bytes doesn't have to be
+        let mut aligned = rkyv::AlignedVec::with_capacity(bytes.len());
+        aligned.extend_from_slice(bytes);
+        rkyv::from_bytes::<WavBrro>(&aligned).expect("Failed to deserialize data!")
     }
 }
 
-- 
2.43.0


From a6e7d73d7fd7d5b9df4f161dbf98efff34a203e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 12/36] fix: truncated WavBrro files are read as empty ones

---
 wavbrro/src/wavbrro.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wavbrro/src/wavbrro.rs b/wavbrro/src/wavbrro.rs
index f68cc0a..dc3777f 100644
--- a/wavbrro/src/wavbrro.rs
+++ b/wavbrro/src/wavbrro.rs
@@ -107,6 +107,11 @@ impl WavBrro {
         };
         let bytes = read_wavbrro_file(file_path)?;
         let obj = WavBrro::from_bytes(&bytes);
+        // Only f64 exists, and a truncated file can still look like a valid, empty, archive
+        let stored_samples: usize = obj.chunks.iter().map(Vec::len).sum();
+        if obj.bitdepth != 5 || obj.sample_count as usize != stored_samples {
+            return Err(Error::FormatError);
+        }
         Ok(obj.get_samples())
     }
 
-- 
2.43.0


From 0a5d9c1174243f29a4c3bca79217c435e49a97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 13/36] fix: short writes of a WavBrro file are taken as
 complete

---
 wavbrro/src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wavbrro/src/write.rs b/wavbrro/src/write.rs
index e21cd25..938b43e 100644
--- a/wavbrro/src/write.rs
+++ b/wavbrro/src/write.rs
@@ -21,7 +21,7 @@ use std::path::Path;
 pub fn write_wavbrro_file(file_path: &Path, content: &[u8]) {
     let header: [u8; 12] = *b"WBRO0000WBRO";
     let file = File::create(file_path).expect("Can't create file!");
-    file.write_at(&header, 0).expect("Fail to write header");
-    file.write_at(content, header.len() as u64)
+    file.write_all_at(&header, 0).expect("Fail to write header");
+    file.write_all_at(content, header.len() as u64)
         .expect("Fail to write content");
 }
-- 
2.43.0


From 44c09f11aa27e89b27369722824d878277690a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 14/36] fix: one unreadable file stops the processing of its
 directory

---
 atsc/src/main.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 21f1be8..6dc4277 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -52,6 +52,7 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
     for entry in std::fs::read_dir(arguments.input.clone())? {
         let path = entry?.path();
         if path.is_file() {
+            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
             match process_single_file(path.clone(), arguments) {
                 Ok(_) => continue,
                 //TODO: Files are created while this walks the dir, gives a funny output
@@ -60,8 +61,6 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
                 //      output for the time beeing.
                 Err(err) => error!("{} File: {}", err, path.display()),
             }
-            // We need to make sure we skip anything but BRO and WBRO, this can be done on single file processors
-            process_single_file(path, arguments)?;
         }
     }
     Ok(())
-- 
2.43.0


From c9e2e6e5d1c49375cf6e54582fb13c0645cba900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 15/36] fix: malformed CSV records panic instead of returning
 an error

---
 atsc/src/csv.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/atsc/src/csv.rs b/atsc/src/csv.rs
index eb08d9b..2b5ea13 100644
--- a/atsc/src/csv.rs
+++ b/atsc/src/csv.rs
@@ -18,6 +18,9 @@ pub enum Error {
     #[error("Parsing value is failed")]
     ParsingValueFailed,
 
+    #[error("Reading record is failed")]
+    ReadingRecordFailed,
+
     #[error("Unexpected error occurred")]
     Unexpected,
 }
@@ -55,11 +58,11 @@ pub fn read_samples_with_headers(
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::ReadingRecordFailed)?;
         // let timestamp: DateTime<Utc> = record.get(timestamp_idx).unwrap().parse()?;
         let value: f64 = record
             .get(value_idx)
-            .unwrap()
+            .ok_or(Error::ParsingValueFailed)?
             .parse()
             .map_err(|_| Error::ParsingValueFailed)?;
 
@@ -81,10 +84,10 @@ pub fn read_samples(filepath: &Path) -> Result<Vec<Sample>> {
     // Collect samples
     let mut samples = Vec::new();
     for record in reader.records() {
-        let record = record.unwrap();
+        let record = record.map_err(|_| Error::ReadingRecordFailed)?;
         let value: f64 = record
             .get(0) // assuming that there is only a single field with values inside
-            .unwrap()
+            .ok_or(Error::ParsingValueFailed)?
             .parse()
             .map_err(|_| Error::ParsingValueFailed)?;
 
-- 
2.43.0


From d1008ed3015c95771a13ab733ce0c1ec61079ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 16/36] fix: fields without a comma panic instead of returning
 an error

---
 atsc/src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 6dc4277..325d734 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -92,6 +92,9 @@ fn process_single_file(mut file_path: PathBuf, arguments: &Args) -> Result<(), B
                 None => "time, value".to_string(),
             };
             let headers: Vec<_> = headers_option.split(",").collect();
+            if headers.len() < 2 {
+                return Err("The fields should be the name of the time and the value ones.".into());
+            }
             // Assuming that header[0] is a time field and header[1] is value field
             read_samples_with_headers(&file_path, headers[0], headers[1])?
         };
-- 
2.43.0


From 4bf9d77371f9f4996bf4d01780a2546882a0c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 17/36] fix: index returns wrong times for samples after the
 first segment

---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 0487e53..ba4118d 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -337,8 +337,8 @@ impl Vsri {
                 // Find the segment where X fits
                 for segment in &self.vsri_segments {
                     if x >= segment[1] && x < (segment[1] + segment[3]) {
-                        // Belongs here! Return Segment TS + the TS interval * x
-                        let y = segment[2] + segment[0] * x;
+                        // Belongs here! Return Segment TS + the TS interval * position in the segment
+                        let y = segment[2] + segment[0] * (x - segment[1]);
                         return Some(y);
                     }
                     continue;
-- 
2.43.0


From 948e684fee96b110d0f606abdab556131c8bfef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/36] fix: looking up a segment with a single sample divides
 by zero

---
 vsri/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index ba4118d..dd6d77d 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -317,6 +317,10 @@ impl Vsri {
             let segment_end_y = y0 + (sample_rate * (num_samples - 1));
 
             if y >= y0 && y <= segment_end_y {
+                // A segment that has a single sample has no rate
+                if sample_rate == 0 {
+                    return Some(segment[1]);
+                }
                 // x = (y - b)/ m
                 // TODO: This can return floats!
                 let x_value = (y - self.calculate_b(segment)) / sample_rate;
-- 
2.43.0


From 3e4ee66a91a4dd1b18bff20b8dedbc07490aa341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 19/36] fix: index moves points that are off the sampling rate
 of the segment

---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index dd6d77d..f54d41d 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -411,7 +411,7 @@ impl Vsri {
         // Then check if x fits the interval for the current line
         // and it has to be the next one in the line
         // x = (y - b)/ m
-        // TODO: Can return float, watch out
+        // If it isn't exact, the point is not in the line
         let x_value = (y - b) / last_segment[0];
         debug!(
             "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
@@ -420,7 +420,7 @@ impl Vsri {
             (last_segment[3] + last_segment[1]),
             x_value
         );
-        x_value == last_segment[3] + last_segment[1]
+        x_value == last_segment[3] + last_segment[1] && (y - b) % last_segment[0] == 0
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 8522a92b0bcb8d41ad1e3e6532034efda6114f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 20/36] fix: index loses samples that share the time of a
 segment start

---
 vsri/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index f54d41d..2be7a75 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -265,13 +265,13 @@ impl Vsri {
             self.vsri_segments.push(self.create_fake_segment(y));
             return Ok(());
         }
-        if self.is_fake_segment() {
+        if self.is_fake_segment() && y != self.current_segment()[2] {
             // In the presence of a fake segment (where m is 0), and a new point, we are now
             // in a situation we can calculate a decent segment
             self.vsri_segments[segment_count - 1] = self.generate_segment(y);
         } else {
-            // Check ownership by the current segment
-            if self.fits_segment(y) {
+            // Check ownership by the current segment, one without a rate can't own the same point twice
+            if !self.is_fake_segment() && self.fits_segment(y) {
                 // It fits, increase the sample count and it's done
                 debug!("[INDEX] Same segment, updating. TS: {}", y);
                 self.vsri_segments[segment_count - 1][3] += 1;
-- 
2.43.0


From 3fff3bd46579c0860cb62dc8e1c8575f9556c83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 21/36] fix: next sample skips to the last segment of the index

---
 vsri/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 2be7a75..ed60c30 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -158,7 +158,7 @@ impl Vsri {
             return None;
         }
         // It wasn't smaller, so let's see if we have a sample that matches
-        for segment in self.vsri_segments.iter().rev() {
+        for segment in &self.vsri_segments {
             let first_sample = segment[1];
             let y0 = segment[2];
             if y <= y0 {
-- 
2.43.0


From 519c20d661537f144396adf24dc2af0d6e77a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 22/36] fix: time range over the end of a segment is reported
 empty

---
 vsri/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index ed60c30..e089895 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -226,8 +226,8 @@ impl Vsri {
                     }
                     // Could this be simplified with Karnaugh map? I'll dig my books later
                     // It starts or ends inside the segment
-                    if (time_segment[0] >= y0 && time_segment[0] < segment_end_y)
-                        || (time_segment[1] < segment_end_y && time_segment[1] >= y0)
+                    if (time_segment[0] >= y0 && time_segment[0] <= segment_end_y)
+                        || (time_segment[1] <= segment_end_y && time_segment[1] >= y0)
                     {
                         return false;
                     }
-- 
2.43.0


From 9a73a7acdf199ddfd8bc221567dcfd62a0194e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 23/36] fix: index arithmetic overflows for long intervals
 after many samples

---
 vsri/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index e089895..938af44 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -293,10 +293,10 @@ impl Vsri {
         self.max_ts
     }
 
-    fn calculate_b(&self, segment: &[i32; 4]) -> i32 {
-        // b = y - mx
+    fn calculate_b(&self, segment: &[i32; 4]) -> i64 {
+        // b = y - mx, that doesn't need to fit an i32
 
-        segment[2] - segment[0] * segment[1]
+        segment[2] as i64 - segment[0] as i64 * segment[1] as i64
     }
 
     /// Returns the most recent (the last) calculated segment
@@ -323,8 +323,8 @@ impl Vsri {
                 }
                 // x = (y - b)/ m
                 // TODO: This can return floats!
-                let x_value = (y - self.calculate_b(segment)) / sample_rate;
-                return Some(x_value);
+                let x_value = (y as i64 - self.calculate_b(segment)) / sample_rate as i64;
+                return Some(x_value as i32);
             }
         }
         None // No matching segment found for the given Y value
@@ -412,7 +412,8 @@ impl Vsri {
         // and it has to be the next one in the line
         // x = (y - b)/ m
         // If it isn't exact, the point is not in the line
-        let x_value = (y - b) / last_segment[0];
+        let rate = last_segment[0] as i64;
+        let x_value = (y as i64 - b) / rate;
         debug!(
             "[INDEX] Fit Calculation (Segment {:?}). b: {},  x: {}, calculated x: {}",
             last_segment,
@@ -420,7 +421,7 @@ impl Vsri {
             (last_segment[3] + last_segment[1]),
             x_value
         );
-        x_value == last_segment[3] + last_segment[1] && (y - b) % last_segment[0] == 0
+        x_value == (last_segment[3] + last_segment[1]) as i64 && (y as i64 - b) % rate == 0
     }
 
     /// Writes the index to the disk
-- 
2.43.0


From 04940107b0a48c3e777d083d6612d715774b16a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 24/36] fix: csv-compressor indexes samples that compression
 drops

---
 csv-compressor/src/metric.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index f508d00..aa7a77d 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -53,7 +53,8 @@ impl Metric {
     }
 
     pub fn append_samples(&mut self, samples: &[Sample]) -> Result<(), Error> {
-        for sample in samples {
+        // Values that aren't finite don't survive the compression, indexing them would shift the others
+        for sample in samples.iter().filter(|s| s.value.is_finite()) {
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
             let ts = day_elapsed_seconds(sample.timestamp / 1000);
             self.vsri
-- 
2.43.0


From 572cf80d94ec34f5d084933e64c8ec4e437448ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 25/36] fix: csv-compressor ignores errors while writing the
 end of a CSV

---
 csv-compressor/src/csv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index a0fdc09..32f6765 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -53,6 +53,7 @@ pub fn write_samples_to_csv_file(dest: &Path, samples: &[Sample]) -> Result<(),
     for sample in samples {
         writer.serialize(sample)?;
     }
+    writer.flush()?;
 
     Ok(())
 }
-- 
2.43.0


From 9e70d294a2881105db88463c6efdf0c4953e42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 26/36] fix: csv-compressor rounds timestamps before 1970
 towards the next second

---
 csv-compressor/src/metric.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csv-compressor/src/metric.rs b/csv-compressor/src/metric.rs
index aa7a77d..771a8c5 100644
--- a/csv-compressor/src/metric.rs
+++ b/csv-compressor/src/metric.rs
@@ -56,7 +56,7 @@ impl Metric {
         // Values that aren't finite don't survive the compression, indexing them would shift the others
         for sample in samples.iter().filter(|s| s.value.is_finite()) {
             // For solution simplification it generates only 1 WavBrro and 1 VSRI
-            let ts = day_elapsed_seconds(sample.timestamp / 1000);
+            let ts = day_elapsed_seconds(sample.timestamp.div_euclid(1000));
             self.vsri
                 .update_for_point(ts)
                 .map_err(|_| Error::UpdateForPointError(sample.clone()))?;
-- 
2.43.0


From 835fe1aa6859214206ae8815043abab6a8ca02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:11 +0000
Subject: [PATCH 27/36] fix: constant and noop report no error whatever they
 store

---
 atsc/src/compressor/constant.rs | 4 +++-
 atsc/src/compressor/mod.rs      | 4 ++--
 atsc/src/compressor/noop.rs     | 8 ++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/constant.rs b/atsc/src/compressor/constant.rs
index cc82e21..5efffc9 100644
--- a/atsc/src/compressor/constant.rs
+++ b/atsc/src/compressor/constant.rs
@@ -17,6 +17,7 @@ limitations under the License.
 use crate::{
     compressor::CompressorResult,
     optimizer::utils::{Bitdepth, DataStats},
+    utils::error::calculate_error,
 };
 
 use super::BinConfig;
@@ -135,7 +136,8 @@ impl Constant {
 pub fn constant_compressor(data: &[f64], stats: DataStats) -> CompressorResult {
     debug!("Initializing Constant Compressor. Error and Stats provided");
     let c = Constant::new(data.len(), stats.min, stats.bitdepth);
-    CompressorResult::new(c.to_bytes(), 0.0)
+    let error = calculate_error(data, &c.to_data(data.len()));
+    CompressorResult::new(c.to_bytes(), error)
 }
 
 pub fn constant_to_data(sample_number: usize, compressed_data: &[u8]) -> Vec<f64> {
diff --git a/atsc/src/compressor/mod.rs b/atsc/src/compressor/mod.rs
index b04ee69..feda9d1 100644
--- a/atsc/src/compressor/mod.rs
+++ b/atsc/src/compressor/mod.rs
@@ -21,7 +21,7 @@ use crate::optimizer::utils::DataStats;
 
 use self::constant::{constant_compressor, constant_to_data};
 use self::fft::{fft, fft_compressor, fft_to_data};
-use self::noop::{noop, noop_to_data};
+use self::noop::{noop, noop_compressor, noop_to_data};
 use self::polynomial::{polynomial, polynomial_allowed_error, to_data, PolynomialType};
 use self::rle::{rle_compressor, rle_to_data};
 
@@ -94,7 +94,7 @@ impl Compressor {
     pub fn get_compress_bounded_results(&self, data: &[f64], max_error: f64) -> CompressorResult {
         let stats = DataStats::new(data);
         match self {
-            Compressor::Noop => CompressorResult::new(noop(data), 0.0),
+            Compressor::Noop => noop_compressor(data),
             Compressor::FFT => fft_compressor(data, max_error, stats),
             Compressor::Constant => constant_compressor(data, stats),
             Compressor::RLE => rle_compressor(data, stats),
diff --git a/atsc/src/compressor/noop.rs b/atsc/src/compressor/noop.rs
index 75b9d63..f5eef7f 100644
--- a/atsc/src/compressor/noop.rs
+++ b/atsc/src/compressor/noop.rs
@@ -14,6 +14,8 @@ See the License for the specific language governing permissions and
 limitations under the License.
 */
 
+use crate::{compressor::CompressorResult, utils::error::calculate_error};
+
 use super::BinConfig;
 use bincode::{Decode, Encode};
 use log::{debug, info};
@@ -76,6 +78,12 @@ pub fn noop(data: &[f64]) -> Vec<u8> {
     c.to_bytes()
 }
 
+pub fn noop_compressor(data: &[f64]) -> CompressorResult {
+    let compressed_data = noop(data);
+    let error = calculate_error(data, &noop_to_data(data.len(), &compressed_data));
+    CompressorResult::new(compressed_data, error)
+}
+
 pub fn noop_to_data(sample_number: usize, compressed_data: &[u8]) -> Vec<f64> {
     let c = Noop::decompress(compressed_data);
     let out_i64 = c.to_data(sample_number);
-- 
2.43.0


From 33f04c06e21f93d64998317dd554fc23cd2aa1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 28/36] fix: wav2wbro writes an empty file for a WAV it can't
 read

---
 tools/src/bin/wav2wbro.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index 7d9c7f2..e87191d 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -36,9 +36,7 @@ fn read_metrics_from_wav(filename: &str) -> Vec<f64> {
     let r_reader = hound::WavReader::open(filename);
     let mut reader = match r_reader {
         Ok(reader) => reader,
-        Err(_err) => {
-            return Vec::new();
-        }
+        Err(err) => panic!("Failed to read the samples of {filename}, err: {err}"),
     };
     let num_channels = reader.spec().channels as usize;
 
-- 
2.43.0


From acd1fed54e8bdbde5683c53c90fb9db3278c6fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 29/36] fix: wav2wbro --validate reports a mismatch when the
 data matches and fails when it doesn't

---
 tools/src/bin/wav2wbro.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tools/src/bin/wav2wbro.rs b/tools/src/bin/wav2wbro.rs
index e87191d..b988db9 100644
--- a/tools/src/bin/wav2wbro.rs
+++ b/tools/src/bin/wav2wbro.rs
@@ -97,9 +97,10 @@ fn main() {
     wb.to_file(Path::new(&wavbrro_file));
     if arguments.validate {
         let brro_data = wb.get_samples();
-        assert_eq!(wav_data, brro_data);
-        println!(
-            "File generated but data doesn't match! Tip: Check if NaN or Infinite is in the data."
-        );
+        if wav_data != brro_data {
+            println!(
+                "File generated but data doesn't match! Tip: Check if NaN or Infinite is in the data."
+            );
+        }
     }
 }
-- 
2.43.0


From e6f3cdd06790131c23480f1197096f909aa16a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 30/36] fix: an index cut short in its first line is loaded
 with a wrong minimum

---
 vsri/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vsri/src/lib.rs b/vsri/src/lib.rs
index 938af44..740dec4 100644
--- a/vsri/src/lib.rs
+++ b/vsri/src/lib.rs
@@ -487,6 +487,12 @@ impl Vsri {
             }
             i += 1;
         }
+        if i < 3 {
+            return Err(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "The index doesn't have its minimum and maximum timestamps",
+            ));
+        }
         Ok(Vsri {
             index_file: filename.to_string(),
             min_ts,
-- 
2.43.0


From 8bb74782a730da73ca3781413b0cef334785c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 31/36] fix: rle: grow the position list of a value in place
 instead of copying it for every run

---
 atsc/src/compressor/rle.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/atsc/src/compressor/rle.rs b/atsc/src/compressor/rle.rs
index 8f43cbf..b3d34aa 100644
--- a/atsc/src/compressor/rle.rs
+++ b/atsc/src/compressor/rle.rs
@@ -154,21 +154,11 @@ impl IndexRLE {
             if i + 1 >= len || data[i + 1] != value {
                 trace!("Value Change! Storing value: {}", value);
                 // Next value is different so store the current index
-                // First check if we have the value in the map
-                match encoded.get(&value.to_bits()) {
-                    Some(indices) => {
-                        trace!("Found value in map: {:?}", indices);
-                        // We have the value in the map, so we need to add the current index
-                        let mut indices = indices.clone();
-                        indices.push(current_index);
-                        encoded.insert(value.to_bits(), indices);
-                    }
-                    None => {
-                        trace!("Not found value in map!");
-                        // We don't have the value in the map, so we need to create a new entry
-                        encoded.insert(value.to_bits(), vec![current_index]);
-                    }
-                }
+                // The list of a value already in the map grows in place
+                encoded
+                    .entry(value.to_bits())
+                    .or_default()
+                    .push(current_index);
                 // Now we need to update the current index (it will start on the next value)
                 current_index = i + 1;
             }
-- 
2.43.0


From a6310755b25f94f754fec50b35591a323fe9515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:31 +0000
Subject: [PATCH 32/36] fix: csv-compressor: write nothing when the index
 doesn't cover the samples

---
 csv-compressor/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csv-compressor/src/main.rs b/csv-compressor/src/main.rs
index a56dd0c..ef3ce7f 100644
--- a/csv-compressor/src/main.rs
+++ b/csv-compressor/src/main.rs
@@ -162,6 +162,8 @@ fn process_args(args: Args) {
             let index = Vsri::load(vsri_file_path.to_str().unwrap()).expect("failed to read vsri");
 
             let metric = Metric::new(wbro, index);
+            // Fails when the index doesn't cover the samples, so nothing is written before
+            let samples = metric.get_samples();
 
             let mut file_path = output_base.clone();
             file_path.set_extension("wbro");
@@ -169,8 +171,6 @@ fn process_args(args: Args) {
             debug!("Writing uncompressed wavbrro to disk, path: {file_path:?}");
             WavBrro::to_file_with_data(&file_path, &decompressed_data);
 
-            let samples = metric.get_samples();
-
             // creating csv output file
             let mut csv_file_path = file_path.clone();
             csv_file_path.set_extension("csv");
-- 
2.43.0


From c028cd17f2e91c8017579342c1fd7f24b6c6d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 33/36] fix: fft: the highest frequencies of a frame of the
 maximum size wrap to low ones

A frame of 131072 samples is padded to 139968, which has frequencies up to position 69984. The
position was cut to 16 bits. Positions are encoded with a variable size, so the ones below 65536
keep their encoding.
---
 atsc/src/compressor/fft.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atsc/src/compressor/fft.rs b/atsc/src/compressor/fft.rs
index f206dbe..4d0fbb0 100644
--- a/atsc/src/compressor/fft.rs
+++ b/atsc/src/compressor/fft.rs
@@ -33,13 +33,13 @@ const DECIMAL_PRECISION: u8 = 5;
 #[derive(Encode, Decode, Debug, Copy, Clone)]
 pub struct FrequencyPoint {
     /// Frequency position
-    pos: u16, // This is the reason that frame size is limited to 65535, probably enough
+    pos: u32, // A padded frame of the maximum size has positions that don't fit 16 bits
     freq_real: f32,
     freq_img: f32,
 }
 
 impl FrequencyPoint {
-    pub fn from_complex_with_position(complex: Complex<f32>, pos: u16) -> Self {
+    pub fn from_complex_with_position(complex: Complex<f32>, pos: u32) -> Self {
         FrequencyPoint {
             pos,
             freq_real: complex.re,
@@ -239,7 +239,7 @@ impl FFT {
         let tmp_vec: Vec<FrequencyPoint> = buffer
             .iter()
             .enumerate()
-            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u16))
+            .map(|(pos, &f)| FrequencyPoint::from_complex_with_position(f, pos as u32))
             .collect();
         // This part, is because Binary heap is very good at "give me the top N elements"
         let mut heap = BinaryHeap::from(tmp_vec);
-- 
2.43.0


From e1b872758f2ab32cde6f16f18088fbfba1403cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:01 +0000
Subject: [PATCH 34/36] fix: polynomial: a step over 255 is cut to its low byte

---
 atsc/src/compressor/polynomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atsc/src/compressor/polynomial.rs b/atsc/src/compressor/polynomial.rs
index 4a65865..0697e9e 100644
--- a/atsc/src/compressor/polynomial.rs
+++ b/atsc/src/compressor/polynomial.rs
@@ -284,8 +284,8 @@ impl Polynomial {
         let data_len = data.len();
         // Instead of calculation, we use the provided count
         let point_count = points;
-        // Step size
-        let step = (data_len / point_count).max(1);
+        // Step size, it has to fit the single byte it is stored in
+        let step = (data_len / point_count).clamp(1, u8::MAX.into());
         // I can calculate the positions from here
         let mut points: Vec<f64> = (0..data_len).step_by(step).map(|f| f as f64).collect();
         // Pushing the last value if needed (and if data is not empty)
-- 
2.43.0


From 1f3e4e7793bea8a9d8825b3d6f01e37becc41c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:46 +0000
Subject: [PATCH 35/36] fix: csv-compressor: a read error at the start of the
 CSV passes for an empty file

---
 csv-compressor/src/csv.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/csv-compressor/src/csv.rs b/csv-compressor/src/csv.rs
index 32f6765..8d0e92f 100644
--- a/csv-compressor/src/csv.rs
+++ b/csv-compressor/src/csv.rs
@@ -43,6 +43,8 @@ impl Sample {
 pub fn read_samples_from_csv_file(dest: &Path) -> Result<Vec<Sample>, csv::Error> {
     let file = OpenOptions::new().read(true).open(dest)?;
     let mut reader = csv::Reader::from_reader(file);
+    // On its own, deserialize() takes headers that can't be read for the end of the file
+    reader.headers()?;
     reader.deserialize().collect()
 }
 
-- 
2.43.0


From 781f2db0f511089df286254044e66511de151d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:23 +0000
Subject: [PATCH 36/36] fix: a directory run reports success when an output
 can't be written

---
 atsc/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/atsc/src/main.rs b/atsc/src/main.rs
index 325d734..53e98b6 100644
--- a/atsc/src/main.rs
+++ b/atsc/src/main.rs
@@ -48,6 +48,7 @@ fn process_args(arguments: &Args) -> Result<(), Box<dyn Error>> {
 }
 
 fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
+    let mut unwritten = Ok(());
     // Assuming you want to process each file inside this directory
     for entry in std::fs::read_dir(arguments.input.clone())? {
         let path = entry?.path();
@@ -59,11 +60,18 @@ fn process_directory(arguments: &Args) -> Result<(), Box<dyn Error>> {
                 //NOTE: Due to the way read_dir works, it seems we can't do much about this except collecting
                 //      before and then iterating. But that might lead to a MASSIVE array. So it keeps a `funny` output
                 //      output for the time beeing.
-                Err(err) => error!("{} File: {}", err, path.display()),
+                Err(err) => {
+                    error!("{} File: {}", err, path.display());
+                    // What can't be read is skipped and has an error of its reader, unless it is a BRO,
+                    // but when an output can't be written (which panics for a WBRO) this isn't a success
+                    if !arguments.uncompress && err.is::<std::io::Error>() {
+                        unwritten = Err(err);
+                    }
+                }
             }
         }
     }
-    Ok(())
+    unwritten
 }
 
 fn process_single_file(mut file_path: PathBuf, arguments: &Args) -> Result<(), Box<dyn Error>> {
-- 
2.43.0


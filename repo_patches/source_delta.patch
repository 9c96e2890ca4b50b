From c9b1cca6b0447fe56a66b020b304007e341d143a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 01/15] fix: strip the length header when data is decoded
 without an LDPC code

encode prepends a two-byte length for every capacity, decode only removed it
when a code applied, so payloads embedded at most capacities (any that is not
exactly 16, 32, 64, 128, 256, 512 or at least 1024 bytes) could not be read back.
---
 lib/sia/rust/encoding/src/lib.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 3fd5811..42c03a9 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -109,7 +109,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
 
     // let code_option = get_code_for_decode(bits_length);
     let code_option = get_code_by_codeword_length(codeword_length);
-    match code_option {
+    let decoded_bytes = match code_option {
         None => bytes.clone(),
         Some(code) => {
             let mut decoded_bytes = vec![];
@@ -129,18 +129,20 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
                 decoded_bytes.append(&mut decoded_word_bytes);
             }
 
-            // Get data bytes length
-            let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
+            decoded_bytes
+        }
+    };
 
-            println!("expected data bytes length: {:?}", bytes_length);
+    // Get data bytes length
+    let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
 
-            // Return decoded data
-            let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
+    println!("expected data bytes length: {:?}", bytes_length);
 
-            //println!("decoded bytes: {:?}", decoded_bytes);
-            decoded_bytes
-        }
-    }
+    // Return decoded data
+    let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
+
+    //println!("decoded bytes: {:?}", decoded_bytes);
+    decoded_bytes
 }
 
 #[cfg(test)]
-- 
2.43.0


From 406d17100e410c88e1cdeacec677f564a4e45f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 02/15] fix: decode only whole codewords

A capacity that is not a multiple of the codeword length leaves a partial
chunk at the end; the decoder asserts on its length and panicked.
---
 lib/sia/rust/encoding/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 42c03a9..08551c0 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -113,7 +113,7 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         None => bytes.clone(),
         Some(code) => {
             let mut decoded_bytes = vec![];
-            let code_words = bytes.chunks(code.n() / 8);
+            let code_words = bytes.chunks_exact(code.n() / 8);
             println!("use LDPC code: ({:?}, {:?})", code.k(), code.n());
             println!("codewords to be decoded: {:?}", code_words.len());
 
-- 
2.43.0


From a0702aa3f3588f16ca9e4d311ab9800922c727d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 03/15] fix: walk non-square embedding domains row by row

The column was taken modulo the number of rows, so a domain with more columns
than rows stored several bits in the same coefficient and one with more rows
than columns ran out of bounds.
---
 lib/sia/rust/embedding/src/io/steganography.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/steganography.rs b/lib/sia/rust/embedding/src/io/steganography.rs
index 76cddb5..d2f22b3 100644
--- a/lib/sia/rust/embedding/src/io/steganography.rs
+++ b/lib/sia/rust/embedding/src/io/steganography.rs
@@ -19,9 +19,9 @@ pub fn get_capacity(width: usize, height: usize) -> usize {
     ((width * height) as f64 / 8.).floor() as usize
 }
 
-fn get_column_and_row(offset: usize, width: usize, height: usize) -> (usize, usize) {
-    let column = offset % width;
-    let row = (offset as f64 / height as f64).floor() as usize;
+fn get_column_and_row(offset: usize, columns: usize) -> (usize, usize) {
+    let column = offset % columns;
+    let row = offset / columns;
     (column, row)
 }
 
@@ -57,8 +57,8 @@ impl<'a> WatermarkToDwtCoefficientsWriter<'a> {
 
     fn write_bit(&mut self, bit: bool) {
         let reminder = if bit { 0.25 } else { -0.25 };
-        let (width, height) = self.domain.dim();
-        let (column, row) = get_column_and_row(self.offset, width, height);
+        let (_rows, columns) = self.domain.dim();
+        let (column, row) = get_column_and_row(self.offset, columns);
 
         let coefficient = self.domain.get_mut(Ix2(row, column)).unwrap();
         //let original_coefficient = coefficient.clone();
@@ -127,8 +127,8 @@ impl<'a> WatermarkFromDwtCoefficientsReader<'a> {
     }
 
     fn read_bit(&mut self) -> bool {
-        let (width, height) = self.domain.dim();
-        let (column, row) = get_column_and_row(self.offset, width, height);
+        let (_rows, columns) = self.domain.dim();
+        let (column, row) = get_column_and_row(self.offset, columns);
 
         let coefficient_option = self.domain.get(Ix2(row, column));
         match coefficient_option {
-- 
2.43.0


From d08bbf82bc9c15ada04f29f3d3431e5a4c0ada4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 04/15] fix: calculate Zernike moments of non-square images

The weight matrix was built from the first dimension alone and indexed by the
flat pixel number: an image with a greater second dimension panicked, and any
other non-square one paired pixels with the weights of other positions.
---
 lib/sia/rust/zernike/src/calc.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sia/rust/zernike/src/calc.rs b/lib/sia/rust/zernike/src/calc.rs
index 37f2b5c..3569876 100644
--- a/lib/sia/rust/zernike/src/calc.rs
+++ b/lib/sia/rust/zernike/src/calc.rs
@@ -12,15 +12,15 @@ pub fn calculate_zernike_image_moment(
 ) -> Complex<f64> {
     let (width, height) = image.dim();
 
-    let zernike_matrix_vector = get_zernike_matrix(order, index as isize, width).into_raw_vec();
+    // a non-square image is placed on the smallest square which covers it
+    let zernike_matrix = get_zernike_matrix(order, index as isize, width.max(height));
 
     let integral =
         image
-            .iter()
-            .enumerate()
+            .indexed_iter()
             .fold(Complex::new(0., 0.), |accumulator, (i, &next)| {
                 let next_pixel = next as f64;
-                let zernike_multiplier = zernike_matrix_vector.get(i).unwrap();
+                let zernike_multiplier = zernike_matrix[i];
 
                 return accumulator + zernike_multiplier * next_pixel;
             });
-- 
2.43.0


From 12247eece884523f9957b77004175963370f1acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 05/15] fix: shape channels as rows by columns

Image buffers are row-major, so a channel is a [height, width] matrix. The
transposed shape cut the rows of a non-square image at the wrong places, which
spread each embedded coefficient over stripes instead of one pixel block.
---
 lib/sia/rust/watermarking/src/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index f5729ef..8a678e1 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -24,7 +24,7 @@ pub fn watermark_channel(
     let raw_data = Vec::from(channel.as_raw().clone());
 
     let &(width, height) = &channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
@@ -76,7 +76,7 @@ pub fn authenticate_channel(
 ) -> bool {
     let raw_data = Vec::from(channel.as_raw().clone());
     let (width, height) = channel.dimensions();
-    let shape = [width as usize, height as usize];
+    let shape = [height as usize, width as usize];
     let pixels_array = Array2::from_shape_vec(shape, raw_data).unwrap();
 
     // 1. Calculate channel features
-- 
2.43.0


From 256b3678c7ef77e12f963977750525f5f56820ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 06/15] fix: reject a malformed signature instead of panicking

A signature of a wrong length, or with high bits set in its last byte, is just
not authentic: verify returns false for it.
---
 lib/sia/rust/signature/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 1b418d6..92c68d4 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -34,8 +34,10 @@ pub fn verify(data: &Vec<u8>, signature: &Vec<u8>, public_key: &str) -> bool {
 
     let verifier = DSVerifier { verify_key };
 
-    let sig = Signature::from_bytes(signature.as_slice()).unwrap();
-    verifier.verify(data.as_slice(), &sig).is_ok()
+    match Signature::from_bytes(signature.as_slice()) {
+        Ok(sig) => verifier.verify(data.as_slice(), &sig).is_ok(),
+        Err(_) => false,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9eca68767693b7b0e890c7909c0b264db9dfaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 07/15] fix: read back an empty payload

An empty payload serializes to its two-byte header alone, which deserialize
refused as too short.
---
 lib/sia/rust/embedding/src/io/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 921eec4..0c6bbec 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -29,7 +29,7 @@ impl Data {
 pub fn deserialize(bytes: &Vec<u8>) -> Data {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
-    if length < 3 {
+    if length < 2 {
         panic!("too short data");
     }
 
-- 
2.43.0


From 0529dad74631e69629b9441162ab87551e626031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 08/15] fix: refuse to encode data longer than its length
 header can tell

The length was truncated to 16 bits, so longer data was cut silently when
decoded.
---
 lib/sia/rust/encoding/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 08551c0..6f32cc5 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -49,6 +49,10 @@ fn get_code_for_decode(length: usize) -> Option<LDPCCode> {
 }
 
 pub fn encode(input: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    if input.len() > u16::MAX as usize {
+        panic!("too long data to be encoded: {:?}", input.len());
+    }
+
     // Prepend input data with amount of bytes
     let bytes_length = input.len() as u16;
     let (length_byte1, length_byte2) = u16_to_bytes(bytes_length);
-- 
2.43.0


From 4554abfc2765637cc7e9ff2c38dc7ab5c1fe9d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 09/15] fix: restore quantized features on the integers

Adding a step to the noised feature and quantizing the sum again can round over
a bin boundary: with step 1, a feature 1.0 noised to 0.9999999999999999 was
restored as 2. The quantized value is moved by one bin instead.
---
 .../rust/three-bit-quantization/src/lib.rs    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/sia/rust/three-bit-quantization/src/lib.rs b/lib/sia/rust/three-bit-quantization/src/lib.rs
index 8e4dc21..0dc950c 100644
--- a/lib/sia/rust/three-bit-quantization/src/lib.rs
+++ b/lib/sia/rust/three-bit-quantization/src/lib.rs
@@ -110,15 +110,14 @@ pub fn three_bit_dequantization(
         .map(|chunk| chunk)
         .collect();
 
-    let restored_features = given_perturbation_vector
+    given_perturbation_vector
         .chunks(3)
         .enumerate()
         .map(|(i, given_perturbation_bits)| {
             let calculated_perturbation_bits =
                 *calculated_perturbation_vector_chunks.get(i).unwrap();
 
-            let noised_feature: f64 = *(*noised_features).get(i).unwrap();
-            //let noised_quantized_feature: i64 = *(*noised_quantized_features).get(i).unwrap();
+            let noised_quantized_feature: i64 = *noised_quantized_features.get(i).unwrap();
 
             let given_bit1 = given_perturbation_bits.get(0).unwrap().as_u8();
             let given_bit2 = given_perturbation_bits.get(1).unwrap().as_u8();
@@ -154,20 +153,18 @@ pub fn three_bit_dequantization(
             );*/
 
             if a == 0 && given_bit3 == 0 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 0 && given_bit3 == 1 && calculated_bit3 == 1 {
-                noised_feature + step
+                noised_quantized_feature + 1
             } else if a == 1 && given_bit3 == 1 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else if a == 1 && given_bit3 == 0 && calculated_bit3 == 0 {
-                noised_feature - step
+                noised_quantized_feature - 1
             } else {
-                noised_feature
+                noised_quantized_feature
             }
         })
-        .collect();
-
-    quantize(&restored_features, step)
+        .collect()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1b75feed172c8b19b2ba3fc0dab52fc8eab70bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 10/15] fix: give a negative verdict for an image without a
 valid watermark

Extraction from an image which carries no watermark, a damaged one, or which
has a size no watermark fits in, panicked on whatever lengths it happened to
read. The parsers report malformed data now and authenticate_channel answers
false for it.
---
 lib/sia/rust/embedding/src/io/data.rs      | 10 +++++++---
 lib/sia/rust/embedding/src/lib.rs          | 22 ++++++++++++++++++----
 lib/sia/rust/encoding/src/lib.rs           | 14 ++++++++++----
 lib/sia/rust/watermarking/src/process.rs   | 19 +++++++++++++++----
 lib/sia/rust/watermarking/src/watermark.rs | 18 ++++++++++++------
 5 files changed, 62 insertions(+), 21 deletions(-)

diff --git a/lib/sia/rust/embedding/src/io/data.rs b/lib/sia/rust/embedding/src/io/data.rs
index 0c6bbec..85ccf4a 100644
--- a/lib/sia/rust/embedding/src/io/data.rs
+++ b/lib/sia/rust/embedding/src/io/data.rs
@@ -27,10 +27,14 @@ impl Data {
 }
 
 pub fn deserialize(bytes: &Vec<u8>) -> Data {
+    try_deserialize(bytes).expect("malformed serialized data")
+}
+
+pub fn try_deserialize(bytes: &Vec<u8>) -> Option<Data> {
     println!("serialized data bytes: {:?}", bytes);
     let length = bytes.len();
     if length < 2 {
-        panic!("too short data");
+        return None;
     }
 
     let data_length_bytes = &bytes[0..2];
@@ -43,10 +47,10 @@ pub fn deserialize(bytes: &Vec<u8>) -> Data {
     let data_end = data_start + data_length as usize;
     println!("data bytes: ({:?} - {:?})", data_start, data_end);
 
-    let data_bytes: Vec<u8> = bytes[data_start..data_end].to_vec();
+    let data_bytes: Vec<u8> = bytes.get(data_start..data_end)?.to_vec();
     let data = Data::new(data_bytes);
     println!("deserialized data: {:?}", data);
-    data
+    Some(data)
 }
 
 #[cfg(test)]
diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index b070bcf..343558b 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -3,7 +3,7 @@ extern crate ndarray;
 use ndarray::{Array2, Axis, Ix};
 
 use crate::haar::dwt_2d;
-use crate::io::data::{deserialize, Data};
+use crate::io::data::{try_deserialize, Data};
 
 mod haar;
 mod io;
@@ -55,8 +55,22 @@ pub fn embed(
 }
 
 pub fn extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Vec<u8> {
+    try_extract(image_matrix, depth, dwt_levels).expect("no embedded data is found")
+}
+
+/// Returns None if the image can not hold data or what it holds is malformed
+pub fn try_extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Option<Vec<u8>> {
     let (width, height) = image_matrix.dim();
 
+    let block_size = (2 as usize).pow(dwt_levels as u32);
+    let capacity = io::steganography::get_capacity(width / block_size, height / block_size);
+    if width % block_size != 0
+        || height % block_size != 0
+        || encoding::get_code_for_encode(capacity).is_none()
+    {
+        return None;
+    }
+
     // 1. perform forward Haar 2D multi-level DWT
     let input_float_matrix = image_matrix.mapv(|elem| elem as f64);
     let mut dwt_coefficients = dwt_2d(input_float_matrix, dwt_levels, false);
@@ -75,10 +89,10 @@ pub fn extract(image_matrix: Array2<u8>, depth: f64, dwt_levels: usize) -> Vec<u
     let extracted = io::read(&ll3, depth);
 
     let domain_capacity = get_domain_capacity(ll3_width, ll3_height);
-    let decoded = encoding::decode(extracted, domain_capacity);
+    let decoded = encoding::try_decode(extracted, domain_capacity)?;
 
-    let data = deserialize(&decoded);
-    data.bytes
+    let data = try_deserialize(&decoded)?;
+    Some(data.bytes)
 }
 
 #[cfg(test)]
diff --git a/lib/sia/rust/encoding/src/lib.rs b/lib/sia/rust/encoding/src/lib.rs
index 6f32cc5..e00b6d7 100644
--- a/lib/sia/rust/encoding/src/lib.rs
+++ b/lib/sia/rust/encoding/src/lib.rs
@@ -106,6 +106,11 @@ fn pad_bits(input: &BitVec<u8>, length: usize) -> BitVec<u8> {
 }
 
 pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
+    try_decode(bytes, codeword_length).expect("malformed encoded data")
+}
+
+/// Returns None if the decoded length header does not fit the decoded data
+pub fn try_decode(bytes: Vec<u8>, codeword_length: usize) -> Option<Vec<u8>> {
     let bits: BitVec<u8, Lsb0> = BitVec::from_vec(bytes.clone());
 
     let bits_length = bits.len();
@@ -137,16 +142,17 @@ pub fn decode(bytes: Vec<u8>, codeword_length: usize) -> Vec<u8> {
         }
     };
 
+    if decoded_bytes.len() < 2 {
+        return None;
+    }
+
     // Get data bytes length
     let bytes_length = bytes_to_u16(decoded_bytes[0], decoded_bytes[1]) as usize;
 
     println!("expected data bytes length: {:?}", bytes_length);
 
     // Return decoded data
-    let decoded_bytes = Vec::from(&decoded_bytes[2..bytes_length + 2]);
-
-    //println!("decoded bytes: {:?}", decoded_bytes);
-    decoded_bytes
+    decoded_bytes.get(2..bytes_length + 2).map(Vec::from)
 }
 
 #[cfg(test)]
diff --git a/lib/sia/rust/watermarking/src/process.rs b/lib/sia/rust/watermarking/src/process.rs
index 8a678e1..23fa852 100644
--- a/lib/sia/rust/watermarking/src/process.rs
+++ b/lib/sia/rust/watermarking/src/process.rs
@@ -2,14 +2,14 @@ use image::{GenericImage, GenericImageView, GrayImage, ImageBuffer, Luma};
 use imageproc::contrast::equalize_histogram;
 use ndarray::{Array2, Dim, Ix2};
 
-use embedding::{embed, extract};
+use embedding::{embed, try_extract};
 use image_features::calculate_features;
 use image_features::feature_types::FeaturesType;
 use signature::{sign, verify};
 use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
 use utils::bytes::vec_i64_to_bytes;
 
-use crate::watermark::{deserialize, Watermark};
+use crate::watermark::{try_deserialize, Watermark};
 
 const PRIVATE_KEY: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
 const PUBLIC_KEY: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
@@ -92,12 +92,23 @@ pub fn authenticate_channel(
     println!("features: {:?}", features);
 
     // 2. Extract watermark data
-    let extracted_data = extract(pixels_array, embedding_depth, dwt_levels);
+    let extracted_data = match try_extract(pixels_array, embedding_depth, dwt_levels) {
+        Some(data) => data,
+        None => return false,
+    };
     println!("extracted watermark data: {:?}", extracted_data);
 
-    let watermark = deserialize(&extracted_data);
+    let watermark = match try_deserialize(&extracted_data) {
+        Some(watermark) => watermark,
+        None => return false,
+    };
     println!("deserialized watermark data: {:?}", watermark);
 
+    // three bits are stored per feature
+    if watermark.perturbation_vector.len() != 3 * features.len() {
+        return false;
+    }
+
     let quantized_features = three_bit_dequantization(
         &features,
         &watermark.perturbation_vector,
diff --git a/lib/sia/rust/watermarking/src/watermark.rs b/lib/sia/rust/watermarking/src/watermark.rs
index 1bb5df4..9113bb2 100644
--- a/lib/sia/rust/watermarking/src/watermark.rs
+++ b/lib/sia/rust/watermarking/src/watermark.rs
@@ -51,9 +51,13 @@ impl Watermark {
 }
 
 pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
+    try_deserialize(bytes).expect("malformed watermark data")
+}
+
+pub fn try_deserialize(bytes: &Vec<u8>) -> Option<Watermark> {
     let length = bytes.len();
     if length < 3 {
-        panic!("too short data");
+        return None;
     }
 
     let perturbation_vector_length = *bytes.get(0).unwrap() as usize;
@@ -72,13 +76,15 @@ pub fn deserialize(bytes: &Vec<u8>) -> Watermark {
     let t_end = t_start + text_length;
     // println!("t: ({:?} - {:?})", t_start, t_end);
 
-    let p: BitVec<u8> =
-        perturbation_vector_from_bytes(&bytes[p_start..p_end].to_vec(), perturbation_vector_length);
-    let s: Vec<u8> = bytes[s_start..s_end].to_vec();
+    let p: BitVec<u8> = perturbation_vector_from_bytes(
+        &bytes.get(p_start..p_end)?.to_vec(),
+        perturbation_vector_length,
+    );
+    let s: Vec<u8> = bytes.get(s_start..s_end)?.to_vec();
 
-    let t: String = String::from_utf8(bytes[t_start..t_end].to_vec()).unwrap();
+    let t: String = String::from_utf8(bytes.get(t_start..t_end)?.to_vec()).ok()?;
 
-    Watermark::new(p, s, t)
+    Some(Watermark::new(p, s, t))
 }
 
 #[cfg(test)]
-- 
2.43.0


From a4d09f7b24ab85fbd47455d51c2d7c53b58c2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 11/15] hooks: expose internal items to the verification
 harness under cfg(sia_verif)

---
 lib/sia/rust/embedding/src/lib.rs    | 5 +++++
 lib/sia/rust/signature/src/lib.rs    | 5 +++++
 lib/sia/rust/watermarking/src/lib.rs | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/lib/sia/rust/embedding/src/lib.rs b/lib/sia/rust/embedding/src/lib.rs
index 343558b..058fec1 100644
--- a/lib/sia/rust/embedding/src/lib.rs
+++ b/lib/sia/rust/embedding/src/lib.rs
@@ -8,6 +8,11 @@ use crate::io::data::{try_deserialize, Data};
 mod haar;
 mod io;
 
+#[cfg(sia_verif)]
+pub mod verif_hooks {
+    pub use crate::haar::dwt_2d;
+}
+
 fn get_domain_capacity(domain_width: usize, domain_height: usize) -> usize {
     let capacity = io::steganography::get_capacity(domain_width, domain_height);
     println!("domain capacity: {:?} bytes", capacity);
diff --git a/lib/sia/rust/signature/src/lib.rs b/lib/sia/rust/signature/src/lib.rs
index 92c68d4..0cbc638 100644
--- a/lib/sia/rust/signature/src/lib.rs
+++ b/lib/sia/rust/signature/src/lib.rs
@@ -8,6 +8,11 @@ use crate::ecdsa::{DalekSigner, DalekVerifier};
 mod ecdsa;
 mod keypair;
 
+#[cfg(sia_verif)]
+pub mod verif_hooks {
+    pub use crate::keypair::generate;
+}
+
 pub type DSSigner = DalekSigner<Keypair>;
 pub type DSVerifier = DalekVerifier<PublicKey>;
 
diff --git a/lib/sia/rust/watermarking/src/lib.rs b/lib/sia/rust/watermarking/src/lib.rs
index 581e3ce..2155c4b 100644
--- a/lib/sia/rust/watermarking/src/lib.rs
+++ b/lib/sia/rust/watermarking/src/lib.rs
@@ -3,6 +3,12 @@ extern crate core;
 mod process;
 mod watermark;
 
+#[cfg(sia_verif)]
+pub mod verif_hooks {
+    pub use crate::process::{authenticate_channel, watermark_channel};
+    pub use crate::watermark::{try_deserialize, Watermark};
+}
+
 use crate::process::watermark_channel;
 use image::{
     imageops, DynamicImage, GenericImage, GenericImageView, ImageBuffer, Luma, Pixel, Rgba,
-- 
2.43.0


From 213b490f5a6d0ae440d355981678c7458e50da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:48 +0000
Subject: [PATCH 12/15] fix: encode the output image before writing it

---
 lib/sia/rust/cli/src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/sia/rust/cli/src/main.rs b/lib/sia/rust/cli/src/main.rs
index b6cec75..553dfec 100644
--- a/lib/sia/rust/cli/src/main.rs
+++ b/lib/sia/rust/cli/src/main.rs
@@ -1,6 +1,6 @@
 extern crate getopts;
 
-use std::fs::File;
+use std::io::Cursor;
 use std::path::Path;
 use std::time::Instant;
 use std::{env, fs};
@@ -54,13 +54,12 @@ fn process(inputs: &Vec<String>, suffix_option: Option<String>, output_option: O
                     );
                 }
 
-                let mut output_file = File::create(output_path.as_str()).unwrap();
+                // encoders may swallow errors of the last writes, so encode before writing
+                let mut encoded = Cursor::new(Vec::new());
                 watermarked
-                    .write_to(
-                        &mut output_file,
-                        ImageFormat::from_path(&output_path).unwrap(),
-                    )
+                    .write_to(&mut encoded, ImageFormat::from_path(&output_path).unwrap())
                     .unwrap();
+                fs::write(output_path.as_str(), encoded.into_inner()).unwrap();
 
                 println!(
                     "Watermarked {} ({} -> {} channels) in {}",
-- 
2.43.0


From 60fc4d4cb60095a2ee6f73f9265aebb953b77a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 13/15] fix: accept data addresses of every image type

The types of some images hold plus signs, dashes, dots or parameters (image/svg+xml,
image/x-portable-anymap, image/vnd.microsoft.icon). Their addresses were not recognised, and
decoding them failed.
---
 src/Content/utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Content/utils.ts b/src/Content/utils.ts
index cc165a9..8222a94 100644
--- a/src/Content/utils.ts
+++ b/src/Content/utils.ts
@@ -5,7 +5,7 @@ import {
 } from 'sia-watermarking-lib';
 import { ImageModel, WatermarkingProcess } from './image';
 
-const mimeRegex = /^data:image\/[a-zA-Z0-9]+;base64,/;
+const mimeRegex = /^data:image\/[^,]+;base64,/;
 
 const removeMime = (dataUri: string) => dataUri.replace(mimeRegex, '');
 
-- 
2.43.0


From 09b24d82d8986c6f56099995229fec532c31ec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 14/15] fix: show the file chosen last

Files are read asynchronously. When the reading of a file ended after that of one chosen later,
the preview went back to the earlier one.
---
 src/Content/Content.tsx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Content/Content.tsx b/src/Content/Content.tsx
index 36e2c21..0e167c3 100644
--- a/src/Content/Content.tsx
+++ b/src/Content/Content.tsx
@@ -1,4 +1,4 @@
-import React, { useEffect, useState } from 'react';
+import React, { useEffect, useRef, useState } from 'react';
 import WatermarkingPreview from '../WatermarkingPreview/WatermarkingPreview';
 import init from 'sia-watermarking-lib';
 import * as loadImage from './peppers.jpg';
@@ -27,6 +27,7 @@ const Content = (_: ContentProps) => {
     WatermarkingProcess | undefined,
     React.Dispatch<React.SetStateAction<WatermarkingProcess | undefined>>,
   ] = useState();
+  const chosenFile = useRef<File>();
 
   useEffect(() => {
     init().then(async () => {
@@ -36,8 +37,11 @@ const Content = (_: ContentProps) => {
   }, []);
 
   const loadImageFromFile = (file: File) => {
+    chosenFile.current = file;
     fileToBase64(file).then(base64EncodedImage => {
-      setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      if (chosenFile.current === file) {
+        setWatermarkingProcess(getWatermarkingProcess(base64EncodedImage));
+      }
     });
   };
 
-- 
2.43.0


From 4f93b4a5d3dc5eef3c7f4de1fe13a6cfe3b8ad85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:47 +0000
Subject: [PATCH 15/15] fix: report hexadecimal text with a sign, a lone digit
 or another character as an error

---
 lib/sia/rust/utils/src/format.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/sia/rust/utils/src/format.rs b/lib/sia/rust/utils/src/format.rs
index d89c5e1..a3ec3ab 100644
--- a/lib/sia/rust/utils/src/format.rs
+++ b/lib/sia/rust/utils/src/format.rs
@@ -1,10 +1,17 @@
 use std::{fmt::Write, num::ParseIntError};
 
 pub fn decode_hex(s: &str) -> Result<Vec<u8>, ParseIntError> {
-    (0..s.len())
-        .step_by(2)
-        .map(|i| u8::from_str_radix(&s[i..i + 2], 16))
-        .collect()
+    // digit by digit, because a longer text may begin with a sign
+    let digit = |c: Option<char>| {
+        u8::from_str_radix(&c.map(String::from).unwrap_or_default(), 16)
+    };
+
+    let mut chars = s.chars();
+    let mut bytes = Vec::with_capacity(s.len() / 2);
+    while let Some(high) = chars.next() {
+        bytes.push(digit(Some(high))? << 4 | digit(chars.next())?);
+    }
+    Ok(bytes)
 }
 
 pub fn encode_hex(bytes: &[u8]) -> String {
-- 
2.43.0


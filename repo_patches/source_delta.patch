From 3b7ad8e2453dfc8ad5d2353e982f78b50036cceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 01/37] fix: collect the pixels of a sub-image row by row

---
 src/image/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index aa14c82..03ae501 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -293,8 +293,8 @@ impl<T: Number> Image<T> {
 
         let mut data = Vec::new();
 
-        for i in x..(x + width) {
-            for j in y..(y + height) {
+        for j in y..(y + height) {
+            for i in x..(x + width) {
                 data.push(self.get_pixel(i, j));
             }
         }
-- 
2.43.0


From bf1983daf326d6d59d8e1a10dc69750fefd39500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 02/37] fix: clamp neighbourhood coordinates to the nearest
 edge pixel

---
 src/image/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/image/mod.rs b/src/image/mod.rs
index 03ae501..bcc8f61 100644
--- a/src/image/mod.rs
+++ b/src/image/mod.rs
@@ -319,7 +319,7 @@ impl<T: Number> Image<T> {
 
             for i in 0..size {
                 let mut curr_y = start_y + (i as i32);
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                curr_y = curr_y.max(0).min(self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(x, curr_y as u32));
             }
@@ -330,7 +330,7 @@ impl<T: Number> Image<T> {
 
             for i in 0..size {
                 let mut curr_x = start_x + (i as i32);
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
+                curr_x = curr_x.max(0).min(self.info.width as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, y));
             }
@@ -357,8 +357,8 @@ impl<T: Number> Image<T> {
                 let mut curr_x = start_x + (j as i32);
                 let mut curr_y = start_y + (i as i32);
 
-                if curr_x < 0 || curr_x >= self.info.width as i32 { curr_x = x as i32 };
-                if curr_y < 0 || curr_y >= self.info.height as i32 { curr_y = y as i32 };
+                curr_x = curr_x.max(0).min(self.info.width as i32 - 1);
+                curr_y = curr_y.max(0).min(self.info.height as i32 - 1);
 
                 data.push(self.get_pixel(curr_x as u32, curr_y as u32));
             }
-- 
2.43.0


From c44da14841c6ccb370936228c3149ffc04db9168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 03/37] fix: size hint of the pixel iterator and iteration over
 empty images

---
 src/image/pixel_iter.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/image/pixel_iter.rs b/src/image/pixel_iter.rs
index 798e9af..7759b4f 100644
--- a/src/image/pixel_iter.rs
+++ b/src/image/pixel_iter.rs
@@ -30,8 +30,8 @@ pub struct PixelIter<'a, T: Number> {
     image: &'a Image<T>,
     x: u32,
     y: u32,
-    x_max: u32,
-    y_max: u32,
+    width: u32,
+    height: u32,
 }
 
 impl<'a, T: Number> PixelIter<'a, T> {
@@ -40,8 +40,8 @@ impl<'a, T: Number> PixelIter<'a, T> {
             image,
             x: 0,
             y: 0,
-            x_max: image.info().width - 1,
-            y_max: image.info().height - 1,
+            width: image.info().width,
+            height: image.info().height,
         }
     }
 }
@@ -50,13 +50,12 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     type Item = (u32, u32, &'a [T]);
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x > self.x_max {
-            if self.y >= self.y_max {
-                return None;
-            } else {
-                self.x = 0;
-                self.y += 1;
-            }
+        if self.x >= self.width && self.y < self.height {
+            self.x = 0;
+            self.y += 1;
+        }
+        if self.width == 0 || self.y >= self.height {
+            return None;
         }
 
         let temp_x = self.x;
@@ -67,8 +66,10 @@ impl<'a, T: Number> Iterator for PixelIter<'a, T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = ((self.x_max + 1) * (self.y_max + 1)) as usize;
-        (size, Some(size))
+        let size = (self.width as usize) * (self.height as usize);
+        let visited = (self.width as usize) * (self.y as usize) + (self.x as usize);
+        let remaining = size.saturating_sub(visited);
+        (remaining, Some(remaining))
     }
 }
 
-- 
2.43.0


From e2d920979a951f781dcd357ab6ce3cac52033153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 04/37] fix: SIMD brightness of the last bytes and of gray
 images with alpha

---
 src/simd.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index c4ab1ca..5fd0c10 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -19,16 +19,26 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     // Load val into 256-bit SIMD register
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
 
-    // Mask the alpha bit if present
+    // Chunks are processed in steps of whole pixels, so that the position of the alpha channel is
+    // the same in every chunk
+    let channels = input.info().channels as u32;
+    let mut step = 32;
+
+    // Mask the alpha channel if present
     if input.info().alpha {
-        let zeroes_256 = _mm256_setzero_si256();
-        let alpha_mask = _mm256_set1_epi32(-2 * 2_i32.pow(30));
-        val_256 = _mm256_blendv_epi8(val_256, zeroes_256, alpha_mask);
+        let mut mask = [0xFF_u8; 32];
+        for j in 0..32 {
+            if j % channels == channels - 1 {
+                mask[j as usize] = 0;
+            }
+        }
+        val_256 = _mm256_and_si256(val_256, _mm256_loadu_si256(mask.as_ptr() as *const _));
+        step = 32 - 32 % channels;
     }
 
     // Process 32 bytes at a time
     let mut i = 0;
-    while (i + 32) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
@@ -43,12 +53,14 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
         // Store 32 bytes in output vector
         _mm256_storeu_si256(data.as_mut_ptr().offset(i as isize) as *mut _, res);
 
-        i += 32;
+        i += step;
     }
 
     // Process the remaining bytes normally
-    if i > num_bytes {
-        for j in (i - 32)..num_bytes {
+    for j in i..num_bytes {
+        if input.info().alpha && j % channels == channels - 1 {
+            data[j as usize] = input.data()[j as usize];
+        } else {
             data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
         }
     }
-- 
2.43.0


From 8ae3a23f6a93dcd23970fca01d39a165c9c46d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 05/37] fix: SIMD addition to one channel reads and writes past
 the end and drops the last bytes

---
 src/simd.rs | 56 +++++++++++++++++++----------------------------------
 1 file changed, 20 insertions(+), 36 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 5fd0c10..91be25f 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -78,42 +78,24 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
-    let zeroes_256 = _mm256_setzero_si256();
-
-    // Create masks for the channels we want to ignore
-    let mask = if input.info().alpha {
-        match n {
-            0 => _mm256_set1_epi32(0x80),
-            1 => _mm256_set1_epi32(0x8000),
-            2 => _mm256_set1_epi32(0x800000),
-            3 => _mm256_set1_epi32(-0x80000000),
-            _ => _mm256_setzero_si256()
-        }
-    } else {
-        match n {
-            0 => _mm256_set_epi64x(0x80000080, 0x800000800000,
-                                   -0x7FFFFF7FFFFF8000, 0x80000080000080),
-            1 => _mm256_set_epi64x(0x8000008000, 0x80000080000080,
-                                   0x800000800000, -0x7FFFFF7FFFFF8000),
-            2 => _mm256_set_epi64x(0x800000800000, -0x7FFFFF7FFFFF8000,
-                                   0x80000080000080, 0x800000800000),
-            _ => _mm256_setzero_si256()
-        }
-    };
-    val_256 = _mm256_blendv_epi8(zeroes_256, val_256, mask);
-
-    // In order to reuse the mask for every chunk in a 3-channel pixel, we can only process chunks
-    // that are multiples of 8 * 3 = 24 bits. The largest such chunk that fits in 256 bits is
-    // 24 * 10 = 240 bits = 30 bytes.
-    let mut step = 30;
 
-    // 4-channel pixels fit evenly within 32-byte chunks
-    if input.info().alpha {
-        step = 32;
+    // Create a mask for the channels we want to ignore
+    let channels = input.info().channels as u32;
+    let selected = |j: u32| (n as u32) >= channels || j % channels == n as u32;
+    let mut mask = [0_u8; 32];
+    for j in 0..32 {
+        if selected(j) {
+            mask[j as usize] = 0xFF;
+        }
     }
+    val_256 = _mm256_and_si256(val_256, _mm256_loadu_si256(mask.as_ptr() as *const _));
+
+    // In order to reuse the mask for every chunk, chunks are processed in steps of whole pixels:
+    // 30 bytes for 3-channel pixels, 32 bytes for 4-channel pixels
+    let step = 32 - 32 % channels;
 
     let mut i = 0;
-    while (i + step) <= num_bytes {
+    while step > 0 && (i + 32) <= num_bytes {
         let chunk = _mm256_loadu_si256(input.data().as_ptr().
             offset(i as isize) as *const _);
 
@@ -128,10 +110,12 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
         i += step;
     }
 
-    if i > num_bytes {
-        for j in ((i - step)..num_bytes).step_by(input.info().channels as usize) {
-            let index = j as usize + n as usize;
-            data[index] = (input.data()[index] as i16 + val).clamp(0, 255) as u8;
+    // Process the remaining bytes normally
+    for j in i..num_bytes {
+        if selected(j) {
+            data[j as usize] = (input.data()[j as usize] as i16 + val).clamp(0, 255) as u8;
+        } else {
+            data[j as usize] = input.data()[j as usize];
         }
     }
 
-- 
2.43.0


From 9d51a926f56dc3e5bd00ee05f904f1907c948f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:55 +0000
Subject: [PATCH 06/37] fix: SIMD grayscale is the average of the channels for
 every pixel

---
 src/simd.rs | 47 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index 91be25f..a2ab94b 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -176,6 +176,25 @@ pub unsafe fn deinterleave_4_256_u8(input: &Image<u8>, offset: usize) -> (__m256
     (r_256, g_256, b_256, a_256)
 }
 
+/// Computes the average of each byte of `r`, `g`, and `b`, rounded down
+#[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
+#[target_feature(enable = "avx2")]
+unsafe fn avg_3_256_u8(r: __m256i, g: __m256i, b: __m256i) -> __m256i {
+    let zeroes_256 = _mm256_setzero_si256();
+
+    // Sum the channels in 16 bits
+    let sum_lo = _mm256_add_epi16(_mm256_add_epi16(
+        _mm256_unpacklo_epi8(r, zeroes_256), _mm256_unpacklo_epi8(g, zeroes_256)),
+        _mm256_unpacklo_epi8(b, zeroes_256));
+    let sum_hi = _mm256_add_epi16(_mm256_add_epi16(
+        _mm256_unpackhi_epi8(r, zeroes_256), _mm256_unpackhi_epi8(g, zeroes_256)),
+        _mm256_unpackhi_epi8(b, zeroes_256));
+
+    // Divide by 3 by multiplying by 2^16 / 3 (rounded up) and keeping the upper 16 bits
+    let third = _mm256_set1_epi16(21846);
+    _mm256_packus_epi16(_mm256_mulhi_epu16(sum_lo, third), _mm256_mulhi_epu16(sum_hi, third))
+}
+
 /// Computes the average of each 3-channel pixel of `input` and returns a grayscale image
 #[cfg(all(feature = "simd", any(target_arch = "x86", target_arch = "x86_64")))]
 #[target_feature(enable = "avx2")]
@@ -189,9 +208,7 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b) = deinterleave_3_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256_u8(r, g, b);
 
         _mm256_storeu_si256(data.as_mut_ptr().offset((i / channels) as isize)
                                 as *mut _, avg_rgb);
@@ -199,11 +216,10 @@ pub unsafe fn avg_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(3) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / channels] = (sum / 3.0).round() as u8;
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / channels] = (sum / 3) as u8;
     }
 
     Image::from_vec(input.info().width, input.info().height, 1,
@@ -224,9 +240,7 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
     while (i + chunk_size) <= num_bytes {
         let (r, g, b, a) = deinterleave_4_256_u8(input, i);
 
-        // Approximate average
-        let avg_rg = _mm256_avg_epu8(r, g);
-        let avg_rgb = _mm256_avg_epu8(avg_rg, b);
+        let avg_rgb = avg_3_256_u8(r, g, b);
 
         // Interleave the alpha and grayscale channels
         let unpacked_lo = _mm256_unpacklo_epi8(avg_rgb, a);
@@ -243,12 +257,11 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
         i += chunk_size;
     }
 
-    if i > num_bytes {
-        for j in ((i - chunk_size)..num_bytes).step_by(channels) {
-            let sum = (input.data()[i] + input.data()[i + 1] + input.data()[i + 2]) as f32;
-            data[j / 2] = (sum / 3.0).round() as u8;
-            data[j / 2 + 1] = input.data()[i + 3];
-        }
+    // Process the remaining pixels normally
+    for j in (i..num_bytes).step_by(channels) {
+        let sum = input.data()[j] as u16 + input.data()[j + 1] as u16 + input.data()[j + 2] as u16;
+        data[j / 2] = (sum / 3) as u8;
+        data[j / 2 + 1] = input.data()[j + 3];
     }
 
     Image::from_vec(input.info().width, input.info().height, 2,
-- 
2.43.0


From 70042cdd17c8fe9c0116a7c03d159c11898bd538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 07/37] fix: overflow when checking the most negative bias

---
 src/tone.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tone.rs b/src/tone.rs
index 72b3968..0757da8 100644
--- a/src/tone.rs
+++ b/src/tone.rs
@@ -16,7 +16,7 @@ use std::collections::HashMap;
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     #[cfg(feature = "simd")]
     {
@@ -43,7 +43,7 @@ fn brightness_rgb_norm(input: &Image<u8>, bias: i16) -> Image<u8> {
 ///
 /// * `bias` - Must be between -255 and 255 (inclusive)
 pub fn brightness_lab(input: &Image<u8>, bias: i16) -> ImgProcResult<Image<u8>> {
-    error::check_in_range(bias.abs(), -255, 255, "bias")?;
+    error::check_in_range(bias, -255, 255, "bias")?;
 
     let mut lab = colorspace::srgb_to_lab_f32(input, &White::D50);
     let bias_lab = (bias as f32) / 255.0 * 100.0;
-- 
2.43.0


From ff7a7d51d8023ed4caa02494d622f0ab83b4e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 08/37] fix: constants of the sRGB transfer curve and rounding
 to 8 bits

---
 src/colorspace.rs     | 6 +++---
 src/util/constants.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index e58c3e3..ed59109 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -57,7 +57,7 @@ pub fn linearize_srgb_f32(input: &Image<u8>) -> Image<f32> {
     util::generate_lookup_table(&mut lookup_table, |i| {
         let val = i as f32;
         if val <= 10.0 {
-            val / 3294.0
+            val / 3294.6
         } else {
             ((val + 14.025) / 269.025).powf(GAMMA)
         }
@@ -73,9 +73,9 @@ pub fn linearize_srgb_f32(input: &Image<u8>) -> Image<f32> {
 pub fn unlinearize_srgb_f32(input: &Image<f32>) -> Image<u8> {
     input.map_channels_if_alpha(|num| {
         if num <= 0.0031308 {
-            (num * 3294.6) as u8
+            (num * 3294.6).round() as u8
         } else {
-            (269.025 * num.powf(1.0 / GAMMA) - 14.025) as u8
+            (269.025 * num.powf(1.0 / GAMMA) - 14.025).round() as u8
         }
     }, |a| a.round() as u8)
 }
diff --git a/src/util/constants.rs b/src/util/constants.rs
index 08367fc..4a17ffc 100644
--- a/src/util/constants.rs
+++ b/src/util/constants.rs
@@ -5,7 +5,7 @@
 /////////////////////////////////////////
 
 /// Gamma value for sRGB images
-pub const GAMMA: f32 = 2.2;
+pub const GAMMA: f32 = 2.4;
 
 /// sRGB to CIE XYZ transformation matrix
 pub const SRGB_TO_XYZ_MAT: [f32; 9] = [0.4124564, 0.3575761, 0.1804375,
-- 
2.43.0


From 2dcba313e82a2deeea018a1608e949643c3c4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 09/37] fix: float HSV to RGB truncates its channels and
 mishandles a hue of 1

---
 src/colorspace.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index ed59109..258a408 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -253,18 +253,19 @@ pub fn rgb_to_hsv_f32(input: &Image<u8>) -> Image<f32> {
 pub fn hsv_to_rgb_f32(input: &Image<f32>) -> Image<u8> {
     input.map_pixels_if_alpha(|channels, p_out| {
         if channels[1] == 0.0 {
-            let val = (channels[2] * 255.0) as u8;
+            let val = (channels[2] * 255.0).round() as u8;
 
             p_out.extend([val, val, val].iter());
             return;
         }
 
-        let hue = channels[0] * 6.0;
+        // A hue of 1.0 is the same as a hue of 0.0
+        let hue = if channels[0] >= 1.0 { 0.0 } else { channels[0] * 6.0 };
         let f = hue - hue.floor();
-        let p = (channels[2] * (1.0 - channels[1]) * 255.0) as u8;
-        let q = (channels[2] * (1.0 - channels[1] * f) * 255.0) as u8;
-        let t = (channels[2] * (1.0 - channels[1] * (1.0 - f)) * 255.0) as u8;
-        let val = (channels[2] * 255.0) as u8;
+        let p = (channels[2] * (1.0 - channels[1]) * 255.0).round() as u8;
+        let q = (channels[2] * (1.0 - channels[1] * f) * 255.0).round() as u8;
+        let t = (channels[2] * (1.0 - channels[1] * (1.0 - f)) * 255.0).round() as u8;
+        let val = (channels[2] * 255.0).round() as u8;
 
         match hue.floor() as u8 {
             0 => p_out.extend([val, t, p].iter()),
-- 
2.43.0


From c2d34a60b235f23e4df99ea10828e8f9f55de6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 10/37] fix: histogram percentiles count the first pixel of
 every bin twice

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index f2edec9..c09ffdb 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -41,7 +41,7 @@ pub fn generate_histogram_percentiles(input: &Image<f32>, percentiles: &mut Hash
     for y in 0..(input.info().height) {
         for x in 0..(input.info().width) {
             let p = (input.get_pixel(x, y)[0] * precision).round() as i32;
-            let count = histogram.entry(p).or_insert(1);
+            let count = histogram.entry(p).or_insert(0);
             *count += 1;
         }
     }
-- 
2.43.0


From 8326a26ffb3a73000ea519cee165ea8310f2931b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 11/37] fix: accept crops that touch the right or bottom edge

---
 src/transform.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 3947459..c73b576 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -13,12 +13,12 @@ use crate::util;
 /// and height `height`
 #[cfg(not(feature = "rayon"))]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let mut output = Image::blank(ImageInfo::new(width, height,
@@ -37,12 +37,12 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// and height `height`
 #[cfg(feature = "rayon")]
 pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32) -> ImgProcResult<Image<T>> {
-    if (x + width) >= input.info().width {
+    if x.saturating_add(width) > input.info().width {
         return Err(ImgProcError::InvalidArgError(format!("invalid width: input width is {} \
-            but x + width is {}", input.info().width, (x + width))));
-    } else if (y + height) >= input.info().height {
+            but x + width is {}", input.info().width, x.saturating_add(width))));
+    } else if y.saturating_add(height) > input.info().height {
         return Err(ImgProcError::InvalidArgError(format!("invalid height: input height is {} \
-            but y + height is {}", input.info().height, (y + height))));
+            but y + height is {}", input.info().height, y.saturating_add(height))));
     }
 
     let size = width * height;
-- 
2.43.0


From d0cb378ee06a14679ea488ac2f28a38aaa611f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 12/37] fix: check the weight of superimpose against 0 and 1

---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index c73b576..1e48d19 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -62,7 +62,7 @@ pub fn crop<T: Number>(input: &Image<T>, x: u32, y: u32, width: u32, height: u32
 /// pixel values of `front`
 pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha: f32) -> ImgProcResult<Image<f32>> {
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
-    error::check_in_range(0.0, 1.0, alpha, "alpha")?;
+    error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
     let width = std::cmp::min(x + front.info().width, back.info().width);
-- 
2.43.0


From bcf4887d96f4ac38ad162471e8bbfd6d78e98405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 13/37] fix: overflow when overlaying at an offset near the
 largest coordinate

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index 1e48d19..aaa99fe 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -65,8 +65,8 @@ pub fn superimpose(back: &Image<f32>, front: &Image<f32>, x: u32, y: u32, alpha:
     error::check_in_range(alpha, 0.0, 1.0, "alpha")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
@@ -90,8 +90,8 @@ pub fn overlay<T: Number>(back: &Image<T>, front: &Image<T>, x: u32, y: u32) ->
     error::check_equal(back.info().channels, front.info().channels, "image channels")?;
 
     let mut output = back.clone();
-    let width = std::cmp::min(x + front.info().width, back.info().width);
-    let height = std::cmp::min(y + front.info().height, back.info().height);
+    let width = std::cmp::min(x.saturating_add(front.info().width), back.info().width);
+    let height = std::cmp::min(y.saturating_add(front.info().height), back.info().height);
 
     for j in y..height {
         for i in x..width {
-- 
2.43.0


From c1d5c8bace4de024e42e55401bf3ed10846e0eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 14/37] fix: nearest neighbour scaling past the last row or
 column

---
 src/transform.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index aaa99fe..eb257e8 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -430,7 +430,9 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
     let x_in = (((x + 1) as f32 / x_factor).ceil() - 1.0) as u32;
     let y_in = (((y + 1) as f32 / y_factor).ceil() - 1.0) as u32;
 
-    input.get_pixel(x_in, y_in)
+    // Rounding can place the last row or column just outside the input
+    input.get_pixel(std::cmp::min(x_in, input.info().width - 1),
+                    std::cmp::min(y_in, input.info().height - 1))
 }
 
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
-- 
2.43.0


From 6d5f593d7c72785081c076ad6427a2fe553e62dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 15/37] fix: bilinear scaling weights each pixel by its
 closeness

---
 src/transform.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index eb257e8..f473b4b 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -438,9 +438,9 @@ fn interpolate_nearest_neighbor(input: &Image<f32>, x_factor: f32, y_factor: f32
 fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32, y: u32) -> Vec<f32> {
     let x_in = x as f32 / x_factor;
     let y_in = y as f32 / y_factor;
-    let x_1 = x_in.floor() as u32;
+    let x_1 = std::cmp::min(x_in.floor() as u32, input.info().width - 1);
     let x_2 = std::cmp::min(x_in.ceil() as u32, input.info().width - 1);
-    let y_1 = y_in.floor() as u32;
+    let y_1 = std::cmp::min(y_in.floor() as u32, input.info().height - 1);
     let y_2 = std::cmp::min(y_in.ceil() as u32, input.info().height - 1);
     let x_weight = x_in - (x_1 as f32);
     let y_weight = y_in - (y_1 as f32);
@@ -452,10 +452,10 @@ fn interpolate_bilinear(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32
 
     let mut p_out = Vec::with_capacity(input.info().channels as usize);
     for c in 0..(input.info().channels as usize) {
-        p_out.push(p1[c] * x_weight * y_weight
-            + p2[c] * (1.0 - x_weight) * y_weight
-            + p3[c] * x_weight * (1.0 - y_weight)
-            + p4[c] * (1.0 - x_weight) * (1.0 - y_weight));
+        p_out.push(p1[c] * (1.0 - x_weight) * (1.0 - y_weight)
+            + p2[c] * x_weight * (1.0 - y_weight)
+            + p3[c] * (1.0 - x_weight) * y_weight
+            + p4[c] * x_weight * y_weight);
     }
 
     p_out
-- 
2.43.0


From 16c53aa2f7a20b7d277d2ad3b7cea75ec89ebaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 16/37] fix: rotate about the center of the image and keep
 every pixel

---
 src/transform.rs | 47 +++++++++++++++++------------------------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index f473b4b..b14b587 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -209,48 +209,35 @@ pub fn translate<T: Number>(input: &Image<T>, x: u32, y: u32) -> ImgProcResult<I
 /// Rotates an image `degrees` degrees counterclockwise around the center of the image
 pub fn rotate(input: &Image<f32>, degrees: f32) -> ImgProcResult<Image<f32>> {
     let (w_in, h_in) = input.info().wh();
-    let (sin, cos) = degrees.to_radians().sin_cos();
+    let (sin, cos) = ((degrees % 360.0) as f64).to_radians().sin_cos();
 
     // Center coordinates
-    let x = w_in / 2;
-    let y = h_in / 2;
-
-    let mat = [cos, -sin, sin, cos];
+    let x = w_in as f64 / 2.0;
+    let y = h_in as f64 / 2.0;
 
     // Compute dimensions of output image
-    let coords1 = util::vector_mul(&mat, &[-(x as f32), y as f32])?;
-    let coords2 = util::vector_mul(&mat, &[(w_in - x) as f32, y as f32])?;
-    let coords3 = util::vector_mul(&mat, &[-(x as f32), (y as f32) - (h_in as f32)])?;
-    let coords4 = util::vector_mul(&mat, &[(w_in - x) as f32, (y as f32) - (h_in as f32)])?;
-
-    let x_max = util::max_4(coords1[0], coords2[0], coords3[0], coords4[0]);
-    let x_min = util::min_4(coords1[0], coords2[0], coords3[0], coords4[0]);
-    let y_max = util::max_4(coords1[1], coords2[1], coords3[1], coords4[1]);
-    let y_min = util::min_4(coords1[1], coords2[1], coords3[1], coords4[1]);
-
-    let w_out = (x_max - x_min) as u32;
-    let h_out = (y_max - y_min) as u32;
+    let w_out = (w_in as f64 * cos.abs() + h_in as f64 * sin.abs()).round() as u32;
+    let h_out = (w_in as f64 * sin.abs() + h_in as f64 * cos.abs()).round() as u32;
 
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
                                                  input.info().channels, input.info().alpha));
-    let mut coords = Vec::with_capacity(input.info().channels as usize);
 
-    for j in 0..h_in {
-        for i in 0..w_in {
-            let x1 = (i as f32) - (x as f32);
-            let y1 = (y as f32) - (j as f32);
+    // Rotate the center of each output pixel back by `degrees` and copy the pixel located there
+    let mat = [cos, sin, -sin, cos];
+    let mut coords = Vec::with_capacity(2);
 
-            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
+    for j in 0..h_out {
+        for i in 0..w_out {
+            let x1 = (i as f64) + 0.5 - (w_out as f64) / 2.0;
+            let y1 = (h_out as f64) / 2.0 - ((j as f64) + 0.5);
 
-            coords[0] += x_max - 1.0;
-            coords[1] = y_max - coords[1] - 1.0;
+            util::vector_mul_mut(&mat, &[x1, y1], &mut coords)?;
 
-            output.set_pixel(coords[0] as u32, coords[1] as u32,
-                             input.get_pixel(i, j));
+            let x_in = (coords[0] + x).floor();
+            let y_in = (y - coords[1]).floor();
 
-            // Cover up "holes" left by rotation algorithm
-            if coords[0] >= 1.0 {
-                output.set_pixel(coords[0] as u32 - 1, coords[1] as u32, input.get_pixel(i, j));
+            if x_in >= 0.0 && y_in >= 0.0 && x_in < w_in as f64 && y_in < h_in as f64 {
+                output.set_pixel(i, j, input.get_pixel(x_in as u32, y_in as u32));
             }
         }
     }
-- 
2.43.0


From 9cbf3fec3ec688bdd5a94a0f02ca3af4bff735fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:05 +0000
Subject: [PATCH 17/37] fix: shear rounds coordinates past the edge of its
 result

---
 src/transform.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index b14b587..c561b59 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -273,8 +273,9 @@ pub fn reflect<T: Number>(input: &Image<T>, axis: Refl) -> ImgProcResult<Image<T
 /// Shears an image
 pub fn shear(input: &Image<f32>, shear_x: f32, shear_y: f32) -> ImgProcResult<Image<f32>> {
     let (w_in, h_in) = input.info().wh();
-    let offset_x = (h_in as f32 * shear_x).abs();
-    let offset_y = (w_in as f32 * shear_y).abs();
+    let (shear_x, shear_y) = (shear_x as f64, shear_y as f64);
+    let offset_x = (h_in as f64 * shear_x).abs();
+    let offset_y = (w_in as f64 * shear_y).abs();
     let w_out = w_in + offset_x as u32;
     let h_out = offset_y as u32 + h_in;
     let mut output = Image::blank(ImageInfo::new(w_out, h_out,
@@ -288,7 +289,7 @@ pub fn shear(input: &Image<f32>, shear_x: f32, shear_y: f32) -> ImgProcResult<Im
 
     for y in 0..h_in {
         for x in 0..w_in {
-            util::vector_mul_mut(&mat, &[x as f32, y as f32], &mut coords)?;
+            util::vector_mul_mut(&mat, &[x as f64, y as f64], &mut coords)?;
 
             if shear_x > 0.0 {
                 coords[0] += offset_x;
-- 
2.43.0


From f203ac5a09625ec85a25975632efae6ae3db766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 18/37] fix: sign in the Laplacian of Gaussian kernel

---
 src/util/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index c09ffdb..762b9dc 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -97,7 +97,7 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
         for j in 0..(size as i32) {
             if i <= j {
                 let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 - exp) * (E.powf(exp));
+                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From 42bb7c726c839159b0085bb95d933296d03594e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 19/37] fix: spatial weights at the center and for even sizes

---
 src/util/mod.rs | 41 ++++-------------------------------------
 1 file changed, 4 insertions(+), 37 deletions(-)

diff --git a/src/util/mod.rs b/src/util/mod.rs
index 762b9dc..3813da5 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -115,43 +115,10 @@ pub fn generate_spatial_mat(size: u32, spatial: f32) -> ImgProcResult<Vec<f32>>
     let center = size / 2;
     let mut mat = vec![0.0; (size * size) as usize];
 
-    for y in 0..(center + 1) {
-        for x in 0..(center + 1) {
-            if mat[(y * size + x) as usize] == 0.0 && !(x == center && y == center) {
-                let dist = math::distance(center, center, x, y);
-                let g = math::gaussian_fn(dist, spatial)?;
-                mat[(y * size + x) as usize] = g;
-
-                if x == y {
-                    let delta = center - y;
-                    let coord = center + delta;
-
-                    mat[(coord * size + x) as usize] = g;
-                    mat[(x * size + coord) as usize] = g;
-                    mat[(coord * size + coord) as usize] = g;
-                } else if x == center {
-                    let delta = center - y;
-
-                    mat[(x * size + x - delta) as usize] = g;
-                    mat[(x * size + x + delta) as usize] = g;
-                    mat[((x + delta) * size + x) as usize] = g;
-                } else {
-                    let delta_x = center - x;
-                    let delta_y = center - y;
-                    let pos_x = center + delta_x;
-                    let pos_y = center + delta_y;
-                    let neg_x = center - delta_x;
-                    let neg_y = center - delta_y;
-
-                    mat[(neg_x * size + neg_y) as usize] = g;
-                    mat[(neg_y * size + pos_x) as usize] = g;
-                    mat[(pos_x * size + neg_y) as usize] = g;
-                    mat[(pos_y * size + neg_x) as usize] = g;
-                    mat[(neg_x * size + pos_y) as usize] = g;
-                    mat[(pos_y * size + pos_x) as usize] = g;
-                    mat[(pos_x * size + pos_y) as usize] = g;
-                }
-            }
+    for y in 0..size {
+        for x in 0..size {
+            let dist = math::distance(center, center, x, y);
+            mat[(y * size + x) as usize] = math::gaussian_fn(dist, spatial)?;
         }
     }
 
-- 
2.43.0


From 6497da64369c61c34420fa319d6f23605449bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 20/37] fix: box filter averages a window of the given size

---
 src/filter/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index c07eb92..85e1976 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -132,8 +132,7 @@ pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<
 pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let len = (size * size) as usize;
-    let kernel = vec![1.0 / ((size * size) as f32); len];
+    let kernel = vec![1.0 / (size as f32); size as usize];
 
     Ok(separable_filter(input, &kernel, &kernel)?)
 }
-- 
2.43.0


From fda1d5ece1606bfb18a1b7f7bde965c0c22a4580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 21/37] fix: derivative masks of grayscale images with alpha

---
 src/filter/edge.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filter/edge.rs b/src/filter/edge.rs
index 07d83e0..313c6fe 100644
--- a/src/filter/edge.rs
+++ b/src/filter/edge.rs
@@ -16,8 +16,10 @@ pub fn derivative_mask(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[f
 
     let mut output = Image::blank(input.info());
 
-    for i in 0..(output.info().full_size() as usize) {
-        output.set_pixel_indexed(i, &[(img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt()]);
+    for i in 0..(output.info().size() as usize) {
+        let mut p_out = input[i].to_vec();
+        p_out[0] = (img_x[i][0].powf(2.0) + img_y[i][0].powf(2.0)).sqrt();
+        output.set_pixel_indexed(i, &p_out);
     }
 
     Ok(output)
-- 
2.43.0


From 31ed4fbfadc371fdbe181cc744ea19eb060b4211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 22/37] fix: reject matrices whose size does not fit the vector

---
 src/util/math.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index b4ee90b..322c8ce 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -8,9 +8,8 @@ use rulinalg::matrix::{Matrix, BaseMatrix};
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     let mut output = vec![0.into(); rows];
 
@@ -26,9 +25,8 @@ pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
 /// Returns the result of the multiplication of a square matrix by a vector in `output`
 pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) -> ImgProcResult<()> {
     let rows = input.len();
-    let mat_cols = mat.len() / rows;
 
-    error::check_equal(mat_cols, rows, "mat and vec dimensions")?;
+    error::check_equal(mat.len(), rows * rows, "mat and vec dimensions")?;
 
     output.clear();
     for _ in 0..rows {
-- 
2.43.0


From 8a9205fa0d7ab3539d417f79d2c907bea4299a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 23/37] fix: kernel separation panics or never ends for
 singular kernels

---
 src/util/math.rs | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 322c8ce..c33bc0c 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -3,7 +3,6 @@ use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
 use std::f32::consts::{PI, E};
-use rulinalg::matrix::{Matrix, BaseMatrix};
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -45,24 +44,35 @@ pub fn vector_mul_mut<T: Number>(mat: &[T], input: &[T], output: &mut Vec<T>) ->
 /// If `kernel` is separable, returns the (vertical kernel, horizontal kernel); otherwise returns None
 pub fn separate_kernel(kernel: &[f32]) -> Option<(Vec<f32>, Vec<f32>)> {
     let size = (kernel.len() as f32).sqrt() as usize;
-    let kernel_mat = Matrix::new(size, size, kernel);
-    let size = kernel_mat.cols();
-    let (s, u, v) = kernel_mat.svd().unwrap();
+
+    // Find the entry with the largest magnitude
+    let mut index = 0;
+    for i in 1..kernel.len() {
+        if kernel[i].abs() > kernel[index].abs() {
+            index = i;
+        }
+    }
+
+    let pivot = kernel[index];
+    if pivot == 0.0 || !pivot.is_finite() {
+        return None;
+    }
+
+    // If the kernel is separable, it is the outer product of the column and the row of this entry
+    let scalar = pivot.abs().sqrt();
+    let vertical_kernel: Vec<f32> = (0..size).map(|i| kernel[i * size + index % size] / scalar).collect();
+    let horizontal_kernel: Vec<f32> = (0..size).map(|j| kernel[(index / size) * size + j] / pivot * scalar).collect();
 
     // Check if kernel is separable
-    if s.data()[0] != 0.0 {
-        for i in 1..size {
-            if s.data()[i * size + i] != 0.0 {
+    for i in 0..size {
+        for j in 0..size {
+            let product = vertical_kernel[i] * horizontal_kernel[j];
+            if !((product - kernel[i * size + j]).abs() <= 4.0 * f32::EPSILON * pivot.abs()) {
                 return None;
             }
         }
-    } else {
-        return None;
     }
 
-    let scalar = s.data()[0].sqrt();
-    let vertical_kernel = (u.col(0).as_slice().into_matrix() * scalar).into_vec();
-    let horizontal_kernel = (v.transpose().row(0).as_slice().into_matrix() * scalar).into_vec();
     Some((vertical_kernel, horizontal_kernel))
 }
 
-- 
2.43.0


From 84689bbfefe23adec7fa17228c2c86a86274e674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 24/37] fix: median when exactly half of the window is below
 the previous median

---
 src/filter/median.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2054ab4..2e545ba 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -304,9 +304,6 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                                                         // the previous median
 
             match sum.cmp(&center) {
-                Ordering::Equal => { // The current median is equal to the previous median
-                    p_out.push(pivot);
-                },
                 Ordering::Less => { // The current median is greater than the previous median,
                                     // so the histogram should be scanned upwards
                     for key in pivot..=255 {
@@ -321,7 +318,7 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
                         sum += add;
                     }
                 },
-                Ordering::Greater => { // The current median is less than the previous median, so the histogram
+                Ordering::Equal | Ordering::Greater => { // The current median is less than the previous median, so the histogram
                                        // should be scanned downwards
                     for key in (0..pivot).rev() {
                         sum -= hist.data().get_count(key as usize, i);
-- 
2.43.0


From ac6abf84a73b1813062132ccca41794b412c71ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 25/37] fix: last column of the median filter

---
 src/filter/median.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 2e545ba..01d0ab1 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -288,8 +288,10 @@ fn init_cols_med(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
+        // Columns to the right of the image are not part of the output
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, 0, &p_out);
+        }
 
         set_pivots_med(histograms, &p_out, i);
     }
@@ -333,8 +335,10 @@ fn process_row_med(output: &mut Image<u8>, histograms: &mut Vec<MedianHist>, p_o
             }
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        // Columns to the right of the image are not part of the output
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, y, &p_out);
+        }
 
         set_pivots_med(histograms, &p_out, i);
     }
-- 
2.43.0


From 4bafddeac5109c857dcfc621745c8f5424b4f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 26/37] fix: alpha-trimmed mean discards the lowest and highest
 values of every window

---
 src/filter/median.rs | 250 +++++--------------------------------------
 1 file changed, 29 insertions(+), 221 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 01d0ab1..88b03f6 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -2,7 +2,7 @@ use crate::error;
 use crate::error::{ImgProcResult, ImgProcError};
 use crate::image::{Image, BaseImage};
 
-use std::cmp::{Ordering, Reverse};
+use std::cmp::Ordering;
 
 /// Applies a median filter, where each output pixel is the median of the pixels in a
 /// `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image. Based on Ben Weiss' partial
@@ -369,197 +369,45 @@ fn set_pivots_med(histograms: &mut Vec<MedianHist>, pivots: &[u8], index: usize)
 #[derive(Debug, Clone)]
 struct MeanHist {
     data: PartialHistograms,
-    sums: Vec<i32>, // The sum of all the participating pixel values in the kernel for each pixel
-    lower: Vec<Vec<u8>>, // Vectors of all the lowest discarded pixel values in the kernel
-                         // for each pixel
-    upper: Vec<Vec<u8>>, // Vectors of all the highest discarded pixel values in the kernel for
-                         // each pixel
-    trim: usize, // The number of pixel values discarded at the low and high ends of each kernel
-                 // (equal to half of alpha)
-    len: f32, // The number of participating pixel values in each kernel
+    trim: i32, // The number of pixel values discarded at the low and high ends of each kernel
+               // (equal to half of alpha)
+    len: i32, // The number of participating pixel values in each kernel
 }
 
 impl MeanHist {
     fn new(radius: usize, n_cols: usize, alpha: u32) -> Self {
         let size = 2 * radius + 1;
-        let len = ((size * size) - alpha as usize) as f32;
 
         MeanHist {
             data: PartialHistograms::new(radius, n_cols),
-            sums: Vec::with_capacity(n_cols),
-            lower: Vec::with_capacity(n_cols),
-            upper: Vec::with_capacity(n_cols),
-            trim: (alpha as usize) / 2,
-            len,
+            trim: (alpha / 2) as i32,
+            len: (size * size) as i32 - alpha as i32,
         }
     }
 
-    fn data(&self) -> &PartialHistograms {
-        &self.data
-    }
-
-    fn init(&mut self) {
-        self.sums = vec![0; self.data.n_cols];
-        self.lower = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-        self.upper = vec![Vec::with_capacity(self.trim); self.data.n_cols];
-    }
-
-    // By some miracle, this seems to work!
     fn update(&mut self, p_in: &[&[u8]], channel_index: usize, add: bool) {
-        if !self.sums.is_empty() {
-            if add {
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        if val < lower {
-                            self.lower[n].remove(self.trim -  1);
-                            self.sums[n] += lower as i32;
-
-                            let pos = self.lower[n].binary_search(&val).unwrap_or_else(|e| e);
-                            self.lower[n].insert(pos, val);
-                        } else if val > upper {
-                            self.upper[n].remove(self.trim - 1);
-                            self.sums[n] += upper as i32;
-
-                            let pos = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse).unwrap_or_else(|e| e);
-                            self.upper[n].insert(pos, val);
-                        } else {
-                            self.sums[n] += val as i32;
-                        }
-                    }
-                }
-                self.data.update(p_in, channel_index, add);
-            } else {
-                self.data.update(p_in, channel_index, add);
-                for n in 0..self.data.n_cols {
-                    for i in n..(n + self.data.size) {
-                        let val = p_in[i][channel_index];
-                        let lower = self.lower(n);
-                        let upper = self.upper(n);
-
-                        let mut lower_count = self.data.get_count(lower as usize, n);
-                        let mut upper_count = self.data.get_count(upper as usize, n);
-
-                        for j in i..(n + self.data.size) {
-                            if p_in[j][channel_index] == lower {
-                                lower_count += 1;
-                            } else if p_in[j][channel_index] == upper {
-                                upper_count += 1;
-                            }
-                        }
-
-                        for j in self.lower[n].iter().rev() {
-                            if *j == lower {
-                                lower_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        for j in self.upper[n].iter().rev() {
-                            if *j == upper {
-                                upper_count -= 1;
-                            } else {
-                                break;
-                            }
-                        }
-
-                        if val == lower && lower_count == 0 {
-                            self.lower[n].remove(self.trim - 1);
-                            self.get_next_lower(n, lower_count, lower);
-                        } else if val < lower {
-                            let res = self.lower[n].binary_search(&val);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.lower[n].remove(pos);
-                                    self.get_next_lower(n, lower_count, lower);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else if val == upper && upper_count == 0 {
-                            self.upper[n].remove(self.trim - 1);
-                            self.get_next_upper(n, upper_count, upper);
-                        } else if val > upper {
-                            let res = self.lower[n].binary_search_by_key(&Reverse(&val), Reverse);
-
-                            match res {
-                                Ok(pos) => {
-                                    self.upper[n].remove(pos);
-                                    self.get_next_upper(n, upper_count, upper);
-                                },
-                                Err(_) => {
-                                    self.sums[n] -= val as i32;
-                                }
-                            }
-                        } else {
-                            self.sums[n] -= val as i32;
-                        }
-                    }
-                }
-            }
-        } else {
-            self.data.update(p_in, channel_index, add);
-        }
-    }
-
-    fn set_sum(&mut self, sum: i32, index: usize) {
-        self.sums[index] = sum;
-    }
-
-    fn set_upper(&mut self, vals: Vec<u8>, index: usize) {
-        self.upper[index] = vals;
-    }
-
-    fn set_lower(&mut self, vals: Vec<u8>, index: usize) {
-        self.lower[index] = vals;
+        self.data.update(p_in, channel_index, add);
     }
 
-    fn upper(&self, index: usize) -> u8 {
-        self.upper[index][self.trim-1]
-    }
+    // Returns the mean of the pixel values that remain in the kernel for the pixel at the given
+    // index after discarding the lowest and the highest values
+    fn get_mean(&self, index: usize) -> u8 {
+        let mut count = 0; // The number of pixel values less than key
+        let mut sum: i64 = 0;
 
-    fn lower(&self, index: usize) -> u8 {
-        self.lower[index][self.trim-1]
-    }
+        for key in 0..256 {
+            let next = count + self.data.get_count(key, index);
 
-    fn get_mean(&self, index: usize) -> u8 {
-        ((self.sums[index] as f32) / self.len).round() as u8
-    }
-
-    fn get_next_lower(&mut self, n: usize, lower_count: i32, lower: u8) {
-        if lower_count > 0 {
-            self.lower[n].push(lower);
-            self.sums[n] -= lower as i32;
-        } else {
-            for key in (lower + 1)..=255 {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.lower[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
+            // Only the values at the positions from trim to (trim + len) participate
+            let participating = next.min(self.trim + self.len) - count.max(self.trim);
+            if participating > 0 {
+                sum += participating as i64 * key as i64;
             }
-        }
-    }
 
-    fn get_next_upper(&mut self, n: usize, upper_count: i32, upper: u8) {
-        if upper_count > 0 {
-            self.upper[n].push(upper);
-            self.sums[n] -= upper as i32;
-        } else {
-            for key in (0..upper).rev() {
-                if self.data.get_count(key as usize, n) > 0 {
-                    self.upper[n].push(key);
-                    self.sums[n] -= key as i32;
-                    break;
-                }
-            }
+            count = next;
         }
+
+        ((sum as f64) / (self.len as f64)).round() as u8
     }
 }
 
@@ -569,7 +417,7 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
     let mut p_out = Vec::with_capacity(channels as usize);
 
     // Initialize histogram and process first row
-    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, alpha, n_cols, x);
+    init_cols_mean(input, output, &mut histograms, &mut p_out, radius, n_cols, x);
 
     // Update histogram and process remaining rows
     let mut row_in = Vec::with_capacity(n_cols);
@@ -596,9 +444,8 @@ fn process_cols_mean(input: &Image<u8>, output: &mut Image<u8>, radius: u32, alp
 }
 
 fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Vec<MeanHist>,
-                  p_out: &mut Vec<u8>, radius: u32, alpha: u32, n_cols: usize, x: u32) {
+                  p_out: &mut Vec<u8>, radius: u32, n_cols: usize, x: u32) {
     let (width, height) = input.info().wh();
-    let size = 2 * radius + 1;
 
     // Initialize histograms
     let mut row_in = Vec::with_capacity(n_cols);
@@ -609,52 +456,11 @@ fn init_cols_mean(input: &Image<u8>, output: &mut Image<u8>, histograms: &mut Ve
         }
 
         add_row_mean(histograms, &row_in);
-    }
-
-    // Initialize histograms
-    for hist in histograms.iter_mut() {
-        hist.init();
+        row_in.clear();
     }
 
     // Compute first mean values
-    let trim = (alpha as usize) / 2;
-    let upper_trim = (size * size) as usize - trim;
-    for i in 0..n_cols {
-        p_out.clear();
-        for hist in histograms.iter_mut() {
-            let mut count = 0;
-            let mut sum = 0;
-            let mut upper = Vec::with_capacity(trim);
-            let mut lower = Vec::with_capacity(trim);
-
-            for key in 0u8..=255 {
-                let mut add = hist.data().get_count(key as usize, i);
-                count += add;
-                sum += add * key as i32;
-
-                while lower.len() < trim && add > 0 {
-                    lower.push(key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-
-                while (count as usize) > upper_trim && upper.len() < trim && add > 0 {
-                    upper.insert(0, key);
-                    sum -= key as i32;
-                    add -= 1;
-                }
-            }
-
-            hist.set_sum(sum, i);
-            hist.set_upper(upper, i);
-            hist.set_lower(lower, i);
-
-            p_out.push(hist.get_mean(i));
-        }
-
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, 0, &p_out);
-    }
+    process_row_mean(output, histograms, p_out, n_cols, x, 0);
 }
 
 fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_out: &mut Vec<u8>, n_cols: usize, x: u32, y: u32) {
@@ -664,8 +470,10 @@ fn process_row_mean(output: &mut Image<u8>, histograms: &mut Vec<MeanHist>, p_ou
             p_out.push(hist.get_mean(i));
         }
 
-        let x_clamp = (x + i as u32).clamp(0, output.info().width - 1);
-        output.set_pixel(x_clamp, y, &p_out);
+        // Columns to the right of the image are not part of the output
+        if x + (i as u32) < output.info().width {
+            output.set_pixel(x + i as u32, y, &p_out);
+        }
     }
 }
 
-- 
2.43.0


From 107157448540dbea9e402dc728332ff97f307557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 27/37] fix: morphology at borders, for large images and radii,
 of images with alpha, and majority

---
 src/morphology.rs | 186 ++++++++++++++--------------------------------
 1 file changed, 55 insertions(+), 131 deletions(-)

diff --git a/src/morphology.rs b/src/morphology.rs
index 6026868..de2b859 100644
--- a/src/morphology.rs
+++ b/src/morphology.rs
@@ -1,123 +1,84 @@
 //! A module for image morphology operations
 
-use crate::{error, util};
+use crate::error;
 use crate::error::ImgProcResult;
 use crate::image::{Image, BaseImage};
 
-/// Erodes a binary image (grayscale image with pixel values of 0 or 255) using a kernel of size
-/// `(2 * radius + 1) x (2 * radius + 1)`
-pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
-    error::check_grayscale(input)?;
-
-    let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+// Returns the summed-area table of the number of white pixels, with an additional first row and
+// column of zeroes. Counts are kept as integers, as f32 sums of large images are not exact
+fn generate_count_table(input: &Image<u8>) -> Vec<u64> {
+    let (width, height) = (input.info().width as usize, input.info().height as usize);
+    let cols = width + 1;
+    let mut table = vec![0; cols * (height + 1)];
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            if (util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] - max_sum).abs() < f32::EPSILON {
-                output.set_pixel(x, y, &[255]);
-            }
+            let white = (input[y * width + x][0] == 255) as u64;
+            table[(y + 1) * cols + x + 1] = white + table[y * cols + x + 1]
+                + table[(y + 1) * cols + x] - table[y * cols + x];
         }
     }
 
-    Ok(output)
+    table
 }
 
-/// Dilates a binary image (grayscale image with pixel values of 0 or 255) using a kernel of size
-/// `(2 * radius + 1) x (2 * radius + 1)`
-pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
-    error::check_grayscale(input)?;
+// Returns the number of white pixels, the number of all pixels, and whether any pixels are missing
+// in the part of the kernel centered at `(x, y)` that lies inside the image
+fn window_counts(table: &[u64], width: u32, height: u32, radius: u32, x: u32, y: u32) -> (u64, u64, bool) {
+    let cols = width as usize + 1;
+    let x_top = x.saturating_sub(radius) as usize;
+    let y_top = y.saturating_sub(radius) as usize;
+    let x_bot = std::cmp::min(x.saturating_add(radius), width - 1) as usize + 1;
+    let y_bot = std::cmp::min(y.saturating_add(radius), height - 1) as usize + 1;
+
+    let white = table[y_bot * cols + x_bot] + table[y_top * cols + x_top]
+        - table[y_top * cols + x_bot] - table[y_bot * cols + x_top];
+    let area = (x_bot - x_top) as u64 * (y_bot - y_top) as u64;
+    let size = 2 * radius as u64 + 1;
+
+    (white, area, area < size.saturating_mul(size))
+}
 
-    let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+// Sets the first channel of each pixel to white or black depending on `is_white`, which is given
+// the result of `window_counts()`
+fn map_windows<F>(input: &Image<u8>, radius: u32, is_white: F) -> Image<u8>
+    where F: Fn(u64, u64, bool) -> bool {
+    let (width, height) = input.info().wh();
+    let table = generate_count_table(input);
+    let mut output = input.clone();
 
     for y in 0..height {
         for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
-            }
+            let (white, area, is_cut) = window_counts(&table, width, height, radius, x, y);
+            output.get_pixel_mut(x, y)[0] = if is_white(white, area, is_cut) { 255 } else { 0 };
         }
     }
 
-    Ok(output)
+    output
 }
 
-/// Sets output pixel to the majority-valued pixel in the input image under a kernel of size
+/// Erodes a binary image (grayscale image with pixel values of 0 or 255) using a kernel of size
 /// `(2 * radius + 1) x (2 * radius + 1)`
-pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
+pub fn erode(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
-    let (width, height) =  input.info().wh();
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
+    Ok(map_windows(input, radius, |white, area, is_cut| !is_cut && white == area))
+}
 
-    for y in 0..height {
-        for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            if util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0] >= 255.0 {
-                output.set_pixel(x, y, &[255]);
-            }
-        }
-    }
+/// Dilates a binary image (grayscale image with pixel values of 0 or 255) using a kernel of size
+/// `(2 * radius + 1) x (2 * radius + 1)`
+pub fn dilate(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
+    error::check_grayscale(input)?;
+
+    Ok(map_windows(input, radius, |white, _, _| white > 0))
+}
+
+/// Sets output pixel to the majority-valued pixel in the input image under a kernel of size
+/// `(2 * radius + 1) x (2 * radius + 1)`
+pub fn majority(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
+    error::check_grayscale(input)?;
 
-    Ok(output)
+    Ok(map_windows(input, radius, |white, area, _| 2 * white > area))
 }
 
 /// Applies an erosion followed by a dilation
@@ -131,45 +92,8 @@ pub fn close(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
 }
 
 /// Returns the difference between dilation and erosion of the image
-#[allow(unused_parens)]
 pub fn gradient(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>> {
     error::check_grayscale(input)?;
 
-    let (width, height) =  input.info().wh();
-    let size = 2 * radius + 1;
-    let max_sum = (size * size * 255) as f32;
-    let table = util::generate_summed_area_table(&input.clone().into());
-    let mut output = Image::blank(input.info());
-
-    for y in 0..height {
-        for x in 0..width {
-            let mut x_top = x;
-            let mut x_bot = x;
-            let mut y_top = y;
-            let mut y_bot = y;
-
-            if x >= radius {
-                x_top -= radius;
-            }
-            if x < width - radius {
-                x_bot += radius;
-            }
-            if y >= radius {
-                y_top -= radius;
-            }
-            if y < height - radius {
-                y_bot += radius;
-            }
-
-            let sum = util::rectangular_intensity_sum(&table, x_top, y_top, x_bot, y_bot)[0];
-            let erode = ((sum - max_sum).abs() < f32::EPSILON);
-            let dilate = (sum >= 255.0);
-
-            if erode ^ dilate {
-                output.set_pixel(x, y, &[255]);
-            }
-        }
-    }
-
-    Ok(output)
+    Ok(map_windows(input, radius, |white, area, is_cut| (!is_cut && white == area) ^ (white > 0)))
 }
\ No newline at end of file
-- 
2.43.0


From 8cbd9f3258dbaeb1f489a2a5cf3aab8b94a90a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 28/37] fix: reject NaN arguments where a range is required

---
 src/error/messages.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error/messages.rs b/src/error/messages.rs
index 6c52244..5f84445 100644
--- a/src/error/messages.rs
+++ b/src/error/messages.rs
@@ -34,7 +34,7 @@ pub(crate) fn check_even<T: Number>(val: T, name: &str) -> ImgProcResult<()> {
 }
 
 pub(crate) fn check_non_neg<T: Number>(val: T, name: &str) -> ImgProcResult<()> {
-    if val < 0.into() {
+    if !(val >= 0.into()) {
         return Err(ImgProcError::InvalidArgError(format!("{} must be non-negative", name)));
     }
 
@@ -58,7 +58,7 @@ pub(crate) fn check_square(val: f32, name: &str) -> ImgProcResult<()> {
 }
 
 pub(crate) fn check_in_range<T: Number>(val: T, min: T, max: T, name: &str) -> ImgProcResult<()> {
-    if val < min || val > max {
+    if !(val >= min && val <= max) {
         return Err(ImgProcError::InvalidArgError(format!("{} must be between {} and {} (inclusive)", name, min, max)));
     }
 
-- 
2.43.0


From 0c273ff8b659595f8baa4bf66406c3598df6d75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:30 +0000
Subject: [PATCH 29/37] fix: compare kernel lengths with squares exactly

A length of more than 2^24 next to an odd square passed as a square, and the
filters then panicked instead of returning an error.
---
 src/error/messages.rs | 2 +-
 src/filter/mod.rs     | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/error/messages.rs b/src/error/messages.rs
index 5f84445..9afa723 100644
--- a/src/error/messages.rs
+++ b/src/error/messages.rs
@@ -49,7 +49,7 @@ pub(crate) fn check_equal<T: std::cmp::PartialEq>(val_1: T, val_2: T, name: &str
     Ok(())
 }
 
-pub(crate) fn check_square(val: f32, name: &str) -> ImgProcResult<()> {
+pub(crate) fn check_square(val: f64, name: &str) -> ImgProcResult<()> {
     if val.sqrt() % 1.0 != 0.0 {
         return Err(ImgProcError::InvalidArgError(format!("{} must be square", name)));
     }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 85e1976..50f3795 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -75,7 +75,7 @@ pub fn separable_filter(input: &Image<f32>, vert_kernel: &[f32], horz_kernel: &[
 #[cfg(not(feature = "rayon"))]
 pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<f32>> {
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_square(kernel.len() as f32, "kernel length")?;
+    error::check_square(kernel.len() as f64, "kernel length")?;
 
     let size = (kernel.len() as f32).sqrt() as u32;
     let (width, height, channels) = input.info().whc();
@@ -96,7 +96,7 @@ pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<I
 #[cfg(feature = "rayon")]
 pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<f32>> {
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_square(kernel.len() as f32, "kernel length")?;
+    error::check_square(kernel.len() as f64, "kernel length")?;
 
     let size = (kernel.len() as f32).sqrt() as u32;
     let (width, height, channels, alpha) = input.info().whca();
@@ -115,7 +115,7 @@ pub fn unseparable_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<I
 /// Applies a linear filter using the 2D `kernel`
 pub fn linear_filter(input: &Image<f32>, kernel: &[f32]) -> ImgProcResult<Image<f32>> {
     error::check_odd(kernel.len(), "kernel length")?;
-    error::check_square(kernel.len() as f32, "kernel length")?;
+    error::check_square(kernel.len() as f64, "kernel length")?;
 
     let separable = util::separate_kernel(kernel);
     match separable {
-- 
2.43.0


From b4930f4581f738dcf0c95a9e6223540f91ea8dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:19 +0000
Subject: [PATCH 30/37] fix: SIMD addition read past the end of images with too
 few samples

---
 src/simd.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simd.rs b/src/simd.rs
index a2ab94b..d039d4b 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -16,6 +16,9 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     let num_bytes = input.info().full_size();
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
+    // Panics if the image has fewer samples than its dimensions require
+    let input_data = &input.data()[..num_bytes as usize];
+
     // Load val into 256-bit SIMD register
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
 
@@ -40,7 +43,7 @@ pub unsafe fn adds_256_u8(input: &Image<u8>, val: i16) -> Image<u8> {
     let mut i = 0;
     while step > 0 && (i + 32) <= num_bytes {
         // Load 32-byte chunk into 256-bit SIMD register
-        let chunk = _mm256_loadu_si256(input.data().as_ptr().
+        let chunk = _mm256_loadu_si256(input_data.as_ptr().
             offset(i as isize) as *const _);
 
         // Add or subtract val from each 8-bit integer with saturation
@@ -77,6 +80,9 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
     let num_bytes = input.info().full_size();
     let mut data: Vec<u8> = vec![0; num_bytes as usize];
 
+    // Panics if the image has fewer samples than its dimensions require
+    let input_data = &input.data()[..num_bytes as usize];
+
     let mut val_256 = _mm256_set1_epi8(val.abs() as i8);
 
     // Create a mask for the channels we want to ignore
@@ -96,7 +102,7 @@ pub unsafe fn adds_n_256_u8(input: &Image<u8>, val: i16, n: u8) -> Image<u8> {
 
     let mut i = 0;
     while step > 0 && (i + 32) <= num_bytes {
-        let chunk = _mm256_loadu_si256(input.data().as_ptr().
+        let chunk = _mm256_loadu_si256(input_data.as_ptr().
             offset(i as isize) as *const _);
 
         let res = if val > 0 {
-- 
2.43.0


From 5f16200ff84edf57e4dfdf640f12d4c45bd2ba5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:36 +0000
Subject: [PATCH 31/37] fix: SIMD grayscale wrote past the end of its result
 for images that are not RGB(A)

---
 src/colorspace.rs | 4 ++--
 src/simd.rs       | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/colorspace.rs b/src/colorspace.rs
index 258a408..9646ae4 100644
--- a/src/colorspace.rs
+++ b/src/colorspace.rs
@@ -8,13 +8,13 @@ use crate::util;
 use crate::util::constants::{GAMMA, SRGB_TO_XYZ_MAT, XYZ_TO_SRGB_MAT};
 
 #[cfg(feature = "simd")]
-use crate::simd;
+use crate::{image::BaseImage, simd};
 
 /// Converts a u8 image from RGB to Grayscale
 pub fn rgb_to_grayscale(input: &Image<u8>) -> Image<u8> {
     #[cfg(feature = "simd")]
     {
-        if is_x86_feature_detected!("avx2") {
+        if input.info().channels_non_alpha() == 3 && is_x86_feature_detected!("avx2") {
             simd::avg_checked_256_u8(input)
         } else {
             rgb_to_grayscale_norm(input)
diff --git a/src/simd.rs b/src/simd.rs
index d039d4b..13b2d52 100644
--- a/src/simd.rs
+++ b/src/simd.rs
@@ -276,8 +276,14 @@ pub unsafe fn avg_alpha_256_u8(input: &Image<u8>) -> Image<u8> {
 
 /// Computes the average of each of `input`, ignoring the alpha channel if present, and
 /// returns a grayscale image
+///
+/// # Panics
+///
+/// Panics if the number of non-alpha channels of `input` is not 3
 #[cfg(feature = "simd")]
 pub fn avg_checked_256_u8(input: &Image<u8>) -> Image<u8> {
+    assert_eq!(input.info().channels_non_alpha(), 3, "input is not an RGB(A) image");
+
     if input.info().alpha {
         unsafe { avg_alpha_256_u8(input) }
     } else {
-- 
2.43.0


From a921016f28ab9a978c2c8a851fc3ba12faaa6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 32/37] fix: total weight of the weighted average filter
 overflowed for large weights

---
 src/filter/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 50f3795..5485e81 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -141,7 +141,7 @@ pub fn box_filter(input: &Image<f32>, size: u32) -> ImgProcResult<Image<f32>> {
 pub fn weighted_avg_filter(input: &Image<f32>, size: u32, weight: u32) -> ImgProcResult<Image<f32>> {
     error::check_odd(size, "size")?;
 
-    let sum = (size * size) - 1 + weight;
+    let sum = ((size * size) - 1) as u64 + weight as u64;
     let center = (size / 2) * size + (size / 2);
     let mut kernel = vec![1.0 / (sum as f32); (size * size) as usize];
     kernel[center as usize] = (weight as f32) / (sum as f32);
-- 
2.43.0


From a59d5b9213bd37a47e7676063b17d4ffe104b6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 33/37] fix: bilateral filter returned black for very small and
 very large parameters

---
 src/filter/bilateral.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/filter/bilateral.rs b/src/filter/bilateral.rs
index 9e1639a..d5c02a6 100644
--- a/src/filter/bilateral.rs
+++ b/src/filter/bilateral.rs
@@ -15,6 +15,10 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
 
     let (width, height, channels) = input.info().whc();
     let size = ((spatial * 4.0) + 1.0) as u32;
+
+    // Beyond these bounds the weights no longer change relative to each other, but leave the range
+    // of f32
+    let (range, spatial) = (range.clamp(1e-8, 1e8), spatial.clamp(1e-8, 1e8));
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
@@ -44,6 +48,10 @@ pub fn bilateral_filter(input: &Image<u8>, range: f32, spatial: f32, algorithm:
 
     let (width, height, channels, alpha) = input.info().whca();
     let size = ((spatial * 4.0) + 1.0) as u32;
+
+    // Beyond these bounds the weights no longer change relative to each other, but leave the range
+    // of f32
+    let (range, spatial) = (range.clamp(1e-8, 1e8), spatial.clamp(1e-8, 1e8));
     let spatial_mat = util::generate_spatial_mat(size, spatial)?;
 
     let lab = colorspace::srgb_to_lab_f32(&input, &White::D65);
-- 
2.43.0


From 7f6e0d909f5ccc615385c7a08e2fbddd7a5093a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 34/37] fix: Gaussians were NaN where the square of an argument
 leaves the range of f32

---
 src/util/math.rs |  7 +++++--
 src/util/mod.rs  | 12 +++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index c33bc0c..00b8763 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -2,7 +2,8 @@ use crate::error;
 use crate::image::{Number, SubImage, BaseImage};
 use crate::error::ImgProcResult;
 
-use std::f32::consts::{PI, E};
+use std::f32::consts::PI;
+use std::f64;
 
 /// Returns the result of the multiplication of a square matrix by a vector
 pub fn vector_mul<T: Number>(mat: &[T], input: &[T]) -> ImgProcResult<Vec<T>> {
@@ -236,9 +237,11 @@ pub fn distance(x_1: u32, y_1: u32, x_2: u32, y_2: u32) -> f32 {
 pub fn gaussian_fn(x: f32, sigma: f32) -> ImgProcResult<f32> {
     error::check_non_neg(sigma, "sigma")?;
 
+    // The squares may leave the range of f32
+    let (x, sigma) = (x as f64, sigma as f64);
     let sigma_squared = sigma * sigma;
 
-    Ok((1.0 / (2.0 * PI * sigma_squared)) * E.powf(-(x * x) / (2.0 * sigma_squared)))
+    Ok(((1.0 / (2.0 * f64::consts::PI * sigma_squared)) * (-(x * x) / (2.0 * sigma_squared)).exp()) as f32)
 }
 
 /// Cubic weighting function for bicubic interpolation
diff --git a/src/util/mod.rs b/src/util/mod.rs
index 3813da5..56c9792 100644
--- a/src/util/mod.rs
+++ b/src/util/mod.rs
@@ -5,7 +5,7 @@ pub use self::math::*;
 mod math;
 
 use std::collections::{BTreeMap, HashMap};
-use std::f32::consts::{E, PI};
+use std::f64::consts::{E, PI};
 
 use crate::enums::White;
 use crate::error;
@@ -68,12 +68,13 @@ pub fn generate_gaussian_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>
 
     let mut filter = vec![0.0; (size * size) as usize];
     let k = ((size - 1) / 2) as i32;
+    let sigma = sigma as f64; // The powers of sigma may leave the range of f32
 
     for i in 0..(size as i32) {
         for j in 0..(size as i32) {
             if i <= j {
-                let num = (1.0 / (2.0 * PI * sigma * sigma)) *
-                    (E.powf(-(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma)));
+                let num = ((1.0 / (2.0 * PI * sigma * sigma)) *
+                    (E.powf(-(((i - k) * (i - k) + (j - k) * (j - k)) as f64) / (2.0 * sigma * sigma)))) as f32;
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
@@ -92,12 +93,13 @@ pub fn generate_log_kernel(size: u32, sigma: f32) -> ImgProcResult<Vec<f32>> {
 
     let mut filter = vec![0.0; (size * size) as usize];
     let k = ((size - 1) / 2) as i32;
+    let sigma = sigma as f64; // The powers of sigma may leave the range of f32
 
     for i in 0..(size as i32) {
         for j in 0..(size as i32) {
             if i <= j {
-                let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f32) / (2.0 * sigma * sigma);
-                let num = (-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp));
+                let exp = -(((i - k) * (i - k) + (j - k) * (j - k)) as f64) / (2.0 * sigma * sigma);
+                let num = ((-1.0 / (PI * sigma.powf(4.0))) * (1.0 + exp) * (E.powf(exp))) as f32;
                 filter[(i * size as i32 + j) as usize] = num;
 
                 if i != j {
-- 
2.43.0


From cb69fd297ddd600f2a77155a633dcda1ff5792ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:39 +0000
Subject: [PATCH 35/37] fix: distance between coordinates that f32 cannot tell
 apart

---
 src/util/math.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/math.rs b/src/util/math.rs
index 00b8763..09f818f 100644
--- a/src/util/math.rs
+++ b/src/util/math.rs
@@ -227,10 +227,10 @@ pub fn apply_2d_kernel(input: &SubImage<f32>, kernel: &[f32]) -> ImgProcResult<V
 
 /// Calculates the distance between two points
 pub fn distance(x_1: u32, y_1: u32, x_2: u32, y_2: u32) -> f32 {
-    let x_dist = (x_1 as f32) - (x_2 as f32);
-    let y_dist = (y_1 as f32) - (y_2 as f32);
+    let x_dist = (x_1 as f64) - (x_2 as f64);
+    let y_dist = (y_1 as f64) - (y_2 as f64);
 
-    ((x_dist * x_dist) + (y_dist * y_dist)).sqrt()
+    ((x_dist * x_dist) + (y_dist * y_dist)).sqrt() as f32
 }
 
 /// Calculates the Gaussian function for G_sigma(x)
-- 
2.43.0


From 3971a3d197bc5d3f423e5b77729895179f58de3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:23 +0000
Subject: [PATCH 36/37] fix: bicubic and Lanczos scaling skipped a pixel at
 positions just below whole numbers

---
 src/transform.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transform.rs b/src/transform.rs
index c561b59..e344489 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -457,10 +457,10 @@ fn interpolate_bicubic(input: &Image<f32>, x_factor: f32, y_factor: f32, x: u32,
 
     let mut p_out = vec![0.0; input.info().channels as usize];
     for m in -1..3 {
-        let x_clamp = (x_in + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
+        let x_clamp = (x_in.floor() + (m as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
 
         for n in -1..3 {
-            let y_clamp = (y_in + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
+            let y_clamp = (y_in.floor() + (n as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
             let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
             let r = util::cubic_weighting_fn((m as f32) - delta_x)
                 * util::cubic_weighting_fn(delta_y - (n as f32));
@@ -482,10 +482,10 @@ fn interpolate_lanczos(input: &Image<f32>, x_factor: f32, y_factor: f32, size: u
 
     let mut p_out = vec![0.0; input.info().channels as usize];
     for i in (1 - (size as i32))..(size as i32 + 1) {
-        let x_clamp = (x_in + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
+        let x_clamp = (x_in.floor() + (i as f32)).clamp(0.0, input.info().width as f32 - 1.0) as u32;
 
         for j in (1 - (size as i32))..(size as i32 + 1) {
-            let y_clamp = (y_in + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
+            let y_clamp = (y_in.floor() + (j as f32)).clamp(0.0, input.info().height as f32 - 1.0) as u32;
             let p_in = input.get_pixel_unchecked(x_clamp, y_clamp);
             let lanczos = util::lanczos_kernel(delta_x - (i as f32), size as f32)
                 * util::lanczos_kernel(delta_y - (j as f32), size as f32);
-- 
2.43.0


From 8c5c0100bf07454cb9847661721ef63e0cf6fbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:27 +0000
Subject: [PATCH 37/37] fix: extreme radius of the alpha-trimmed mean
 overflowed before its arguments were checked

---
 src/filter/median.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filter/median.rs b/src/filter/median.rs
index 88b03f6..cdefe2d 100644
--- a/src/filter/median.rs
+++ b/src/filter/median.rs
@@ -27,9 +27,9 @@ pub fn median_filter(input: &Image<u8>, radius: u32) -> ImgProcResult<Image<u8>>
 /// pixels in a `(2 * radius + 1) x (2 * radius + 1)` kernel in the input image, with the lowest
 /// `alpha / 2` pixels and the highest `alpha / 2` pixels removed.
 pub fn alpha_trimmed_mean_filter(input: &Image<u8>, radius: u32, alpha: u32) -> ImgProcResult<Image<u8>> {
-    let size = 2 * radius + 1;
+    let size = 2 * radius as u64 + 1;
     error::check_even(alpha, "alpha")?;
-    if alpha >= (size * size) {
+    if alpha as u64 >= size.saturating_mul(size) {
         return Err(ImgProcError::InvalidArgError(format!("invalid alpha: size is {}, but alpha is {}", size, alpha)));
     }
 
-- 
2.43.0


From 0020193a73b271b12456a99246839012921710b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 01/11] fix: only cache control register settings the camera
 has accepted

set_control_register updated the cached access pattern and resolution
correction before writing to the camera. If the write failed, later images
were decoded with settings the camera never received.
---
 mlx9064x/src/driver.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/driver.rs b/mlx9064x/src/driver.rs
index 2bd10e1..e57a58d 100644
--- a/mlx9064x/src/driver.rs
+++ b/mlx9064x/src/driver.rs
@@ -161,8 +161,9 @@ where
     }
 
     fn set_control_register(&mut self, register: ControlRegister) -> Result<(), Error<I2C>> {
-        self.update_control_register(&register);
         register.to_i2c(&mut self.bus, self.address)?;
+        // Only update the cached values once the camera has accepted the new settings.
+        self.update_control_register(&register);
         Ok(())
     }
 
-- 
2.43.0


From b8a446f0b1b135ddc0568c8c7e94cec07226d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/11] fix: apply the resolution correction to the measured
 supply voltage only

Per the datasheets V_DD is (Resolution_corr * V_DDpix - V_DD25) / K_VDD + V_DD0,
but the correction was applied to the whole of delta V, so supply voltage,
ambient temperature and every pixel were wrong whenever the ADC resolution
differed from the calibrated one. Nothing changes when the two are equal.
---
 mlx9064x/src/calculations.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 75bd682..08f7f96 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -172,7 +172,8 @@ pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i
 /// \begin{align*}
 /// V\_{DD} &= \frac{\text{Resolution}\_\text{corr} \* V\_{DD\_{pix}} - V\_{DD\_{25}}}{K\_{V\_{DD}}} +
 ///          V\_{DD\_0}\newline
-///         &= \text{Resolution}\_\text{corr} * \Delta V + V\_{DD\_0}
+///         &= \text{Resolution}\_\text{corr} * \Delta V +
+///          \frac{(\text{Resolution}\_\text{corr} - 1) * V\_{DD\_{25}}}{K\_{V\_{DD}}} + V\_{DD\_0}
 /// \end{align*}
 ///
 /// $V_{DD_{0}}$ is retrieved from the `calibration` argument, while $\Delta V$ (`delta_v`) is the
@@ -187,7 +188,20 @@ pub fn v_dd<'a, Clb: CalibrationData<'a>>(
     resolution_correction: f32,
     delta_v: f32,
 ) -> f32 {
-    delta_v * resolution_correction + calibration.v_dd_0()
+    corrected_delta_v(calibration, resolution_correction, delta_v) + calibration.v_dd_0()
+}
+
+/// Apply the resolution correction to $\Delta V$
+///
+/// The correction applies to $V\_{DD\_{pix}}$ only, as $V\_{DD\_{25}}$ is already expressed in the
+/// resolution used for calibration.
+fn corrected_delta_v<'a, Clb: CalibrationData<'a>>(
+    calibration: &'a Clb,
+    resolution_correction: f32,
+    delta_v: f32,
+) -> f32 {
+    let reference = f32::from(calibration.v_dd_25()) / f32::from(calibration.k_v_dd());
+    delta_v * resolution_correction + reference * (resolution_correction - 1f32)
 }
 
 /// Calculate $V\_{PTAT\_{art}}$
@@ -376,7 +390,8 @@ impl CommonIrData {
         let v_dd = v_dd(calibration, resolution_correction, delta_v);
         // Labelled V_PTAT in the formulas, but T_a_PTAT in the memory map.
         let v_ptat_art = v_ptat_art(calibration, ram.t_a_ptat, ram.t_a_v_be);
-        let t_a = ambient_temperature(calibration, v_ptat_art, delta_v);
+        let corrected_delta_v = corrected_delta_v(calibration, resolution_correction, delta_v);
+        let t_a = ambient_temperature(calibration, v_ptat_art, corrected_delta_v);
         let gain = calibration.gain() / f32::from(ram.gain);
         Self {
             gain,
-- 
2.43.0


From 2078b13f20dbbe1bd135d29eb705d66ab91d889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 03/11] fix: avoid integer overflow in delta_v

A supply voltage reading far from the calibrated value (a garbled read, or a
high ADC resolution) overflowed the i16 subtraction.
---
 mlx9064x/src/calculations.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 08f7f96..2ef677f 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -159,7 +159,9 @@ const KELVINS_TO_CELSIUS: f32 = 273.15;
 /// while $V_{DD_{pix}}$ (`v_dd_pixel`) is read from the camera's RAM.
 #[doc = include_str!("katex.html")]
 pub fn delta_v<'a, Clb: CalibrationData<'a>>(calibration: &'a Clb, v_dd_pixel: i16) -> f32 {
-    f32::from(v_dd_pixel - calibration.v_dd_25()) / f32::from(calibration.k_v_dd())
+    // The difference of two i16 values may not fit in an i16, but is exact in an f32.
+    let difference = f32::from(v_dd_pixel) - f32::from(calibration.v_dd_25());
+    difference / f32::from(calibration.k_v_dd())
 }
 
 /// Calculate $V_{DD}$
-- 
2.43.0


From 7aced610db49d67c0ae38352e3e349688f5f525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 04/11] fix: reject EEPROM dumps that are too short instead of
 panicking

The MLX90640 check compared a length in bytes with a length in words (and was
one short), and the MLX90641 had no check at all.
---
 mlx9064x/src/mlx90640/eeprom.rs | 2 +-
 mlx9064x/src/mlx90641/eeprom.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index b0ec12d..812f910 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -250,7 +250,7 @@ impl Mlx90640Calibration {
     /// The buffer must cover *all* of the EEPROM.
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
-        let eeprom_length = usize::from(EepromAddress::End - EepromAddress::Base);
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
         if buf.len() < eeprom_length {
             return Err(LibraryError::Other(
                 "Not enough space left in buffer to be a full EEPROM dump",
diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 44da0cb..e4573f6 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -84,6 +84,12 @@ pub struct Mlx90641Calibration {
 impl Mlx90641Calibration {
     pub fn from_data(data: &[u8]) -> Result<Self, LibraryError> {
         let mut buf = data;
+        let eeprom_length = (usize::from(EepromAddress::End - EepromAddress::Base) + 1) * WORD_SIZE;
+        if buf.len() < eeprom_length {
+            return Err(LibraryError::Other(
+                "Not enough space left in buffer to be a full EEPROM dump",
+            ));
+        }
         // Much like the MLX90640 implementation, this is a mess of a function as the data is
         // scattered across the EEPROM.
         // Skip past the per-pixel values
-- 
2.43.0


From d7c4c89dee94083a07d3f426dacfa9bb19ad236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 05/11] fix: use all 16 bits of the MLX90641 average pixel
 offset

The two EEPROM words are combined into a full 16-bit signed value, but it was
then sign extended from 11 bits.
---
 mlx9064x/src/mlx90641/eeprom.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index e4573f6..7c35ae4 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -350,8 +350,7 @@ impl PerPixelCalibration {
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
         let offset_scale = 2i16.pow(offset_scale as u32);
-        let offset_average_bytes = get_combined_word(&mut buf)?;
-        let offset_average = i16_from_i11(&offset_average_bytes[..]);
+        let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
         let k_ta_average = get_hamming_i16(&mut buf)?;
-- 
2.43.0


From f8b3f3d40e1832ad152e06489a507f31509bc8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 06/11] fix: keep the fractional part of the MLX90640
 Alpha_PTAT

The datasheet divides the 4-bit EEPROM value by 4; integer division dropped
the two fractional bits.
---
 mlx9064x/src/mlx90640/eeprom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 812f910..6df8eee 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -261,7 +261,8 @@ impl Mlx90640Calibration {
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
-        let alpha_ptat = alpha_ptat / 4 + 8;
+        // This is a real division, two of the bits are fractional.
+        let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
@@ -380,7 +381,7 @@ impl Mlx90640Calibration {
             k_v_ptat,
             k_t_ptat,
             v_ptat_25: v_ptat_25.into(),
-            alpha_ptat: alpha_ptat.into(),
+            alpha_ptat,
             gain: gain.into(),
             k_s_ta,
             corner_temperatures,
-- 
2.43.0


From c2fc4009b544ef9782d4063f7d3ccbfc9d2ba929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 07/11] fix: avoid integer overflow when scaling MLX90640 pixel
 calibration

Row, column and remainder coefficients are scaled by up to 2^15, which
overflows an i16. Use i32 for the intermediate values, and report an offset
which can not be represented as invalid data.
---
 mlx9064x/src/mlx90640/eeprom.rs | 36 ++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 6df8eee..62787a1 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright © 2021 Will Ross
+use core::convert::TryFrom;
 use core::iter;
 use core::slice;
 
@@ -91,25 +92,26 @@ impl Mlx90640Calibration {
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
-    ) -> ([i16; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
+    ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
-        let offset_average = data.get_i16();
+        // The scaled values can be larger than an i16, so use i32 for intermediate values.
+        let offset_average = i32::from(data.get_i16());
         let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
         {
             let rows_coefficients = word_to_i4s(data);
-            // Create a nice lazy iterator that converts the values to i16, scales them, and
+            // Create a nice lazy iterator that converts the values to i32, scales them, and
             // reverses that order of the data (because the data is laid out backwards in the
             // EEPROM).
             let rows_coefficients = rows_coefficients
                 .into_iter()
                 //let rows_coefficients = core::array::IntoIter::new(rows_coefficients)
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << row_scale)
                 .rev();
             for (row, coefficient) in row_chunks
@@ -128,7 +130,7 @@ impl Mlx90640Calibration {
             let column_coefficients = column_coefficients
                 .iter()
                 .copied()
-                .map(i16::from)
+                .map(i32::from)
                 .map(|coeff| coeff << column_scale)
                 .rev();
             for row in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH) {
@@ -183,7 +185,7 @@ impl Mlx90640Calibration {
     /// this value is chosen from four values, determined by if the row and column indices are even
     /// or odd. The rest of the calculation is performed later, with the rest of the per-pixel
     /// calculations.
-    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i16> {
+    fn generate_k_ta_pixels(data: &mut &[u8]) -> impl Iterator<Item = i32> {
         let source_data: ArrayVec<i8, 4> = (0..4).map(|_| data.get_i8()).collect();
         let source_data = source_data.into_inner().unwrap();
         Self::repeat_chessboard(source_data)
@@ -259,14 +261,15 @@ impl Mlx90640Calibration {
         // Skip the first 16 words, they're irrelevant
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
-        let (mut offset_reference_pixels, offset_correction_remainder_scale, alpha_ptat) =
+        let (mut offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         // This is a real division, two of the bits are fractional.
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
             Self::calculate_bulk_pixel_calibration(&mut buf);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
-            alpha_pixels.into_iter().map(f32::from).collect();
+            // i32 to f32 is not a lossless conversion in general, but these values fit in 24 bits.
+            alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
         // Safe to unwrap as the length of pixel arrays are *all* Mlx90640::NUM_PIXELS long.
         let mut alpha_pixels = alpha_pixels.into_inner().unwrap();
         // Calculate the actual alpha scaling value from the exponent value. The alpha scaling
@@ -338,7 +341,7 @@ impl Mlx90640Calibration {
         let mut outlier_pixels = FlagArray::default();
         // Calculate the rest of the per-pixel data using the remainder/k_ta data
         let mut k_ta_pixels = [0f32; Mlx90640::NUM_PIXELS];
-        offset_reference_pixels
+        offset_pixels
             .iter_mut()
             .zip(alpha_pixels.iter_mut())
             .zip(lazy_k_ta_pixels)
@@ -354,19 +357,19 @@ impl Mlx90640Calibration {
                         failed.set(true);
                     } else {
                         // Normal dance to extend the sign bit from an i6 to an i8
-                        let offset_remainder = i16::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
+                        let offset_remainder = i32::from(i8::from_ne_bytes([high & 0xFC]) >> 2);
                         *offset += offset_remainder << offset_correction_remainder_scale;
                         // alpha is going to be a little weird: not only is there the i6-shift-dance,
                         // but there's an extra shift right by 4 to drop the k_ta and outlier bits.
                         let alpha_remainder = (i16::from_be_bytes([high & 0x03, low]) << 6) >> 10;
-                        *alpha += f32::from(alpha_remainder << alpha_correction_remainder_scale);
+                        let alpha_remainder = i32::from(alpha_remainder);
+                        *alpha += (alpha_remainder << alpha_correction_remainder_scale) as f32;
                         *alpha /= alpha_scale;
                         // To try to keep floating point errors down as long as possible, do all the
                         // operations for the numerator as ints, then convert to floats for the final
                         // division.
-                        let k_ta_remainder = i16::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
-                        let k_ta_numerator =
-                            f32::from(k_ta_rc + (k_ta_remainder << k_ta_scale2_exp));
+                        let k_ta_remainder = i32::from(i8::from_ne_bytes([low & 0x0E]) << 4 >> 5);
+                        let k_ta_numerator = (k_ta_rc + (k_ta_remainder << k_ta_scale2_exp)) as f32;
                         *k_ta = k_ta_numerator / k_ta_scale1;
                         // If the last bit of the low byte is set, this is an outlier (or deviant)
                         // pixel.
@@ -374,6 +377,11 @@ impl Mlx90640Calibration {
                     }
                 },
             );
+        let mut offset_reference_pixels = [0i16; Mlx90640::NUM_PIXELS];
+        for (offset_reference, offset) in offset_reference_pixels.iter_mut().zip(offset_pixels) {
+            *offset_reference = i16::try_from(offset)
+                .map_err(|_| LibraryError::InvalidData("A pixel offset is out of range"))?;
+        }
         Ok(Self {
             k_v_dd,
             v_dd_25,
-- 
2.43.0


From bba892c09647329bf46b2190bd1f3756bcfed34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 08/11] fix: treat the MLX90640 average pixel sensitivity as
 unsigned

The datasheet only sign extends the average offset; an average sensitivity of
0x8000 or more was read as a negative number.
---
 mlx9064x/src/mlx90640/eeprom.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlx9064x/src/mlx90640/eeprom.rs b/mlx9064x/src/mlx90640/eeprom.rs
index 62787a1..aacc64c 100644
--- a/mlx9064x/src/mlx90640/eeprom.rs
+++ b/mlx9064x/src/mlx90640/eeprom.rs
@@ -88,18 +88,21 @@ impl Mlx90640Calibration {
     /// Remainder data will be added in afterwards. This function is used for both offset and
     /// sensitivity (alpha) arrays. The given buffer must be at the word containing the column, row
     /// and remainder scaling factors.
+    /// The average offset is a signed value, while the average sensitivity is unsigned, so
+    /// `average_from_bits` is used to convert the raw value from the EEPROM.
     /// The calculated array, the remainder scaling factor, and the value occupying the 4 bits
     /// preceding the scaling factors are returned (in that order).
     fn calculate_bulk_pixel_calibration(
         data: &mut &[u8],
+        average_from_bits: fn(u16) -> i32,
     ) -> ([i32; <Self as CalibrationData>::Camera::NUM_PIXELS], u8, u8) {
         let (extra_value, row_scale, column_scale, remainder_scale) = {
             let scales = word_to_u4s(data);
             (scales[0], scales[1], scales[2], scales[3])
         };
         // The scaled values can be larger than an i16, so use i32 for intermediate values.
-        let offset_average = i32::from(data.get_i16());
-        let mut pixel_calibration = [offset_average; Mlx90640::NUM_PIXELS];
+        let average = average_from_bits(data.get_u16());
+        let mut pixel_calibration = [average; Mlx90640::NUM_PIXELS];
         const VALUES_PER_DATA_ROW: usize = 4;
         // Add row offsets
         for row_chunks in pixel_calibration.chunks_exact_mut(Mlx90640::WIDTH * VALUES_PER_DATA_ROW)
@@ -262,11 +265,11 @@ impl Mlx90640Calibration {
         buf.advance(WORD_SIZE * 16);
         // alpha_PTAT and offset compensation correction scales
         let (mut offset_pixels, offset_correction_remainder_scale, alpha_ptat) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, |raw| i32::from(raw as i16));
         // This is a real division, two of the bits are fractional.
         let alpha_ptat = f32::from(alpha_ptat) / 4f32 + 8f32;
         let (alpha_pixels, alpha_correction_remainder_scale, alpha_scale_exp) =
-            Self::calculate_bulk_pixel_calibration(&mut buf);
+            Self::calculate_bulk_pixel_calibration(&mut buf, i32::from);
         let alpha_pixels: ArrayVec<f32, { Mlx90640::NUM_PIXELS }> =
             // i32 to f32 is not a lossless conversion in general, but these values fit in 24 bits.
             alpha_pixels.into_iter().map(|alpha| alpha as f32).collect();
-- 
2.43.0


From 432c4ad8197c7e8cdc2083ffb268b07e85501800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 09/11] fix: avoid integer overflow when scaling MLX90641 pixel
 offsets

Large scale exponents in the EEPROM overflowed i16. Report an offset which
can not be represented as invalid data instead.
---
 mlx9064x/src/mlx90641/eeprom.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/mlx9064x/src/mlx90641/eeprom.rs b/mlx9064x/src/mlx90641/eeprom.rs
index 7c35ae4..77fa983 100644
--- a/mlx9064x/src/mlx90641/eeprom.rs
+++ b/mlx9064x/src/mlx90641/eeprom.rs
@@ -2,6 +2,7 @@
 // Copyright © 2021 Will Ross
 
 //! MLX90641-specific EEPROM handling
+use core::convert::TryFrom;
 use core::iter;
 use core::slice;
 
@@ -349,7 +350,6 @@ impl PerPixelCalibration {
         buf.advance(EepromAddress::OffsetCompensationScale.offset_from_base() * WORD_SIZE);
         // Offset scale is the upper 6 bits. The other bits are reserved.
         let (offset_scale, _) = get_6_5_split(&mut buf)?;
-        let offset_scale = 2i16.pow(offset_scale as u32);
         let offset_average = i16::from_be_bytes(get_combined_word(&mut buf)?);
         // the next two words are reserved.
         buf.advance(WORD_SIZE * 2);
@@ -433,16 +433,17 @@ impl PerPixelCalibration {
                 k_ta_pixels.push(Default::default());
                 k_v_pixels.push(Default::default());
             } else {
-                // NOTE: There's a chance this will overflow, if offset_scale is too large
-                let offset_delta_0 = offset_0_raw * offset_scale;
-                let offset_delta_1 = offset_1_raw * offset_scale;
                 // The contents of the offset pixels are initialized to offset_average
-                offset_reference_pixels
-                    .0
-                    .push(offset_average + offset_delta_0);
-                offset_reference_pixels
-                    .1
-                    .push(offset_average + offset_delta_1);
+                offset_reference_pixels.0.push(scale_offset(
+                    offset_0_raw,
+                    offset_average,
+                    offset_scale,
+                )?);
+                offset_reference_pixels.1.push(scale_offset(
+                    offset_1_raw,
+                    offset_average,
+                    offset_scale,
+                )?);
                 // The datasheet is a little hard to read for this, but alpha_EE is divided by
                 // (2^{11} - 1) = 2047
                 alpha_pixels.push((f32::from(alpha_raw) / 2047f32) * alpha_reference);
@@ -547,6 +548,15 @@ fn get_6_5_split(buf: &mut &[u8]) -> Result<(u8, u8), LibraryError> {
     Ok(split_6_5(word))
 }
 
+/// Calculate the offset of a pixel from its raw value, the average offset and the scale exponent.
+///
+/// The raw value is 11 bits and the scale exponent is 6 bits, so the intermediate value might not
+/// fit in anything smaller than an i128.
+fn scale_offset(raw: i16, average: i16, scale_exp: u8) -> Result<i16, LibraryError> {
+    let offset = (i128::from(raw) << scale_exp) + i128::from(average);
+    i16::try_from(offset).map_err(|_| LibraryError::InvalidData("A pixel offset is out of range"))
+}
+
 fn i16_from_i11(bytes: &[u8]) -> i16 {
     i16_from_bits(bytes, 11)
 }
-- 
2.43.0


From 86e290c24957ef988c05f12f93f8e76eb6ce9dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 10/11] fix: preserve the reserved bits of the I2C
 configuration register

Register documents that reserved bits keep their values when a register is
modified; the status and control registers do so, but reading and writing back
the I2C configuration register cleared them.
---
 mlx9064x/src/register.rs | 45 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/mlx9064x/src/register.rs b/mlx9064x/src/register.rs
index 65e9016..706dadd 100644
--- a/mlx9064x/src/register.rs
+++ b/mlx9064x/src/register.rs
@@ -1,5 +1,6 @@
 //! Types for interacting with Melexis camera registers.
 
+use core::cmp::Ordering;
 use core::convert::{TryFrom, TryInto};
 use core::time::Duration;
 
@@ -423,13 +424,16 @@ impl From<ControlRegister> for [u8; 2] {
 }
 
 /// Represents the possible states of the I²C configuration register (0x800F).
-#[derive(Clone, Copy, Debug, Eq, PartialEq, PartialOrd, Ord)]
+#[derive(Clone, Copy, Debug)]
 pub struct I2cRegister {
     fast_mode_plus: bool,
 
     i2c_threshold_halved: bool,
 
     sda_current_limiter: bool,
+
+    /// The values of the reserved bits, so that they can be written back unchanged.
+    reserved: u16,
 }
 
 impl I2cRegister {
@@ -470,16 +474,52 @@ impl I2cRegister {
     }
 }
 
+impl I2cRegister {
+    /// The bits which are not reserved.
+    const FIELDS_MASK: u16 = 0x0007;
+
+    /// The documented fields, for comparing two registers.
+    fn fields(&self) -> (bool, bool, bool) {
+        (
+            self.fast_mode_plus,
+            self.i2c_threshold_halved,
+            self.sda_current_limiter,
+        )
+    }
+}
+
 impl Default for I2cRegister {
     fn default() -> Self {
         Self {
             fast_mode_plus: true,
             i2c_threshold_halved: false,
             sda_current_limiter: true,
+            reserved: 0,
         }
     }
 }
 
+impl PartialEq for I2cRegister {
+    /// This method only compares non-reserved bits between two registers.
+    fn eq(&self, other: &Self) -> bool {
+        self.fields() == other.fields()
+    }
+}
+
+impl Eq for I2cRegister {}
+
+impl PartialOrd for I2cRegister {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for I2cRegister {
+    fn cmp(&self, other: &Self) -> Ordering {
+        self.fields().cmp(&other.fields())
+    }
+}
+
 impl Register for I2cRegister {
     fn write_mask() -> [u8; 2] {
         // the fourth bit is documented, but it is "reserved" at 0. It *isn't* documented to always
@@ -509,13 +549,14 @@ impl<'a> From<&'a [u8]> for I2cRegister {
             fast_mode_plus,
             i2c_threshold_halved,
             sda_current_limiter,
+            reserved: raw & !Self::FIELDS_MASK,
         }
     }
 }
 
 impl From<I2cRegister> for [u8; 2] {
     fn from(register: I2cRegister) -> Self {
-        let mut raw = 0u16;
+        let mut raw = register.reserved;
         // And here we translate back to "not disabled" land.
         if !register.fast_mode_plus {
             raw |= 0x0001;
-- 
2.43.0


From 3b8641da6d82ecd26765c89e5cee95eee9afeae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 11/11] fix: add the compensation pixel's interleave correction
 to its offset

The datasheet (and the manufacturer's driver) subtract (offset_CP_SP1 +
IL_CHESS_C1), scaled by the ambient temperature and supply voltage terms, in
interleaved mode. The correction was added to the pixel value instead.
---
 mlx9064x/src/calculations.rs | 52 +++++++++++++++++++++++++-----------
 mlx9064x/src/common.rs       |  2 ++
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/mlx9064x/src/calculations.rs b/mlx9064x/src/calculations.rs
index 2ef677f..98dd9b0 100644
--- a/mlx9064x/src/calculations.rs
+++ b/mlx9064x/src/calculations.rs
@@ -450,6 +450,38 @@ pub fn per_pixel_v_ir(
     pixel_offset
 }
 
+/// Calculate a measurement of raw IR captured by the compensation pixel
+///
+/// This is the same calculation as [`per_pixel_v_ir`], except that the datasheet adds the access
+/// pattern compensation to the reference offset instead of to the pixel value.
+fn compensation_pixel_v_ir<'a, Clb: CalibrationData<'a>>(
+    calibration: &'a Clb,
+    common: &CommonIrData,
+    ram: &RamData,
+    subpage: Subpage,
+    access_pattern: AccessPattern,
+) -> f32 {
+    let k_v = calibration.k_v_cp(subpage);
+    let k_ta = calibration.k_ta_cp(subpage);
+    let v_ir = per_pixel_v_ir(
+        ram.compensation_pixel,
+        common,
+        calibration.offset_reference_cp(subpage),
+        k_v,
+        k_ta,
+        None,
+    );
+    match calibration.access_pattern_compensation_cp(subpage, access_pattern) {
+        Some(access_mode_compensation) => {
+            let scaled_compensation = access_mode_compensation
+                * (1f32 + k_ta * (common.t_a - 25f32))
+                * (1f32 + k_v * (common.v_dd - 3.3f32));
+            v_ir - scaled_compensation / common.emissivity
+        }
+        None => v_ir,
+    }
+}
+
 /// Calculate a measurement of raw IR data for all pixels
 ///
 /// This function applies [`per_pixel_v_ir`] to each pixel belonging to the given subpage, writing
@@ -487,14 +519,8 @@ where
     let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
         // TODO: There's a note in the datasheet advising a moving average filter (length >=
         // 16) on the compensation pixel gain.
-        let compensation_pixel_offset = per_pixel_v_ir(
-            ram.compensation_pixel,
-            &common,
-            calibration.offset_reference_cp(subpage),
-            calibration.k_v_cp(subpage),
-            calibration.k_ta_cp(subpage),
-            calibration.access_pattern_compensation_cp(subpage, access_pattern),
-        );
+        let compensation_pixel_offset =
+            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
         // Premultiplying by the TGC here
         tgc * compensation_pixel_offset
     });
@@ -713,14 +739,8 @@ where
     let compensation_pixel_offset = calibration.temperature_gradient_coefficient().map(|tgc| {
         // TODO: There's a note in the datasheet advising a moving average filter (length >=
         // 16) on the compensation pixel gain.
-        let compensation_pixel_offset = per_pixel_v_ir(
-            ram.compensation_pixel,
-            &common,
-            calibration.offset_reference_cp(subpage),
-            calibration.k_v_cp(subpage),
-            calibration.k_ta_cp(subpage),
-            calibration.access_pattern_compensation_cp(subpage, access_pattern),
-        );
+        let compensation_pixel_offset =
+            compensation_pixel_v_ir(calibration, &common, &ram, subpage, access_pattern);
         // Premultiplying by the TGC here
         tgc * compensation_pixel_offset
     });
diff --git a/mlx9064x/src/common.rs b/mlx9064x/src/common.rs
index 4bbfacb..cee69da 100644
--- a/mlx9064x/src/common.rs
+++ b/mlx9064x/src/common.rs
@@ -216,6 +216,8 @@ pub trait CalibrationData<'a> {
     ) -> Self::AccessPatternCompensation;
 
     /// Equivalent to [`Self::access_pattern_compensation_pixels`] for compensation pixels.
+    ///
+    /// Unlike the values for the other pixels, this value is added to the reference offset.
     fn access_pattern_compensation_cp(
         &self,
         subpage: Subpage,
-- 
2.43.0


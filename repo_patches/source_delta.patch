From 554a1780638e50c40f82bf66967e6b05d9c5aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 01/47] fix: compute each bound of the vertex bounding box from
 its own axis

The bounds of one axis were updated from the values of another, so the box
did not contain the last vertex and its coordinates were clipped.
---
 src/vertices.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f97f85..3273ef6 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -44,10 +44,10 @@ pub fn save_tmf_vertices<W: Write>(
     //Get min and max x,y,z coords
     for vertex in vertices {
         min_x = min_x.min(vertex.0);
-        max_x = max_y.max(vertex.1);
-        min_y = min_z.min(vertex.2);
-        max_y = max_x.max(vertex.0);
-        min_z = min_y.min(vertex.1);
+        max_x = max_x.max(vertex.0);
+        min_y = min_y.min(vertex.1);
+        max_y = max_y.max(vertex.1);
+        min_z = min_z.min(vertex.2);
         max_z = max_z.max(vertex.2);
     }
     writer.write_all(&(min_x as f64).to_le_bytes())?;
-- 
2.43.0


From b9feae5ae660ae240bc5dba5aecbd7e3a951ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 02/47] fix: derive the z precision of vertices from the z
 extent, not the y extent

---
 src/vertices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 3273ef6..33149cd 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -67,7 +67,7 @@ pub fn save_tmf_vertices<W: Write>(
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-    let inc_z = (shortest_edge / sy) * precision.0;
+    let inc_z = (shortest_edge / sz) * precision.0;
     //Calculate write precision
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-- 
2.43.0


From daef7214faa4f07813d9e290b1991d7610bc53bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 03/47] fix: keep the shape of models smaller than 0.000001

The writer scaled coordinates by an extent clamped to 0.000001, while the
reader uses the real extent, so smaller models were squashed on reading.
---
 src/vertices.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 33149cd..c1f5293 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -61,9 +61,9 @@ pub fn save_tmf_vertices<W: Write>(
     let sy = max_y - min_y;
     let sz = max_z - min_z;
     // Ensure model size is not 0(prevents bugs)
-    let sx = sx.max(0.000_001);
-    let sy = sy.max(0.000_001);
-    let sz = sz.max(0.000_001);
+    let sx = sx.max(FloatType::MIN_POSITIVE);
+    let sy = sy.max(FloatType::MIN_POSITIVE);
+    let sz = sz.max(FloatType::MIN_POSITIVE);
     //Calculate minimal increment
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
-- 
2.43.0


From f8728e811c4ac98495612bf6f55745e6cde13b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 04/47] fix: save vertices with the closest representable value
 at any precision

Coordinates were truncated, doubling the deviation allowed by the precision
setting. At 25 bits and more the multiplier was rounded up, so the maximal
coordinate overflowed its bits and read back as the minimal one, and at 31
bits and more the shift overflowed.
---
 src/utilis.rs   |  8 ++++++++
 src/vertices.rs | 19 ++++++++-----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 1afb596..923cd3b 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -43,6 +43,14 @@ pub(crate) fn fsin(mut x: fprec) -> fprec {
     let z = (k as fprec) * x;
     x - z
 }
+/// Highest amount of bits a single value can be saved with.
+pub(crate) const MAX_PRECISION_BITS: u8 = 63;
+/// Maps *value*, a number between 0 and 1, to the closest value which can be saved using *bits* bits.
+pub(crate) fn quantize(value: FloatType, bits: u8) -> u64 {
+    let max = (1_u64 << bits) - 1;
+    let quantized = (f64::from(value).clamp(0.0, 1.0) * max as f64).round() as u64;
+    quantized.min(max)
+}
 pub(crate) fn magnitude(i: Vector3) -> FloatType {
     let xx = i.0 * i.0;
     let yy = i.1 * i.1;
diff --git a/src/vertices.rs b/src/vertices.rs
index c1f5293..38966a4 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,6 +1,7 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
 use crate::TMFImportError;
+use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, IndexType, Vector3};
 use std::io::{Read, Write};
@@ -72,18 +73,14 @@ pub fn save_tmf_vertices<W: Write>(
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    //Ensure precision is never below 1
-    let prec_x = prec_x.max(1);
-    let prec_y = prec_y.max(1);
-    let prec_z = prec_z.max(1);
+    //Ensure precision is never below 1, and never higher than can be read back
+    let prec_x = prec_x.clamp(1, MAX_PRECISION_BITS);
+    let prec_y = prec_y.clamp(1, MAX_PRECISION_BITS);
+    let prec_z = prec_z.clamp(1, MAX_PRECISION_BITS);
     // Write precision info
     writer.write_all(&[prec_x])?;
     writer.write_all(&[prec_y])?;
     writer.write_all(&[prec_z])?;
-    // Calculate float save multiplier
-    let mul_x = ((1 << prec_x) - 1) as FloatType;
-    let mul_y = ((1 << prec_y) - 1) as FloatType;
-    let mul_z = ((1 << prec_z) - 1) as FloatType;
     // Create unaligned rw modes
     let prec_x = UnalignedRWMode::precision_bits(prec_x);
     let prec_y = UnalignedRWMode::precision_bits(prec_y);
@@ -91,9 +88,9 @@ pub fn save_tmf_vertices<W: Write>(
     // Create writer
     let mut writer = UnalignedWriter::new(writer);
     for vertex in vertices {
-        let x = (((vertex.0 - min_x) / sx) * mul_x) as u64;
-        let y = (((vertex.1 - min_y) / sy) * mul_y) as u64;
-        let z = (((vertex.2 - min_z) / sz) * mul_z) as u64;
+        let x = quantize((vertex.0 - min_x) / sx, prec_x.bits());
+        let y = quantize((vertex.1 - min_y) / sy, prec_y.bits());
+        let z = quantize((vertex.2 - min_z) / sz, prec_z.bits());
 
         writer.write_unaligned(prec_x, x)?;
         writer.write_unaligned(prec_y, y)?;
-- 
2.43.0


From 6cd5df58b0e79fc8583166619b2b6e32aac1a716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 05/47] fix: save UVs with the closest representable value at
 any precision

UVs were truncated, exceeding the requested deviation, overflowed their bits
at high precision, and wrapped around when slightly over 1.
---
 src/uv.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uv.rs b/src/uv.rs
index 73b8db9..fb9f72c 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -1,6 +1,7 @@
 use crate::read_extension::ReadExt;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
 use crate::TMFImportError;
+use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::MAX_SEG_SIZE;
 use crate::{FloatType, Vector2};
 use std::io::{Read, Write};
@@ -14,7 +15,7 @@ impl UvPrecisionMode {
     /// let mode = UvPrecisionMode::form_texture_resolution(1024.0,0.1);
     /// ```
     pub fn form_texture_resolution(resolution: f32, pixel_dev: f32) -> Self {
-        Self((resolution / pixel_dev).log2().ceil() as u8)
+        Self(((resolution / pixel_dev).log2().ceil() as u8).min(MAX_PRECISION_BITS))
     }
 }
 impl Default for UvPrecisionMode {
@@ -36,14 +37,13 @@ pub fn save_uvs<W: Write>(
     precision: UvPrecisionMode,
 ) -> std::io::Result<()> {
     let precision = precision.0;
-    let multpiler = ((1 << precision) - 1) as FloatType;
     writer.write_all(&[precision])?;
     writer.write_all(&(uvs.len() as u64).to_le_bytes())?;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut writer = UnalignedWriter::new(writer);
     for uv in uvs.iter() {
-        let x = (uv.0 * multpiler) as u64;
-        let y = (uv.1 * multpiler) as u64;
+        let x = quantize(uv.0, precision.bits());
+        let y = quantize(uv.1, precision.bits());
         writer.write_unaligned(precision, x)?;
         writer.write_unaligned(precision, y)?;
     }
-- 
2.43.0


From 3a69e02b89c053f970f3dd5242b068c5e69fe4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 06/47] fix: keep the precision of normals between 1 and 63
 bits

A precision of 0 bits (large deviation in radians) reads back as normals
which are not unit vectors, one of 64 or more can't be read back.
---
 src/normals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index 9282d50..c34935c 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -22,7 +22,7 @@ impl NormalPrecisionMode {
     /// let dev_5_deg = NormalPrecisionMode::from_deg_dev(5.0);
     /// ```
     pub fn from_deg_dev(deg: FloatType) -> Self {
-        let prec = ((90.0 / deg).log2().ceil() as u8).max(1);
+        let prec = ((90.0 / deg).log2().ceil() as u8).clamp(1, MAX_PRECISION_BITS);
         Self(prec)
     }
     /// Creates NormalPrecisionMode from maximal allowed deviation angle in radians, for degrees use [`Self::from_deg_dev`]
@@ -34,7 +34,7 @@ impl NormalPrecisionMode {
     /// let dev_0_point_05_rad = NormalPrecisionMode::from_rad_dev(0.05);
     /// ```
     pub fn from_rad_dev(rad: FloatType) -> Self {
-        let prec = (FRAC_PI_2 / rad).log2().ceil() as u8;
+        let prec = ((FRAC_PI_2 / rad).log2().ceil() as u8).clamp(1, MAX_PRECISION_BITS);
         Self(prec)
     }
     pub(crate) fn bits(&self) -> u8 {
-- 
2.43.0


From 826f68957264a8aac225bb5f691e502b733249da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 07/47] fix: save normals and tangents with the closest
 representable value

Both angle and z were truncated, exceeding the requested deviation, and a z
slightly over 1 or a high precision overflowed the bits of the value.
---
 src/normals.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index c34935c..55256c6 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -68,7 +68,6 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    let multiplier = ((1 << precision.0) - 1) as FloatType;
     //Calculate asine
     let xy = (normal.0.abs(), normal.1.abs());
     let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
@@ -77,8 +76,8 @@ pub(crate) fn normal_to_encoding(
 
     let asine = asine / (PI / 2.0);
     //
-    let asine = (asine * multiplier) as u64;
-    let z = (normal.2.abs() * multiplier) as u64;
+    let asine = quantize(asine, precision.0);
+    let z = quantize(normal.2.abs(), precision.0);
     let sx = normal.0 < 0.0;
     let sy = normal.1 < 0.0;
     let sz = normal.2 < 0.0;
-- 
2.43.0


From c149631bc66101930549fd8ff6805a630cc2182d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:27 +0000
Subject: [PATCH 08/47] fix: calculate the angle of normals precisely

asin of a single precision value close to 1 is off by up to 0.02 degrees,
more than the deviation which can be requested.
---
 src/normals.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/normals.rs b/src/normals.rs
index 55256c6..2d9ba2b 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -68,11 +68,8 @@ pub(crate) fn normal_to_encoding(
     normal: Vector3,
     precision: &NormalPrecisionMode,
 ) -> (u64, u64, bool, bool, bool) {
-    //Calculate asine
-    let xy = (normal.0.abs(), normal.1.abs());
-    let xy_mag = (xy.0 * xy.0 + xy.1 * xy.1).sqrt();
-    let xy = (xy.0 / xy_mag, xy.1 / xy_mag);
-    let asine = xy.0.asin();
+    //Calculate asine (atan2 is precise for all angles, asin is not for those close to PI/2)
+    let asine = normal.0.abs().atan2(normal.1.abs());
 
     let asine = asine / (PI / 2.0);
     //
-- 
2.43.0


From 1965a2ec144f16b1b038c072b1739c35a44b1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 09/47] fix: save custom floats and colors with the closest
 representable value

Values were truncated, overflowed their bits at high precision or when
slightly over 1, and a color precision of 1 or more read back as NaN.
---
 src/custom_data.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index ab95fe6..18099aa 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -1,5 +1,6 @@
 use crate::read_extension::ReadExt;
 use crate::tmf::SectionType;
+use crate::utilis::{quantize, MAX_PRECISION_BITS};
 use crate::{FloatType, IndexType, TMFImportError, Vector4, MAX_SEG_SIZE};
 #[derive(Clone, Debug)]
 pub(crate) struct CustomDataSegment {
@@ -99,9 +100,8 @@ impl CustomData {
                 }
                 let span = max - min;
                 let prec = (span / prec).log2().ceil() as u8;
-                //Ensure precision is never 0(messes up the reader/writer);
-                let prec = prec.max(1);
-                let mul = ((1 << prec) - 1) as FloatType;
+                //Ensure precision is never 0(messes up the reader/writer), and never higher than can be read back;
+                let prec = prec.clamp(1, MAX_PRECISION_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&(min as f64).to_le_bytes())?;
                 target.write_all(&(max as f64).to_le_bytes())?;
@@ -109,7 +109,7 @@ impl CustomData {
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry = (((entry - min) / span) * mul) as u64;
+                    let entry = quantize((entry - min) / span, prec.bits());
                     writer.write_unaligned(prec, entry)?;
                 }
                 Ok(())
@@ -117,16 +117,17 @@ impl CustomData {
             Self::CustomColorRGBA(data, prec) => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedWriter};
                 let prec_bits = (1.0 / prec.min(1.0)).log2().ceil() as u8;
-                let mul = ((1 << prec_bits) - 1) as FloatType;
+                //Ensure precision is never 0, and never higher than can be read back;
+                let prec_bits = prec_bits.clamp(1, MAX_PRECISION_BITS);
                 target.write_all(&(data.len() as u64).to_le_bytes())?;
                 target.write_all(&[prec_bits])?;
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut writer = UnalignedWriter::new(target);
                 for entry in data.iter() {
-                    let entry_r = (entry.0 * mul) as u64;
-                    let entry_g = (entry.1 * mul) as u64;
-                    let entry_b = (entry.2 * mul) as u64;
-                    let entry_a = (entry.3 * mul) as u64;
+                    let entry_r = quantize(entry.0, prec_bits);
+                    let entry_g = quantize(entry.1, prec_bits);
+                    let entry_b = quantize(entry.2, prec_bits);
+                    let entry_a = quantize(entry.3, prec_bits);
                     writer.write_unaligned(prec, entry_r)?;
                     writer.write_unaligned(prec, entry_g)?;
                     writer.write_unaligned(prec, entry_b)?;
-- 
2.43.0


From ab0694836b6786de0dbe7b684da6efc973220bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 10/47] fix: return an error when length or precision of a
 custom color segment is invalid

---
 src/custom_data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 18099aa..9be85c4 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -250,7 +250,13 @@ impl CustomDataSegment {
             SectionType::CustomColorRGBASegment => {
                 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader};
                 let len = src.read_u64()?;
+                if len > MAX_SEG_SIZE as u64 {
+                    return Err(TMFImportError::SegmentTooLong);
+                }
                 let prec_bits = src.read_u8()?;
+                if prec_bits >= u64::BITS as u8 {
+                    return Err(TMFImportError::InvalidPrecision(prec_bits));
+                }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
                 let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
-- 
2.43.0


From f62416fb1cefc1499439016fd130c3c76cb873e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 11/47] fix: read pairs of 32 bit values

Reading two 32 bit values at once is a 64 bit read, which read_unaligned
does not support: it returned 0 without consuming any data, so indices and
custom integers over 2^31 were all read as their minimum.
---
 src/unaligned_rw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 05ff6a4..501713c 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -55,7 +55,8 @@ impl<R: Read> UnalignedReader<R> {
         if mode.0 == 0 {
             return Ok((0, 0));
         }
-        if mode.0 > (u64::BITS / 2) as u8 {
+        // The joined read must stay below 64 bits, the limit of `read_unaligned`.
+        if mode.0 >= (u64::BITS / 2) as u8 {
             Ok((self.read_unaligned(mode)?, self.read_unaligned(mode)?))
         } else {
             let read_size = UnalignedRWMode(mode.0 * 2);
-- 
2.43.0


From 11f57bf046be28d2ad4fcbe97230ffa73b5ec44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 12/47] fix: split pairs of values of different width at the
 second width

The joined value was split at the width of the first value, so pairs of
different widths, 64 bits in total or with a width of 0 read back wrong.
---
 src/unaligned_rw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index 501713c..e5f6eec 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -71,13 +71,13 @@ impl<R: Read> UnalignedReader<R> {
         mode1: UnalignedRWMode,
         mode2: UnalignedRWMode,
     ) -> Result<(u64, u64)> {
-        if mode1.0 + mode2.0 > u64::BITS as u8 {
+        if mode1.0 == 0 || mode2.0 == 0 || mode1.0 + mode2.0 >= u64::BITS as u8 {
             Ok((self.read_unaligned(mode1)?, self.read_unaligned(mode2)?))
         } else {
             let read_size = UnalignedRWMode(mode1.0 + mode2.0);
             let data = self.read_unaligned(read_size)?;
-            let r1 = data >> mode1.0;
-            let r2 = data << (u64::BITS as u8 - mode1.0) >> (u64::BITS as u8 - mode1.0);
+            let r1 = data >> mode2.0;
+            let r2 = data << (u64::BITS as u8 - mode2.0) >> (u64::BITS as u8 - mode2.0);
             Ok((r1, r2))
         }
     }
-- 
2.43.0


From e3c0a52c40bf615ed913bb75dde32dcc92e3a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 13/47] fix: do not overflow a shift when reading three values
 of 0 bits

---
 src/unaligned_rw.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/unaligned_rw.rs b/src/unaligned_rw.rs
index e5f6eec..86e0962 100644
--- a/src/unaligned_rw.rs
+++ b/src/unaligned_rw.rs
@@ -82,6 +82,9 @@ impl<R: Read> UnalignedReader<R> {
         }
     }
     pub fn read3_unaligned(&mut self, mode: UnalignedRWMode) -> Result<(u64, u64, u64)> {
+        if mode.0 == 0 {
+            return Ok((0, 0, 0));
+        }
         if mode.0 > (u64::BITS / 3) as u8 {
             let res_1_2 = self.read2_unaligned(mode)?;
             Ok((res_1_2.0, res_1_2.1, self.read_unaligned(mode)?))
-- 
2.43.0


From 7088bd0085038266b18e7b463bb096fb6e479f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 14/47] fix: save custom indices whose declared maximum exceeds
 the index type

A declared maximum of 2^63 or more gave 64 bit indices, which the reader
can't read and returns as all equal.
---
 src/vertices.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 38966a4..9f7e666 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -179,7 +179,8 @@ pub fn save_triangles<W: Write>(
     writer: &mut W,
 ) -> std::io::Result<()> {
     let min = *triangles.iter().min().unwrap_or(&0);
-    let precision = calc_prec(max_index);
+    // No index can be bigger than IndexType::MAX, so more precision is never needed(and 64 bits can't be read back).
+    let precision = calc_prec(max_index.min(IndexType::MAX as usize));
     writer.write_all(&precision.to_le_bytes())?;
     writer.write_all(&(triangles.len() as u64).to_le_bytes())?;
     writer.write_all(&u64::from(min).to_le_bytes())?;
-- 
2.43.0


From 31acc70bd24884c7b4fc91ef3d27e87fe635e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 15/47] fix: save an empty vertex array instead of panicking

---
 src/vertices.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 9f7e666..085f235 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -35,12 +35,13 @@ pub fn save_tmf_vertices<W: Write>(
     writer: &mut W,
     shortest_edge: FloatType,
 ) -> std::io::Result<()> {
-    let mut min_x = vertices[0].0;
-    let mut max_x = vertices[0].0;
-    let mut min_y = vertices[0].1;
-    let mut max_y = vertices[0].1;
-    let mut min_z = vertices[0].2;
-    let mut max_z = vertices[0].2;
+    let first = vertices.first().copied().unwrap_or((0.0, 0.0, 0.0));
+    let mut min_x = first.0;
+    let mut max_x = first.0;
+    let mut min_y = first.1;
+    let mut max_y = first.1;
+    let mut min_z = first.2;
+    let mut max_z = first.2;
     writer.write_all(&(vertices.len() as u64).to_le_bytes())?;
     //Get min and max x,y,z coords
     for vertex in vertices {
-- 
2.43.0


From 122e5815102f758143ecc2918a6fc1e75e36e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 16/47] fix: save meshes with degenerate, incomplete or no
 triangles

One edge without length made the shortest edge 0 and the vertex precision
255 bits (a panic, or a file which can't be read), a list of one or two
indices made it infinite (a panic). Such edges are now skipped. Lengths are
calculated in double precision, so short and long edges are not read as 0 or
infinity.
---
 src/tmf_exporter.rs | 11 ++++++++++-
 src/utilis.rs       |  9 +++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 0f59737..22a6bbd 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -49,7 +49,16 @@ fn calc_shortest_edge(
                     vertices[vertex_triangles[i * 3 + 2] as usize],
                     vertices[vertex_triangles[i * 3] as usize],
                 );
-                shortest_edge = shortest_edge.min(d1.min(d2.min(d3)));
+                // Edges without length (degenerate triangles) can't deviate in proportion to it.
+                for edge in [d1, d2, d3] {
+                    if edge > 0.0 {
+                        shortest_edge = shortest_edge.min(edge);
+                    }
+                }
+            }
+            if shortest_edge == FloatType::INFINITY {
+                // No whole triangle with an edge: same as a mesh with no faces.
+                return 0.1;
             }
             shortest_edge
         }
diff --git a/src/utilis.rs b/src/utilis.rs
index 923cd3b..c991762 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -69,10 +69,11 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-    let dx = a.0 - b.0;
-    let dy = a.1 - b.1;
-    let dz = a.2 - b.2;
-    (dx * dx + dy * dy + dz * dz).sqrt()
+    // Calculated in double precision, since squares of small and big numbers are out of range of single precision.
+    let dx = f64::from(a.0 - b.0);
+    let dy = f64::from(a.1 - b.1);
+    let dz = f64::from(a.2 - b.2);
+    (dx * dx + dy * dy + dz * dz).sqrt() as FloatType
 }
 pub(crate) fn dot(a: Vector3, b: Vector3) -> FloatType {
     a.0 * b.0 + a.1 * b.1 + a.2 * b.2
-- 
2.43.0


From dc36e8d7c87fa342e3b0abbfb0e3aef67dbf492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 17/47] fix: refuse to save mesh names longer than 65535 bytes

Their length was silently truncated, producing a corrupt file.
---
 src/tmf_exporter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 22a6bbd..d540f54 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -74,7 +74,13 @@ fn calc_shortest_edge(
 
 pub(crate) fn write_mesh_name<W: std::io::Write>(w: &mut W, s: &str) -> std::io::Result<()> {
     let bytes = s.as_bytes();
-    w.write_all(&(bytes.len() as u16).to_le_bytes())?;
+    let Ok(len) = u16::try_from(bytes.len()) else {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh name is longer than 65535 bytes",
+        ));
+    };
+    w.write_all(&len.to_le_bytes())?;
     w.write_all(bytes)
 }
 fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
-- 
2.43.0


From 0a2ace31cd2261cf3f714d7045ca1db4d7346084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 18/47] fix: refuse to save meshes with more than 65535
 segments

Their segment count was silently truncated, producing a corrupt file.
---
 src/tmf_exporter.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index d540f54..57cf329 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -120,7 +120,13 @@ async fn write_mesh<W: std::io::Write>(
         encoded.push(seg.encode(p_info, &ei));
     }
     let encoded = futures::future::join_all(encoded).await;
-    target.write_all(&(encoded.len() as u16).to_le_bytes())?;
+    let Ok(segment_count) = u16::try_from(encoded.len()) else {
+        return Err(TMFExportError::IO(std::io::Error::new(
+            std::io::ErrorKind::InvalidInput,
+            "Mesh has more than 65535 segments",
+        )));
+    };
+    target.write_all(&segment_count.to_le_bytes())?;
     for seg in encoded {
         seg?.write(target)?;
     }
-- 
2.43.0


From 610212281572563afe52addc0ffc83901e9608e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 19/47] fix: save segments in the order of the mesh

Segments were written in reversed order, so of several custom data arrays
with the same name a different one was found after reading the file back.
---
 src/tmf_exporter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index 57cf329..d34fe51 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -94,6 +94,8 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
             new_segments.push(segment);
         }
     }
+    // Segments were taken from the end, restore their order.
+    new_segments.reverse();
     new_segments.into()
 }
 async fn write_mesh<W: std::io::Write>(
-- 
2.43.0


From 34f9b9819724a96c4595da75098381e228084e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 20/47] fix: apply the base index of a segment to every index,
 or return an error

The base was ignored for indices of 0 bits, adding it overflowed for
malformed files, and indices over the index type were silently truncated.
---
 src/tmf_importer.rs | 20 ++++++++++++++++----
 src/vertices.rs     |  7 ++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 040f45f..b5d44e9 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -255,6 +255,18 @@ pub(crate) async fn decode_custom_seg(
         panic!("Unreachable condition reached!");
     }
 }
+/// Adds the base of its segment to the *index*. Returns an error if the result is not a valid index.
+pub(crate) fn index_from_base(index: u64, base: u64) -> Result<IndexType, TMFImportError> {
+    index
+        .checked_add(base)
+        .and_then(|index| IndexType::try_from(index).ok())
+        .ok_or_else(|| {
+            TMFImportError::IO(std::io::Error::new(
+                std::io::ErrorKind::InvalidData,
+                "Index outside the range of the index type",
+            ))
+        })
+}
 pub(crate) fn read_default_triangles<R: std::io::Read>(
     mut src: R,
     data: &mut Vec<IndexType>,
@@ -272,16 +284,16 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     if precision_bits == 0 {
         use std::mem::MaybeUninit;
-        buf.fill(MaybeUninit::new(0));
+        buf.fill(MaybeUninit::new(index_from_base(0, min)?));
     } else {
         for index in 0..(length as usize) / 2 {
             let (i1, i2) = reader.read2_unaligned(precision)?;
-            buf[index * 2].write((i1 + min) as IndexType);
-            buf[index * 2 + 1].write((i2 + min) as IndexType);
+            buf[index * 2].write(index_from_base(i1, min)?);
+            buf[index * 2 + 1].write(index_from_base(i2, min)?);
         }
         if length % 2 != 0 {
             let i = reader.read_unaligned(precision)?;
-            buf[(length - 1) as usize].write((i + min) as IndexType);
+            buf[(length - 1) as usize].write(index_from_base(i, min)?);
         }
     }
     unsafe { data.set_len(length as usize) }
diff --git a/src/vertices.rs b/src/vertices.rs
index 085f235..e6a572a 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -1,4 +1,5 @@
 use crate::read_extension::ReadExt;
+use crate::tmf_importer::index_from_base;
 use crate::unaligned_rw::{UnalignedRWMode, UnalignedReader, UnalignedWriter};
 use crate::TMFImportError;
 use crate::utilis::{quantize, MAX_PRECISION_BITS};
@@ -207,11 +208,11 @@ pub(crate) fn read_triangles<R: Read>(
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
         let (i1, i2) = reader.read2_unaligned(precision)?;
-        res.push((i1 + min) as IndexType);
-        res.push((i2 + min) as IndexType);
+        res.push(index_from_base(i1, min)?);
+        res.push(index_from_base(i2, min)?);
     }
     for _i in 0..length % 2 {
-        res.push((reader.read_unaligned(precision)? + min) as IndexType);
+        res.push(index_from_base(reader.read_unaligned(precision)?, min)?);
     }
     Ok(res.into())
 }
-- 
2.43.0


From c03c5ad8468e191f84cca1b8c8d5dde49fad4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 21/47] fix: do not allocate memory for data a malformed file
 does not contain

Memory was allocated for the declared amount of elements (up to 2^31) and
the declared segment length (up to 2 GB) before reading any of them, so a
file of a few bytes could abort the process.
---
 src/custom_data.rs  | 14 +++++++-------
 src/normals.rs      |  2 +-
 src/tangents.rs     |  2 +-
 src/tmf.rs          | 11 +++++++++--
 src/tmf_importer.rs | 13 +++++++++++--
 src/uv.rs           |  2 +-
 src/vertices.rs     |  7 +++++--
 7 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/custom_data.rs b/src/custom_data.rs
index 9be85c4..d3f6347 100644
--- a/src/custom_data.rs
+++ b/src/custom_data.rs
@@ -235,10 +235,10 @@ impl CustomDataSegment {
                 let span = max - min;
                 let prec = UnalignedRWMode::precision_bits(prec);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![0.0; len as usize];
-                for float in &mut res {
+                let mut res = Vec::with_capacity((u16::MAX as usize).min(len as usize));
+                for _ in 0..len {
                     let val = reader.read_unaligned(prec)?;
-                    *float = (((val as f64) / div) * span + min) as FloatType;
+                    res.push((((val as f64) / div) * span + min) as FloatType);
                 }
                 let prec = (((max - min) / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
                 Ok(Self::new_raw(
@@ -259,17 +259,17 @@ impl CustomDataSegment {
                 }
                 let prec = UnalignedRWMode::precision_bits(prec_bits);
                 let mut reader = UnalignedReader::new(src);
-                let mut res = vec![(0.0, 0.0, 0.0, 0.0); len as usize];
+                let mut res = Vec::with_capacity((u16::MAX as usize).min(len as usize));
                 let div = ((1_u64 << prec_bits) - 1) as f64;
-                for vec4 in &mut res {
+                for _ in 0..len {
                     let (r, g) = reader.read2_unaligned(prec)?;
                     let (b, a) = reader.read2_unaligned(prec)?;
-                    *vec4 = (
+                    res.push((
                         ((r as f64) / div) as FloatType,
                         ((g as f64) / div) as FloatType,
                         ((b as f64) / div) as FloatType,
                         ((a as f64) / div) as FloatType,
-                    );
+                    ));
                 }
                 let prec = ((1.0 / ((1_u64 << prec_bits) as f64)) as FloatType) * 0.99999;
                 Ok(Self::new_raw(
diff --git a/src/normals.rs b/src/normals.rs
index 2d9ba2b..cf8885b 100644
--- a/src/normals.rs
+++ b/src/normals.rs
@@ -175,7 +175,7 @@ pub(crate) fn read_normal_array<R: Read>(reader: &mut R) -> Result<Box<[Vector3]
     }
     let precision = NormalPrecisionMode(precision);
     let mut reader = UnalignedReader::new(reader);
-    let mut normals = Vec::with_capacity(count);
+    let mut normals = Vec::with_capacity((u16::MAX as usize).min(count));
     for _ in 0..count {
         let normal = read_normal(precision, &mut reader)?;
         normals.push(normal);
diff --git a/src/tangents.rs b/src/tangents.rs
index f90622d..61f6d58 100644
--- a/src/tangents.rs
+++ b/src/tangents.rs
@@ -102,7 +102,7 @@ pub(crate) fn read_tangents<R: std::io::Read>(
     let mut reader = UnalignedReader::new(src);
     let prec = UnalignedRWMode::precision_bits(bits_prec);
     let tan_prec = TangentPrecisionMode::from_bits(bits_prec);
-    let mut tangents = Vec::with_capacity(count as usize);
+    let mut tangents = Vec::with_capacity((u16::MAX as usize).min(count as usize));
     for _ in 0..count {
         let handeness = reader.read_bit()?;
         let sx = reader.read_bit()?;
diff --git a/src/tmf.rs b/src/tmf.rs
index 3029058..f1f0446 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -146,8 +146,15 @@ impl EncodedSegment {
             return Err(TMFImportError::SegmentTooLong);
         }
         let compresion_type = CompressionType::from_u8(src.read_u8()?)?;
-        let mut data = vec![0; data_length];
-        src.read_exact(&mut data)?;
+        // Allocates as the data arrives: the declared length can't be trusted.
+        let mut data = Vec::new();
+        let mut limited = std::io::Read::take(src, data_length as u64);
+        std::io::Read::read_to_end(&mut limited, &mut data)?;
+        if data.len() != data_length {
+            return Err(TMFImportError::IO(std::io::Error::from(
+                std::io::ErrorKind::UnexpectedEof,
+            )));
+        }
         Ok(Self {
             data: data.into(),
             compresion_type,
diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index b5d44e9..839d3af 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -267,8 +267,8 @@ pub(crate) fn index_from_base(index: u64, base: u64) -> Result<IndexType, TMFImp
             ))
         })
 }
-pub(crate) fn read_default_triangles<R: std::io::Read>(
-    mut src: R,
+pub(crate) fn read_default_triangles(
+    mut src: &[u8],
     data: &mut Vec<IndexType>,
     ctx: &crate::tmf_importer::TMFImportContext,
 ) -> Result<(), TMFImportError> {
@@ -278,6 +278,15 @@ pub(crate) fn read_default_triangles<R: std::io::Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
+    if precision_bits >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision_bits));
+    }
+    // Ensure the segment really contains that many indices before allocating memory for them.
+    if length * u64::from(precision_bits) > src.len() as u64 * 8 {
+        return Err(TMFImportError::IO(std::io::Error::from(
+            std::io::ErrorKind::UnexpectedEof,
+        )));
+    }
     data.reserve(length as usize);
     let buf = data.spare_capacity_mut();
     let precision = UnalignedRWMode::precision_bits(precision_bits);
diff --git a/src/uv.rs b/src/uv.rs
index fb9f72c..d270bf5 100644
--- a/src/uv.rs
+++ b/src/uv.rs
@@ -62,7 +62,7 @@ pub fn read_uvs<R: Read>(reader: &mut R) -> Result<Box<[Vector2]>, TMFImportErro
     if precision >= u64::BITS as u8 {
         return Err(TMFImportError::InvalidPrecision(precision));
     }
-    let mut uvs = Vec::with_capacity(count as usize);
+    let mut uvs = Vec::with_capacity((u16::MAX as usize).min(count as usize));
     let divisor = ((1_u64 << precision) - 1) as FloatType;
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
diff --git a/src/vertices.rs b/src/vertices.rs
index e6a572a..1e51e26 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -139,7 +139,7 @@ pub fn read_tmf_vertices<R: Read>(reader: &mut R) -> Result<Box<[Vector3]>, TMFI
     if vertex_count > MAX_SEG_SIZE {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut vertices = Vec::with_capacity(vertex_count);
+    let mut vertices = Vec::with_capacity((u16::MAX as usize).min(vertex_count));
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..vertex_count {
         //let (x,y) = reader.read_pair_unaligned(prec_x,prec_y)?;
@@ -203,7 +203,10 @@ pub(crate) fn read_triangles<R: Read>(
     if length > MAX_SEG_SIZE as u64 {
         return Err(TMFImportError::SegmentTooLong);
     }
-    let mut res = Vec::with_capacity(length as usize);
+    if precision >= u64::BITS as u8 {
+        return Err(TMFImportError::InvalidPrecision(precision));
+    }
+    let mut res = Vec::with_capacity((u16::MAX as usize).min(length as usize));
     let precision = UnalignedRWMode::precision_bits(precision);
     let mut reader = UnalignedReader::new(reader);
     for _ in 0..(length / 2) {
-- 
2.43.0


From 3cfe4997f71b97b4a92a4820d0287224a0d28cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 22/47] fix: refuse compressed segments which can't be
 decompressed

The compression of all segments but triangles was ignored and the compressed
data read as if it was not; for triangles a wrong type was reported.
---
 src/tmf.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tmf.rs b/src/tmf.rs
index f1f0446..3800154 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -415,6 +415,11 @@ impl DecodedSegment {
         ctx: &crate::tmf_importer::TMFImportContext,
     ) -> Result<Self, TMFImportError> {
         //println!("Decoding segment of type:{:?}!",seg.seg_type());
+        if seg.seg_type != SectionType::Invalid && seg.compresion_type != CompressionType::None {
+            return Err(TMFImportError::UnsuportedCompressionType(
+                seg.compresion_type as u8,
+            ));
+        }
         match seg.seg_type {
             SectionType::Invalid => Ok(Self::Nothing),
             SectionType::VertexSegment => decode_vertex_seg(seg).await,
-- 
2.43.0


From 6bf8690e780e0dea7babc8b20a8da5d874af5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 23/47] fix: report an index equal to the length of its array
 as outside of it

---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index a68f0e8..0f96516 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -61,7 +61,7 @@ impl std::fmt::Debug for TMFIntegrityStatus {
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
 fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
     for index in array {
-        if *index > length as IndexType {
+        if *index >= length as IndexType {
             return Some(*index);
         }
     }
-- 
2.43.0


From 0ce0004adf4ef9590ebc9395de566fb8326a1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 24/47] fix: report UVs outside of the 0 to 1 range

The condition could never be true.
---
 src/verify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 0f96516..6e43ae1 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -99,7 +99,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(uvs) => {
             for uv in uvs {
-                if uv.0 < 0.0 && uv.1 < 0.0 && uv.0 > 1.0 && uv.1 > 1.0 {
+                if !((0.0..=1.0).contains(&uv.0) && (0.0..=1.0).contains(&uv.1)) {
                     return Err(TMFIntegrityStatus::UVOutsideRange(uv.0, uv.1));
                 }
             }
-- 
2.43.0


From 228422a8f949148c790d465ec61b63d2f63a573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 25/47] fix: report normals which are not a number as not
 normalized

---
 src/verify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/verify.rs b/src/verify.rs
index 6e43ae1..827b646 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -128,7 +128,8 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
         }
         Some(normals) => {
             for normal in normals {
-                if (1.0 - magnitude(*normal)).abs() > 0.001 {
+                let deviation = (1.0 - magnitude(*normal)).abs();
+                if deviation.is_nan() || deviation > 0.001 {
                     return Err(TMFIntegrityStatus::NormalsNotNormalized);
                 }
             }
-- 
2.43.0


From 2da5dc7ed460507a640fa25974d1ede04808a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 26/47] fix: normalize vectors of length 0 and of any magnitude

A vector of length 0 became NaN, lengths whose square is out of the range of
single precision gave infinite, 0 or not normalized vectors.
---
 src/utilis.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index c991762..4682c6f 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -58,14 +58,17 @@ pub(crate) fn magnitude(i: Vector3) -> FloatType {
     (xx + yy + zz).sqrt()
 }
 pub(crate) fn normalize(i: Vector3) -> Vector3 {
-    let xx = i.0 * i.0;
-    let yy = i.1 * i.1;
-    let zz = i.2 * i.2;
-    let mag = (xx + yy + zz).sqrt();
-    if mag.is_nan() {
+    // Calculated in double precision, since squares of small and big numbers are out of range of single precision.
+    let (x, y, z) = (f64::from(i.0), f64::from(i.1), f64::from(i.2));
+    let mag = (x * x + y * y + z * z).sqrt();
+    if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
-        (i.0 / mag, i.1 / mag, i.2 / mag)
+        (
+            (x / mag) as FloatType,
+            (y / mag) as FloatType,
+            (z / mag) as FloatType,
+        )
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-- 
2.43.0


From d0fab454dcbcfa67f69b9ef8b9efe76f8c835428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 27/47] fix: import .obj faces without UVs or normals, and
 refuse invalid ones

Faces were split at '/' and ' ' alike and read as consecutive triples, so
`f 1 2 3` and `f 1/1 2/2 3/3`, which write_obj produces, became wrong faces
or errors. Invalid, negative and missing indices silently became the first
one. White space other than a single space made lines be ignored or fail.
---
 src/model_importer.rs |  6 +++--
 src/obj.rs            | 61 +++++++++++++++++++++++++------------------
 src/triangulation.rs  | 45 ++++++++++++++++++-------------
 3 files changed, 66 insertions(+), 46 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 7a3e8b3..28145a5 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -108,8 +108,10 @@ impl ModelImporter {
         uv_indices: &[IndexType],
         normal_indices: &[IndexType],
     ) -> Result<(), String> {
-        if !(vertex_indices.len() == uv_indices.len()
-            && vertex_indices.len() == normal_indices.len())
+        // UVs and normals are optional, but either all corners of a face have them or none.
+        let len = vertex_indices.len();
+        if !((uv_indices.is_empty() || uv_indices.len() == len)
+            && (normal_indices.is_empty() || normal_indices.len() == len))
         {
             return Err(format!("Number of face indices must be equal for each index type, but was: {} vertices, {} uvs, {} normals.",vertex_indices.len(),uv_indices.len(),normal_indices.len()));
         }
diff --git a/src/obj.rs b/src/obj.rs
index 665f30c..740dd5b 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -4,10 +4,13 @@ use std::io::{BufReader, BufWriter, Error, ErrorKind, Read, Result, Write};
 pub(crate) const SMALL_VEC_CAP: usize = 8;
 fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TMFMesh, String)>> {
     let line = line?;
-    // Split the line by white spaces and '/' sign used in triangles
-    let mut split = line.split(&[' ', '/']);
+    // Split the line by white spaces
+    let mut split = line.split_whitespace();
     // Get the beginning of the line
-    let beg = match_split(split.next())?;
+    let beg = match split.next() {
+        Some(beg) => beg,
+        None => return Ok(None), // Ignore empty lines
+    };
     match beg {
         "#" => (), //Ignoring comments
         "mtllib" => (),
@@ -48,8 +51,15 @@ fn parse_float_type(float: &str) -> Result<FloatType> {
         )),
     }
 }
-fn parse_index(uint: &str) -> IndexType {
-    uint.parse::<IndexType>().unwrap_or(1)
+/// Parses a single index. Indices in `.obj` files start with 1.
+fn parse_index(uint: &str) -> Result<IndexType> {
+    match uint.parse::<IndexType>() {
+        Ok(index) if index > 0 => Ok(index - 1),
+        _ => Err(Error::new(
+            ErrorKind::Other,
+            format!("Invalid index: \"{uint}\"!"),
+        )),
+    }
 }
 fn match_split(split: Option<&str>) -> Result<&str> {
     match split {
@@ -61,39 +71,38 @@ fn match_split(split: Option<&str>) -> Result<&str> {
     }
 }
 use smallvec::SmallVec;
-use std::str::Split;
-fn load_indices(split: &mut Split<&[char; 2]>) -> Result<(IndexType, IndexType, IndexType)> {
-    let (i0, i1, i2) = (
-        match_split(split.next())?,
-        match_split(split.next())?,
-        match_split(split.next())?,
-    );
-    let (i0, i1, i2) = (parse_index(i0), parse_index(i1), parse_index(i2));
-    if i0 < 1 || i1 < 1 || i2 < 1 {
-        Err(std::io::Error::new(
-            std::io::ErrorKind::Other,
-            "Invalid index!",
-        ))
-    } else {
-        Ok((i0 - 1, i1 - 1, i2 - 1))
+use std::str::SplitWhitespace;
+/// Loads one corner of a face: `v`, `v/vt`, `v//vn` or `v/vt/vn`.
+fn load_indices(corner: &str) -> Result<(IndexType, Option<IndexType>, Option<IndexType>)> {
+    let mut split = corner.split('/');
+    let vertex = parse_index(match_split(split.next())?)?;
+    let mut optional_index = || match split.next() {
+        None | Some("") => Ok(None),
+        Some(index) => parse_index(index).map(Some),
+    };
+    let (uv, normal) = (optional_index()?, optional_index()?);
+    if split.next().is_some() {
+        return Err(Error::new(ErrorKind::Other, "Too many indices in a corner!"));
     }
+    Ok((vertex, uv, normal))
 }
 ///IMPORTANT TODO: It seems likey that normals and uvs are spwapped in this function. Investigate and cleanup the confusion and refactor triangulation
-fn load_face(split: &mut Split<&[char; 2]>, oi: &mut ModelImporter) -> Result<()> {
+fn load_face(split: &mut SplitWhitespace, oi: &mut ModelImporter) -> Result<()> {
     let mut vertex_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut uv_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
     let mut normal_indices: SmallVec<[IndexType; SMALL_VEC_CAP]> = SmallVec::new();
-    while let Ok((vertex_index, uv_index, normal_index)) = load_indices(split) {
+    for corner in split {
+        let (vertex_index, uv_index, normal_index) = load_indices(corner)?;
         vertex_indices.push(vertex_index);
-        uv_indices.push(uv_index);
-        normal_indices.push(normal_index);
+        uv_indices.extend(uv_index);
+        normal_indices.extend(normal_index);
     }
     match oi.push_face(&vertex_indices, &uv_indices, &normal_indices) {
         Ok(()) => Ok(()),
         Err(msg) => Err(Error::new(ErrorKind::Other, msg)),
     }
 }
-pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
+pub fn load_vec3(split: &mut SplitWhitespace) -> Result<Vector3> {
     let (x, y, z) = (
         match_split(split.next())?,
         match_split(split.next())?,
@@ -105,7 +114,7 @@ pub fn load_vec3(split: &mut Split<&[char; 2]>) -> Result<Vector3> {
         parse_float_type(z)?,
     ))
 }
-pub fn load_vec2(split: &mut Split<&[char; 2]>) -> Result<Vector2> {
+pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
     let (x, y) = (match_split(split.next())?, match_split(split.next())?);
     Ok((parse_float_type(x)?, parse_float_type(y)?))
 }
diff --git a/src/triangulation.rs b/src/triangulation.rs
index bde76a0..72dadbd 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -54,7 +54,11 @@ fn triangulate(
     mut normal_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
     mut uv_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
 ) {
-    debug_assert!(vertex_indices.len() == normal_indices.len()&& vertex_indices.len() == uv_indices.len());
+    // Normals and uvs are optional.
+    let has_normals = !normal_indices.is_empty();
+    let has_uvs = !uv_indices.is_empty();
+    debug_assert!(!has_normals || vertex_indices.len() == normal_indices.len());
+    debug_assert!(!has_uvs || vertex_indices.len() == uv_indices.len());
     let mut ear_vals: Vec<FloatType> = Vec::with_capacity(vertex_indices.len());
     for index in 0_usize..vertex_indices.len() {
         ear_vals.push(calc_ear_val_at_index(&vertex_indices, index, &mi.vertices));
@@ -74,17 +78,19 @@ fn triangulate(
         mi.push_vertex_index(vertex_indices[curr_index]);
         mi.push_vertex_index(vertex_indices[next_index]);
         
-        mi.push_normal_index(normal_indices[prev_index]);
-        mi.push_normal_index(normal_indices[curr_index]);
-        mi.push_normal_index(normal_indices[next_index]);
-        
-        mi.push_uv_index(uv_indices[prev_index]);
-        mi.push_uv_index(uv_indices[curr_index]);
-        mi.push_uv_index(uv_indices[next_index]);
-        
+        if has_normals {
+            mi.push_normal_index(normal_indices[prev_index]);
+            mi.push_normal_index(normal_indices[curr_index]);
+            mi.push_normal_index(normal_indices[next_index]);
+            normal_indices.remove(curr_index);
+        }
+        if has_uvs {
+            mi.push_uv_index(uv_indices[prev_index]);
+            mi.push_uv_index(uv_indices[curr_index]);
+            mi.push_uv_index(uv_indices[next_index]);
+            uv_indices.remove(curr_index);
+        }
         vertex_indices.remove(curr_index);
-        normal_indices.remove(curr_index);
-        uv_indices.remove(curr_index);
         
         ear_vals.remove(curr_index);
         
@@ -98,13 +104,16 @@ fn triangulate(
     mi.push_vertex_index(vertex_indices[1]);
     mi.push_vertex_index(vertex_indices[2]);
         
-    mi.push_normal_index(normal_indices[0]);
-    mi.push_normal_index(normal_indices[1]);
-    mi.push_normal_index(normal_indices[2]);
-        
-    mi.push_uv_index(uv_indices[0]);
-    mi.push_uv_index(uv_indices[1]);
-    mi.push_uv_index(uv_indices[2]);
+    if has_normals {
+        mi.push_normal_index(normal_indices[0]);
+        mi.push_normal_index(normal_indices[1]);
+        mi.push_normal_index(normal_indices[2]);
+    }
+    if has_uvs {
+        mi.push_uv_index(uv_indices[0]);
+        mi.push_uv_index(uv_indices[1]);
+        mi.push_uv_index(uv_indices[2]);
+    }
 }
 
 
-- 
2.43.0


From 5e97e66bd080f3490de6a592560cec93e2d2e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:20 +0000
Subject: [PATCH 28/47] fix: import names of .obj objects with spaces and
 slashes in full

---
 src/obj.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 740dd5b..ce38f93 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -21,8 +21,10 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
         "vt" => oi.push_uv(load_vec2(&mut split)?),
         "f" => load_face(&mut split, oi)?,
         "o" => {
-            let name = match_split(split.next())?.to_owned();
-            return Ok(oi.next_mesh(name));
+            // The name is everything after the `o` and one white space separating it.
+            let name = &line.trim_start()[beg.len()..];
+            let name = name.strip_prefix(char::is_whitespace).unwrap_or(name);
+            return Ok(oi.next_mesh(name.to_owned()));
         }
         _ => (), //Ignore invalid/unsuported lines.
     }
-- 
2.43.0


From 9183a19c176143b6fa930f5189d6caf65372dad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 29/47] fix: do not give imported meshes normals and UVs their
 faces do not use

Meshes from files without them got empty arrays (or those of other objects),
with index arrays of zeros pointing outside of them.
---
 src/model_importer.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 28145a5..68d3c10 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -45,12 +45,16 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Normals and uvs are set only if the faces use them.
+        if !normal_triangles.is_empty() {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if !uv_triangles.is_empty() {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
 
         self.vertex_triangles.clear();
         self.normal_triangles.clear();
@@ -72,12 +76,16 @@ impl ModelImporter {
         crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
 
         mesh.set_vertices(vertices);
-        mesh.set_normals(normals);
-        mesh.set_uvs(uvs);
-
         mesh.set_vertex_triangles(vertex_triangles);
-        mesh.set_normal_triangles(normal_triangles);
-        mesh.set_uv_triangles(uv_triangles);
+        // Normals and uvs are set only if the faces use them.
+        if !normal_triangles.is_empty() {
+            mesh.set_normals(normals);
+            mesh.set_normal_triangles(normal_triangles);
+        }
+        if !uv_triangles.is_empty() {
+            mesh.set_uvs(uvs);
+            mesh.set_uv_triangles(uv_triangles);
+        }
 
         Ok((mesh, self.name))
     }
-- 
2.43.0


From 3ab8ad79ee30b93e9a65500f76f1469e8e7d5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 30/47] fix: refuse .obj files whose faces refer to missing or
 inconsistent data

They were imported as meshes with indices out of range or index arrays of
different lengths, which mixed up the corners of their faces.
---
 src/model_importer.rs | 29 ++++++++++++++++++++++++++---
 src/obj.rs            |  2 +-
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 68d3c10..51abbaa 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -27,11 +27,33 @@ impl ModelImporter {
             name: "".to_owned(),
         }
     }
-    pub(crate) fn next_mesh(&mut self, mut name: String) -> Option<(TMFMesh, String)> {
+    // Checks that all corners of the current mesh refer to existing data, and either all or none of them have uvs and normals.
+    fn check_mesh(&self) -> std::io::Result<()> {
+        let corners = self.vertex_triangles.len();
+        for (indices, data_len) in [
+            (&self.vertex_triangles, self.vertices.len()),
+            (&self.normal_triangles, self.normals.len()),
+            (&self.uv_triangles, self.uvs.len()),
+        ] {
+            let complete = indices.is_empty() || indices.len() == corners;
+            if !complete || indices.iter().any(|index| *index as usize >= data_len) {
+                return Err(std::io::Error::new(
+                    std::io::ErrorKind::Other,
+                    format!("Faces of object \"{}\" are inconsistent, or refer to data not present in the file", self.name),
+                ));
+            }
+        }
+        Ok(())
+    }
+    pub(crate) fn next_mesh(
+        &mut self,
+        mut name: String,
+    ) -> std::io::Result<Option<(TMFMesh, String)>> {
+        self.check_mesh()?;
         std::mem::swap(&mut self.name, &mut name);
 
         if self.vertex_triangles.is_empty() {
-            return None;
+            return Ok(None);
         }
         let mut mesh = TMFMesh::empty();
         let (mut vertices, mut vertex_triangles) =
@@ -60,9 +82,10 @@ impl ModelImporter {
         self.normal_triangles.clear();
         self.uv_triangles.clear();
 
-        Some((mesh, name))
+        Ok(Some((mesh, name)))
     }
     pub(crate) fn finish(self) -> std::io::Result<(TMFMesh, String)> {
+        self.check_mesh()?;
         let mut mesh = TMFMesh::empty();
 
         let (mut vertices, mut vertex_triangles) =
diff --git a/src/obj.rs b/src/obj.rs
index ce38f93..dcd2302 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -24,7 +24,7 @@ fn parse_line(line: Result<String>, oi: &mut ModelImporter) -> Result<Option<(TM
             // The name is everything after the `o` and one white space separating it.
             let name = &line.trim_start()[beg.len()..];
             let name = name.strip_prefix(char::is_whitespace).unwrap_or(name);
-            return Ok(oi.next_mesh(name.to_owned()));
+            return oi.next_mesh(name.to_owned());
         }
         _ => (), //Ignore invalid/unsuported lines.
     }
-- 
2.43.0


From 78215966758e69340df16ec3002ee31e42704f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 31/47] fix: return an error when a face to triangulate refers
 to a missing vertex

---
 src/model_importer.rs | 3 +--
 src/triangulation.rs  | 6 +++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 51abbaa..1608203 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -173,8 +173,7 @@ impl ModelImporter {
                     let vertex_indices = SmallVec::from_slice(vertex_indices);
                     let normal_indices = SmallVec::from_slice(normal_indices);
                     let uv_indices = SmallVec::from_slice(uv_indices);
-                    triangulate(self, vertex_indices, normal_indices, uv_indices);
-                    Ok(())
+                    triangulate(self, vertex_indices, normal_indices, uv_indices)
                 }
             }
         }
diff --git a/src/triangulation.rs b/src/triangulation.rs
index 72dadbd..16f5be6 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -53,7 +53,10 @@ fn triangulate(
     mut vertex_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
     mut normal_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
     mut uv_indices:SmallVec<[IndexType; SMALL_VEC_CAP]>,
-) {
+) -> Result<(), String> {
+    if vertex_indices.iter().any(|index| *index as usize >= mi.vertices.len()) {
+        return Err("A face refers to a vertex not present in the file".to_owned());
+    }
     // Normals and uvs are optional.
     let has_normals = !normal_indices.is_empty();
     let has_uvs = !uv_indices.is_empty();
@@ -114,6 +117,7 @@ fn triangulate(
         mi.push_uv_index(uv_indices[1]);
         mi.push_uv_index(uv_indices[2]);
     }
+    Ok(())
 }
 
 
-- 
2.43.0


From 13bdb85d34c5cbb8556c7aab44f484a50f0f01f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 32/47] fix: find the previous corner when triangulating any
 amount of corners

usize::MAX modulo the amount of corners is the last corner only if it is a
power of two, for other polygons triangles were missing or overlapped.
---
 src/triangulation.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/triangulation.rs b/src/triangulation.rs
index 16f5be6..57567b6 100644
--- a/src/triangulation.rs
+++ b/src/triangulation.rs
@@ -37,7 +37,7 @@ fn calc_ear_val_at_index(
     vertices: &[Vector3],
 ) -> FloatType {
     let tri = (
-        index.wrapping_sub(1) % indices.len(),
+        (index + indices.len() - 1) % indices.len(),
         index,
         index.wrapping_add(1) % indices.len(),
     );
@@ -73,7 +73,7 @@ fn triangulate(
                 best_index = index;
             }
         }
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (best_index + vertex_indices.len() - 1) % vertex_indices.len();
         let curr_index = best_index;
         let next_index = best_index.wrapping_add(1) % vertex_indices.len();
         
@@ -98,7 +98,7 @@ fn triangulate(
         ear_vals.remove(curr_index);
         
         let curr_index = curr_index % vertex_indices.len();
-        let prev_index = best_index.wrapping_sub(1) % vertex_indices.len();
+        let prev_index = (curr_index + vertex_indices.len() - 1) % vertex_indices.len();
         ear_vals[curr_index] = calc_ear_val_at_index(&vertex_indices, curr_index, &mi.vertices);
         ear_vals[prev_index] = calc_ear_val_at_index(&vertex_indices, prev_index, &mi.vertices);
         
-- 
2.43.0


From 2c34fb09a52876bf1cc0c4c7f6d89d32c401447c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 33/47] fix: export right indices for meshes following a point
 cloud in .obj files

Vertices of meshes without faces were not counted, so the faces of all
following meshes referred to wrong vertices.
---
 src/obj.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index dcd2302..e54ed8f 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -167,7 +167,13 @@ fn save_obj<W: Write>(
                     "If vertex triangles data is not present, uv triangle data must not be present either!",
                 ));
             }
-            return Ok((0, 0, 0));
+            // The data still counts towards the indices of the next meshes.
+            let count = |len: Option<usize>| len.unwrap_or(0) as IndexType;
+            return Ok((
+                vertex_count as IndexType,
+                count(mesh.get_uvs().map(|uvs| uvs.len())),
+                count(mesh.get_normals().map(|normals| normals.len())),
+            ));
         }
     };
     // Ensure normal triangle array, if present, has the right length.
-- 
2.43.0


From aeaf2a9cd0f49595597607794858063f9b3a93ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 34/47] fix: refuse to export an incomplete triangle to .obj

It was written as an unfinished line, joined with the name of the next mesh.
---
 src/obj.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index e54ed8f..f019a1a 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -194,6 +194,13 @@ fn save_obj<W: Write>(
             ));
         }
     }
+    // Ensure all triangles are complete.
+    if vert_triangle_len % 3 != 0 {
+        return Err(Error::new(
+            ErrorKind::Other,
+            "The vertex triangle array ends with an incomplete triangle.",
+        ));
+    }
     // TODO: this part can be rewritten to be more efficient by checking if arrays are present beforehand.
     for i in 0..vert_triangle_len {
         if i % 3 == 0 {
-- 
2.43.0


From 417c8e0e92af61219b77a01d7f1f9ecc24e907da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 35/47] fix: allow asynchronous reading outside of a tokio
 runtime

With the tokio_runtime feature, decoding was spawned on the runtime of the
caller, and panicked under any other executor.
---
 src/tmf_importer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tmf_importer.rs b/src/tmf_importer.rs
index 839d3af..08c8fbd 100644
--- a/src/tmf_importer.rs
+++ b/src/tmf_importer.rs
@@ -135,7 +135,7 @@ impl TMFImportContext {
             let decoded = async move { DecodedSegment::decode(encoded, &ctx).await };
 
             #[cfg(feature = "tokio_runtime")]
-            let decoded = { tokio::task::spawn(decoded) };
+            let decoded = { crate::TOKIO_RUNTIME.spawn(decoded) };
 
             decoded_segs.push(decoded);
         }
-- 
2.43.0


From 1f331ad660fd5bb64c87cf8e9a154d32d8f16ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 36/47] fix: document the types of the precision and index
 features, which did not compile without it

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b8bff8e..59e8ee3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -64,13 +64,16 @@ pub(crate) const MAX_SEG_SIZE: usize = 0x80_00_00_00; //Standard
 pub type IndexType = u32;
 #[cfg(all(feature = "long_indices", feature = "short_indices"))]
 compile_error!("Size of indices can't be both long(u64) or short(u16)");
+/// Index type used for representing triangle indices.
 #[cfg(feature = "long_indices")]
 pub type IndexType = u64;
+/// Index type used for representing triangle indices.
 #[cfg(feature = "short_indices")]
 pub type IndexType = u16;
 /// Type used for representing floating-point numbers.
 #[cfg(not(feature = "double_precision"))]
 pub type FloatType = f32;
+/// Type used for representing floating-point numbers.
 #[cfg(feature = "double_precision")]
 pub type FloatType = f64;
 /// Type used for representing 4d floating-point vectors
-- 
2.43.0


From dd8267ee760faa8156555278d542c89a973e5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 37/47] fix: count the increments a vertex precision of n bits
 has right

---
 src/vertices.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 1e51e26..56fcc76 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -71,10 +71,10 @@ pub fn save_tmf_vertices<W: Write>(
     let inc_x = (shortest_edge / sx) * precision.0;
     let inc_y = (shortest_edge / sy) * precision.0;
     let inc_z = (shortest_edge / sz) * precision.0;
-    //Calculate write precision
-    let prec_x = (1.0 / inc_x).log2().ceil() as u8;
-    let prec_y = (1.0 / inc_y).log2().ceil() as u8;
-    let prec_z = (1.0 / inc_z).log2().ceil() as u8;
+    //Calculate write precision. n bits divide the size of the model into 2^n - 1 increments.
+    let prec_x = (1.0 / inc_x + 1.0).log2().ceil() as u8;
+    let prec_y = (1.0 / inc_y + 1.0).log2().ceil() as u8;
+    let prec_z = (1.0 / inc_z + 1.0).log2().ceil() as u8;
     //Ensure precision is never below 1, and never higher than can be read back
     let prec_x = prec_x.clamp(1, MAX_PRECISION_BITS);
     let prec_y = prec_y.clamp(1, MAX_PRECISION_BITS);
-- 
2.43.0


From 52d60a43438cd69a5cc20fc256e356455bff9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 38/47] monitor: observe and delay the decoding of segments
 under --cfg tmf_monitor

---
 src/lib.rs     |  6 ++++++
 src/monitor.rs | 55 ++++++++++++++++++++++++++++++++++++++++++++++++++
 src/tmf.rs     |  2 ++
 3 files changed, 63 insertions(+)
 create mode 100644 src/monitor.rs

diff --git a/src/lib.rs b/src/lib.rs
index 59e8ee3..36d3068 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2,6 +2,8 @@
 #![deny(unused_must_use, missing_docs, rustdoc::broken_intra_doc_links)]
 //#![deny(dead_code)]
 #![warn(rustdoc::missing_doc_code_examples)]
+// `tmf_monitor` enables instrumentation, and is passed using RUSTFLAGS.
+#![allow(unexpected_cfgs)]
 //! TMF: 3D model format, compressing meshes by up to 89%!
 //! # What is the goal of tmf
 //! TMF is a lossy file format focused on:
@@ -52,6 +54,10 @@ mod vertices;
 // Unfinished
 #[allow(dead_code)]
 mod lz77;
+/// Instrumentation used for runtime verification.
+#[cfg(tmf_monitor)]
+#[doc(hidden)]
+pub mod monitor;
 
 const TMF_MAJOR: u16 = 0;
 const TMF_MINOR: u16 = 2;
diff --git a/src/monitor.rs b/src/monitor.rs
new file mode 100644
index 0000000..e86e3d5
--- /dev/null
+++ b/src/monitor.rs
@@ -0,0 +1,55 @@
+//! Observation and delay of the decoding of segments. Compiled only with `--cfg tmf_monitor`, never part of a normal build.
+use std::sync::atomic::{AtomicU64, Ordering};
+use std::sync::RwLock;
+/// Something which happened to the decoding of a segment. Each decoding gets a new number when it begins.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Event {
+    /// Decoding of a segment is about to begin.
+    Begin(u64),
+    /// Decoding of a segment finished.
+    End(u64),
+}
+/// How a decoding which is about to begin should be delayed.
+#[derive(Debug, Clone, Copy, Default)]
+pub struct Delay {
+    /// How many times should other tasks get a chance to run.
+    pub yields: u32,
+    /// For how many microseconds should the thread sleep.
+    pub sleep_us: u64,
+}
+static NEXT: AtomicU64 = AtomicU64::new(0);
+static HOOK: RwLock<Option<fn(Event) -> Delay>> = RwLock::new(None);
+/// Sets the function called on each event. The delay it returns is used only for [`Event::Begin`].
+pub fn set_hook(hook: Option<fn(Event) -> Delay>) {
+    *HOOK.write().unwrap() = hook;
+}
+fn notify(event: Event) -> Delay {
+    let hook = *HOOK.read().unwrap();
+    hook.map(|hook| hook(event)).unwrap_or_default()
+}
+/// Reports the end of the decoding when dropped.
+pub(crate) struct Decoding(u64);
+impl Drop for Decoding {
+    fn drop(&mut self) {
+        notify(Event::End(self.0));
+    }
+}
+/// Reports the beginning of a decoding, and delays it as the hook requests.
+pub(crate) async fn decoding() -> Decoding {
+    let decoding = Decoding(NEXT.fetch_add(1, Ordering::Relaxed));
+    let delay = notify(Event::Begin(decoding.0));
+    let mut yields = delay.yields;
+    std::future::poll_fn(|cx| {
+        if yields == 0 {
+            return std::task::Poll::Ready(());
+        }
+        yields -= 1;
+        cx.waker().wake_by_ref();
+        std::task::Poll::Pending
+    })
+    .await;
+    if delay.sleep_us != 0 {
+        std::thread::sleep(std::time::Duration::from_micros(delay.sleep_us));
+    }
+    decoding
+}
diff --git a/src/tmf.rs b/src/tmf.rs
index 3800154..8c39c46 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -414,6 +414,8 @@ impl DecodedSegment {
         seg: EncodedSegment,
         ctx: &crate::tmf_importer::TMFImportContext,
     ) -> Result<Self, TMFImportError> {
+        #[cfg(tmf_monitor)]
+        let _decoding = crate::monitor::decoding().await;
         //println!("Decoding segment of type:{:?}!",seg.seg_type());
         if seg.seg_type != SectionType::Invalid && seg.compresion_type != CompressionType::None {
             return Err(TMFImportError::UnsuportedCompressionType(
-- 
2.43.0


From c330229657fd771049c567e34f4334b2a0886ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 39/47] fix: lengths of vectors too big or too small to be
 squared in double precision

---
 src/utilis.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/utilis.rs b/src/utilis.rs
index 4682c6f..6329b42 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -57,10 +57,21 @@ pub(crate) fn magnitude(i: Vector3) -> FloatType {
     let zz = i.2 * i.2;
     (xx + yy + zz).sqrt()
 }
+/// Length of a vector, calculated in double precision, and relative to the biggest component, so that no square is out of range.
+fn length(x: f64, y: f64, z: f64) -> f64 {
+    let max = x.abs().max(y.abs()).max(z.abs());
+    if max == 0.0 || max.is_infinite() {
+        return max;
+    }
+    let (x, y, z) = (x / max, y / max, z / max);
+    (x * x + y * y + z * z).sqrt() * max
+}
 pub(crate) fn normalize(i: Vector3) -> Vector3 {
-    // Calculated in double precision, since squares of small and big numbers are out of range of single precision.
     let (x, y, z) = (f64::from(i.0), f64::from(i.1), f64::from(i.2));
-    let mag = (x * x + y * y + z * z).sqrt();
+    // Scaled by the biggest component first, so that the length itself is not out of range.
+    let max = x.abs().max(y.abs()).max(z.abs());
+    let (x, y, z) = (x / max, y / max, z / max);
+    let mag = length(x, y, z);
     if mag.is_nan() || mag == 0.0 {
         (0.0, 0.0, 0.0)
     } else {
@@ -72,11 +83,10 @@ pub(crate) fn normalize(i: Vector3) -> Vector3 {
     }
 }
 pub(crate) fn distance(a: Vector3, b: Vector3) -> FloatType {
-    // Calculated in double precision, since squares of small and big numbers are out of range of single precision.
     let dx = f64::from(a.0 - b.0);
     let dy = f64::from(a.1 - b.1);
     let dz = f64::from(a.2 - b.2);
-    (dx * dx + dy * dy + dz * dz).sqrt() as FloatType
+    length(dx, dy, dz) as FloatType
 }
 pub(crate) fn dot(a: Vector3, b: Vector3) -> FloatType {
     a.0 * b.0 + a.1 * b.1 + a.2 * b.2
-- 
2.43.0


From d96fddaec9f99447ad241498e323a155bc4465a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 40/47] fix: keep declared maximums of 64 bits readable with
 long indices

---
 src/vertices.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vertices.rs b/src/vertices.rs
index 56fcc76..3c67169 100644
--- a/src/vertices.rs
+++ b/src/vertices.rs
@@ -182,7 +182,11 @@ pub fn save_triangles<W: Write>(
 ) -> std::io::Result<()> {
     let min = *triangles.iter().min().unwrap_or(&0);
     // No index can be bigger than IndexType::MAX, so more precision is never needed(and 64 bits can't be read back).
-    let precision = calc_prec(max_index.min(IndexType::MAX as usize));
+    let mut precision = calc_prec(max_index.min(IndexType::MAX as usize));
+    if precision > MAX_PRECISION_BITS {
+        // Only the precision the indices themselves need.
+        precision = calc_prec(triangles.iter().max().copied().unwrap_or(0) as usize);
+    }
     writer.write_all(&precision.to_le_bytes())?;
     writer.write_all(&(triangles.len() as u64).to_le_bytes())?;
     writer.write_all(&u64::from(min).to_le_bytes())?;
-- 
2.43.0


From bb871d9029c4dc7a15d1a671f9a514c74b9a8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 41/47] fix: splitting of arrays which exhausted the stack,
 took quadratic time or made files bigger

Every split recursed into the rest of the array, so arrays which split often
overflowed the stack. Splits by the lowest index never saved anything, and
the costs of a segment were underestimated (counted in bytes for vertices).
---
 src/tmf_exporter.rs | 106 ++++++++++++++++++--------------------------
 1 file changed, 44 insertions(+), 62 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index d34fe51..a046f34 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -1,6 +1,6 @@
 use crate::tmf::DecodedSegment;
 
-use smallvec::{smallvec, SmallVec};
+use smallvec::SmallVec;
 
 use crate::{
     FloatType, IndexType, TMFExportError, TMFMesh, TMFPrecisionInfo, Vector3, MIN_TMF_MAJOR,
@@ -243,11 +243,39 @@ fn calc_spilt_score(len: usize, delta_span: (IndexType, IndexType)) -> isize {
     let gain_bits =
         calc_prec(delta_span.0 as usize) as usize - calc_prec(delta_span.1 as usize) as usize;
     let gain = (gain_bits * len) as isize;
-    let loss =
-        ((TMF_SEG_SIZE + std::mem::size_of::<u8>() + std::mem::size_of::<u32>()) * 8) as isize;
+    // Header of the segment, what it is shared by, precision, length and base of the indices.
+    let loss = ((TMF_SEG_SIZE
+        + 2 * std::mem::size_of::<u8>()
+        + 2 * std::mem::size_of::<u64>())
+        * 8) as isize;
     gain - loss
 }
-pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
+/// Most segments one array is split into. Every one of them takes another pass over its data.
+const MAX_SPLIT_SEGMENTS: usize = 64;
+/// Splits `data` into segments wherever `find_spilt` tells that this pays.
+fn split_data<T>(
+    data: &[T],
+    find_spilt: impl Fn(&[T]) -> Option<usize>,
+) -> SmallVec<[&[T]; 4]> {
+    let mut res = SmallVec::new();
+    let mut pending = vec![data];
+    while let Some(part) = pending.pop() {
+        let spilt = if res.len() + pending.len() + 1 < MAX_SPLIT_SEGMENTS {
+            find_spilt(part)
+        } else {
+            None
+        };
+        if let Some(index) = spilt {
+            let (s1, s2) = part.split_at(index);
+            pending.push(s2);
+            pending.push(s1);
+        } else {
+            res.push(part);
+        }
+    }
+    res
+}
+fn find_best_tri_spilt(triangles: &[IndexType]) -> Option<usize> {
     let mut best_score = isize::MIN;
     let mut best_index = usize::MIN;
     let mut max_index = IndexType::MIN;
@@ -260,54 +288,23 @@ pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
             best_score = score;
         }
     }
+    // Indices take as many bits as the highest one needs, so splitting by the lowest one never pays.
     if best_score > 0 {
-        let mut res = SmallVec::new();
-        let (s1, s2) = triangles.split_at(best_index);
-        let r_1 = opt_tris(s1);
-        for seg in r_1 {
-            res.push(seg);
-        }
-        let r_2 = opt_tris(s2);
-        for seg in r_2 {
-            res.push(seg);
-        }
-        return res;
-    }
-    let mut best_score = isize::MIN;
-    let mut best_index = usize::MIN;
-    let mut min_index = IndexType::MAX;
-    let total_min = triangles.iter().min().unwrap_or(&1);
-    for (index, tri) in triangles.iter().enumerate() {
-        min_index = min_index.min(*tri);
-        let score = calc_spilt_score(index, (min_index, *total_min));
-        if score > best_score {
-            best_index = index;
-            best_score = score;
-        }
-    }
-    if best_score > 0 {
-        let mut res = SmallVec::new();
-        let (s1, s2) = triangles.split_at(best_index);
-        let r_1 = opt_tris(s1);
-        for seg in r_1 {
-            res.push(seg);
-        }
-        let r_2 = opt_tris(s2);
-        for seg in r_2 {
-            res.push(seg);
-        }
-        res
+        Some(best_index)
     } else {
-        smallvec![triangles]
+        None
     }
 }
+pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
+    split_data(triangles, find_best_tri_spilt)
+}
 fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
-    let _dz = span.end.2 - span.start.2;
+    let dz = span.end.2 - span.start.2;
     let inc_x = shortest_edge / dx;
     let inc_y = shortest_edge / dy;
-    let inc_z = shortest_edge / dy;
+    let inc_z = shortest_edge / dz;
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
@@ -347,10 +344,11 @@ fn find_best_vertex_spilt(vertices: &[Vector3], shortest_edge: FloatType) -> Opt
         } else {
             let gain_per_vert = total_per_vertex_bit_count - per_vertex_bit_count;
             let gain = index * (gain_per_vert as usize);
-            let loss = TMF_SEG_SIZE
+            let loss = (TMF_SEG_SIZE
                 + std::mem::size_of::<u64>()
                 + 6 * std::mem::size_of::<f64>()
-                + 3 * std::mem::size_of::<u8>();
+                + 3 * std::mem::size_of::<u8>())
+                * 8;
             let score = gain as isize - (loss as isize);
       
             if score > best_split_score {
@@ -367,21 +365,5 @@ fn find_best_vertex_spilt(vertices: &[Vector3], shortest_edge: FloatType) -> Opt
     }
 }
 pub(crate) fn opt_vertices(vertices: &[Vector3]) -> SmallVec<[&[Vector3]; 4]> {
-    let _len = vertices.len();
-    let split_pos = find_best_vertex_spilt(vertices, 0.01);
-    if let Some(split_pos) = split_pos {
-        let (i0, i1) = vertices.split_at(split_pos);
-        let mut res = SmallVec::new();
-        let r_0 = opt_vertices(i0);
-        for seg in r_0 {
-            res.push(seg);
-        }
-        let r_1 = opt_vertices(i1);
-        for seg in r_1 {
-            res.push(seg);
-        }
-        res
-    } else {
-        smallvec![vertices]
-    }
+    split_data(vertices, |vertices| find_best_vertex_spilt(vertices, 0.01))
 }
-- 
2.43.0


From e7e45531cfa0cab3e1396f518f814c45aa5d0fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 42/47] fix: Unifying a mesh whose combinations outnumber the
 index type no longer corrupts it silently

---
 src/unify_data.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/unify_data.rs b/src/unify_data.rs
index c669cff..481decd 100644
--- a/src/unify_data.rs
+++ b/src/unify_data.rs
@@ -25,7 +25,10 @@ fn unfiy_data_common<const DATA_COUNT: usize>(
             combo_id += 1;
             id
         });
-        new_indices.push(curr_id as IndexType);
+        // Silently wrapping the index would make the corners refer to wrong data.
+        new_indices.push(
+            IndexType::try_from(curr_id).expect("Unified mesh does not fit in the index type"),
+        );
         //println!("curr_combo:{curr_combo:?}");
     }
     let mut combos = combos.iter().collect::<Vec<_>>();
-- 
2.43.0


From eb77e5bbe26649f5500fe2c2ad63cdecddf95a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 43/47] fix: write_obj no longer overflows when meshes together
 have more entries than the index type

---
 src/obj.rs | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index f019a1a..f3c367b 100644
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -123,9 +123,9 @@ pub fn load_vec2(split: &mut SplitWhitespace) -> Result<Vector2> {
 fn save_obj<W: Write>(
     w: &mut W,
     mesh: &TMFMesh,
-    index_offset: (IndexType, IndexType, IndexType),
+    index_offset: (usize, usize, usize),
     name: &str,
-) -> Result<(IndexType, IndexType, IndexType)> {
+) -> Result<(usize, usize, usize)> {
     writeln!(w, "o {name}")?;
     let vertex_count = match mesh.get_vertices() {
         None => 0,
@@ -168,11 +168,10 @@ fn save_obj<W: Write>(
                 ));
             }
             // The data still counts towards the indices of the next meshes.
-            let count = |len: Option<usize>| len.unwrap_or(0) as IndexType;
             return Ok((
-                vertex_count as IndexType,
-                count(mesh.get_uvs().map(|uvs| uvs.len())),
-                count(mesh.get_normals().map(|normals| normals.len())),
+                vertex_count,
+                mesh.get_uvs().map_or(0, |uvs| uvs.len()),
+                mesh.get_normals().map_or(0, |normals| normals.len()),
             ));
         }
     };
@@ -207,11 +206,11 @@ fn save_obj<W: Write>(
             write!(w, "f ")?
         };
         // Why unwrap? Vertex triangle array MUST be present at this point in time, because if it was not, this function would have already returned.
-        let vertex = mesh.get_vertex_triangles().unwrap()[i] + index_offset.0;
+        let vertex = mesh.get_vertex_triangles().unwrap()[i] as usize + index_offset.0;
         write!(w, "{}", vertex)?;
         let normals = mesh.get_normal_triangles();
         match mesh.get_uv_triangles() {
-            Some(uvs) => write!(w, "/{}", uvs[i] + index_offset.1)?,
+            Some(uvs) => write!(w, "/{}", uvs[i] as usize + index_offset.1)?,
             None => {
                 if normals.is_some() {
                     write!(w, "/")?
@@ -219,7 +218,7 @@ fn save_obj<W: Write>(
             }
         }
         if let Some(normals) = normals {
-            write!(w, "/{}", normals[i] + index_offset.2)?
+            write!(w, "/{}", normals[i] as usize + index_offset.2)?
         };
         if i % 3 == 2 {
             writeln!(w)?
@@ -236,11 +235,7 @@ fn save_obj<W: Write>(
         None => 0,
     };
     // If no vertices present, then no vertex triangles SHOULD be present, so if they are present, it is an error.
-    Ok((
-        vertex_count as IndexType,
-        uv_count as IndexType,
-        normal_count as IndexType,
-    ))
+    Ok((vertex_count, uv_count, normal_count))
 }
 /// Writes this TMF  mesh to a .obj file.
 pub fn write_obj<W: Write, S: std::borrow::Borrow<str>>(
-- 
2.43.0


From ce690aec68de59412084c0fe005af23b9d3463c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:35 +0000
Subject: [PATCH 44/47] fix: verify rejected valid meshes whose arrays are
 longer than the index type counts

---
 src/verify.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/verify.rs b/src/verify.rs
index 827b646..22ca45e 100644
--- a/src/verify.rs
+++ b/src/verify.rs
@@ -59,9 +59,9 @@ impl std::fmt::Debug for TMFIntegrityStatus {
     }
 }
 /// Checks if indices fit inside the array of *length*, returned None if so or Some(index) if not.
-fn indices_inside_array(array: &[IndexType], length: IndexType) -> Option<IndexType> {
+fn indices_inside_array(array: &[IndexType], length: usize) -> Option<IndexType> {
     for index in array {
-        if *index >= length as IndexType {
+        if *index as usize >= length {
             return Some(*index);
         }
     }
@@ -77,7 +77,7 @@ fn verify_vertices(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
             }
         }
         Some(vertices) => match mesh.get_vertex_triangles() {
-            Some(triangles) => match indices_inside_array(triangles, vertices.len() as IndexType) {
+            Some(triangles) => match indices_inside_array(triangles, vertices.len()) {
                 Some(index) => Err(TMFIntegrityStatus::IndexOutsideVertexArray(
                     index,
                     vertices.len() as IndexType,
@@ -104,7 +104,7 @@ fn verify_uvs(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
                 }
             }
             match mesh.get_uv_triangles() {
-                Some(triangles) => match indices_inside_array(triangles, uvs.len() as IndexType) {
+                Some(triangles) => match indices_inside_array(triangles, uvs.len()) {
                     Some(index) => Err(TMFIntegrityStatus::IndexOutsideUVArray(
                         index,
                         uvs.len() as IndexType,
@@ -134,15 +134,13 @@ fn verify_normals(mesh: &TMFMesh) -> Result<(), TMFIntegrityStatus> {
                 }
             }
             match mesh.get_normal_triangles() {
-                Some(triangles) => {
-                    match indices_inside_array(triangles, normals.len() as IndexType) {
-                        Some(index) => Err(TMFIntegrityStatus::IndexOutsideNormalArray(
-                            index,
-                            normals.len() as IndexType,
-                        )),
-                        None => Ok(()),
-                    }
-                }
+                Some(triangles) => match indices_inside_array(triangles, normals.len()) {
+                    Some(index) => Err(TMFIntegrityStatus::IndexOutsideNormalArray(
+                        index,
+                        normals.len() as IndexType,
+                    )),
+                    None => Ok(()),
+                },
                 None => Ok(()),
             }
         }
-- 
2.43.0


From 941388a4369300151431677cd180fdfaac28973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 45/47] fix: importing OBJ files of many objects no longer
 copies all preceding data for each of them

---
 src/model_importer.rs | 48 +++++++++++++++++++++----------------------
 src/utilis.rs         | 25 ++++++++--------------
 2 files changed, 33 insertions(+), 40 deletions(-)

diff --git a/src/model_importer.rs b/src/model_importer.rs
index 1608203..1bf41e0 100644
--- a/src/model_importer.rs
+++ b/src/model_importer.rs
@@ -56,25 +56,25 @@ impl ModelImporter {
             return Ok(None);
         }
         let mut mesh = TMFMesh::empty();
-        let (mut vertices, mut vertex_triangles) =
-            (self.vertices.clone(), self.vertex_triangles.clone());
-        let (mut normals, mut normal_triangles) =
-            (self.normals.clone(), self.normal_triangles.clone());
-        let (mut uvs, mut uv_triangles) = (self.uvs.clone(), self.uv_triangles.clone());
+        let mut vertex_triangles = self.vertex_triangles.clone();
+        let mut normal_triangles = self.normal_triangles.clone();
+        let mut uv_triangles = self.uv_triangles.clone();
 
-        crate::utilis::fast_prune(&mut vertices, &mut vertex_triangles);
-        crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
-        crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
-
-        mesh.set_vertices(vertices);
+        mesh.set_vertices(crate::utilis::fast_prune(
+            &self.vertices,
+            &mut vertex_triangles,
+        ));
         mesh.set_vertex_triangles(vertex_triangles);
         // Normals and uvs are set only if the faces use them.
         if !normal_triangles.is_empty() {
-            mesh.set_normals(normals);
+            mesh.set_normals(crate::utilis::fast_prune(
+                &self.normals,
+                &mut normal_triangles,
+            ));
             mesh.set_normal_triangles(normal_triangles);
         }
         if !uv_triangles.is_empty() {
-            mesh.set_uvs(uvs);
+            mesh.set_uvs(crate::utilis::fast_prune(&self.uvs, &mut uv_triangles));
             mesh.set_uv_triangles(uv_triangles);
         }
 
@@ -88,25 +88,25 @@ impl ModelImporter {
         self.check_mesh()?;
         let mut mesh = TMFMesh::empty();
 
-        let (mut vertices, mut vertex_triangles) =
-            (self.vertices.clone(), self.vertex_triangles.clone());
-        let (mut normals, mut normal_triangles) =
-            (self.normals.clone(), self.normal_triangles.clone());
-        let (mut uvs, mut uv_triangles) = (self.uvs.clone(), self.uv_triangles.clone());
-
-        crate::utilis::fast_prune(&mut vertices, &mut vertex_triangles);
-        crate::utilis::fast_prune(&mut normals, &mut normal_triangles);
-        crate::utilis::fast_prune(&mut uvs, &mut uv_triangles);
+        let mut vertex_triangles = self.vertex_triangles.clone();
+        let mut normal_triangles = self.normal_triangles.clone();
+        let mut uv_triangles = self.uv_triangles.clone();
 
-        mesh.set_vertices(vertices);
+        mesh.set_vertices(crate::utilis::fast_prune(
+            &self.vertices,
+            &mut vertex_triangles,
+        ));
         mesh.set_vertex_triangles(vertex_triangles);
         // Normals and uvs are set only if the faces use them.
         if !normal_triangles.is_empty() {
-            mesh.set_normals(normals);
+            mesh.set_normals(crate::utilis::fast_prune(
+                &self.normals,
+                &mut normal_triangles,
+            ));
             mesh.set_normal_triangles(normal_triangles);
         }
         if !uv_triangles.is_empty() {
-            mesh.set_uvs(uvs);
+            mesh.set_uvs(crate::utilis::fast_prune(&self.uvs, &mut uv_triangles));
             mesh.set_uv_triangles(uv_triangles);
         }
 
diff --git a/src/utilis.rs b/src/utilis.rs
index 6329b42..df75293 100644
--- a/src/utilis.rs
+++ b/src/utilis.rs
@@ -1,25 +1,18 @@
 // Support functions may be used in the future for triangulation, when triangulating fully works, remove this allow.
 #![allow(dead_code)]
 use crate::{FloatType, IndexType, Vector3};
-/// Fast method for pruning unused vertices. Finds the lowest used vertex and removes it. O(n), does **not** remove all unused vertices. Used mostly
-/// in .obj loading. Fast because if not needed exits quickly.
-pub(crate) fn fast_prune<T: Sized>(data: &mut Vec<T>, indices: &mut [IndexType]) {
+/// Fast method for pruning unused vertices. Finds the lowest used vertex and copies only the data starting with it. O(n), does **not** remove all unused
+/// vertices. Used mostly in .obj loading, where data of all the previous objects comes before that of the current one, and should not be copied.
+pub(crate) fn fast_prune<T: Clone>(data: &[T], indices: &mut [IndexType]) -> Vec<T> {
     // Smallest index
-    let mut min_index = data.len() as IndexType;
-    if indices.is_empty() {
-        min_index = 0;
-    }
-    for index in indices.iter() {
-        if *index == 0 {
-            return;
-        };
-        min_index = min_index.min(*index);
-    }
-    data.drain(0..(min_index as usize));
+    let min_index = indices.iter().copied().min().unwrap_or(0);
     // Begin index rebasing
-    for index in &mut *indices {
-        *index -= min_index;
+    if min_index != 0 {
+        for index in &mut *indices {
+            *index -= min_index;
+        }
     }
+    data[min_index as usize..].to_vec()
 }
 #[allow(non_camel_case_types)]
 #[cfg(feature = "fast_trig")]
-- 
2.43.0


From 3434fac69b51207df42a233848fcdb90ec79b44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:27 +0000
Subject: [PATCH 46/47] fix: Writing meshes with very big coordinates no longer
 overflows while looking for splits

---
 src/tmf_exporter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index a046f34..f137c0e 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -298,7 +298,7 @@ fn find_best_tri_spilt(triangles: &[IndexType]) -> Option<usize> {
 pub(crate) fn opt_tris(triangles: &[IndexType]) -> SmallVec<[&[IndexType]; 4]> {
     split_data(triangles, find_best_tri_spilt)
 }
-fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u8 {
+fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: FloatType) -> u32 {
     let dx = span.end.0 - span.start.0;
     let dy = span.end.1 - span.start.1;
     let dz = span.end.2 - span.start.2;
@@ -308,7 +308,7 @@ fn range_to_vertex_bit_count(span: std::ops::Range<Vector3>, shortest_edge: Floa
     let prec_x = (1.0 / inc_x).log2().ceil() as u8;
     let prec_y = (1.0 / inc_y).log2().ceil() as u8;
     let prec_z = (1.0 / inc_z).log2().ceil() as u8;
-    prec_x + prec_y + prec_z
+    u32::from(prec_x) + u32::from(prec_y) + u32::from(prec_z)
 }
 fn expand_vertex_span(span: std::ops::Range<Vector3>, point: Vector3) -> std::ops::Range<Vector3> {
     let min = span.start;
-- 
2.43.0


From a31048a75456f594f95e214aa1c5baeead112dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:44 +0000
Subject: [PATCH 47/47] fix: saving a mesh with many custom arrays no longer
 compares all of its segments with each other

---
 src/tmf.rs          | 10 ++++++++++
 src/tmf_exporter.rs |  6 ++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tmf.rs b/src/tmf.rs
index 8c39c46..01cb8d2 100644
--- a/src/tmf.rs
+++ b/src/tmf.rs
@@ -268,6 +268,16 @@ impl DecodedSegment {
             _ => (),
         }
     }
+    /// Checks if [`Self::merge`] can merge other segments into this one.
+    pub(crate) fn can_be_shared(&self) -> bool {
+        matches!(
+            self,
+            Self::SharedTriangleSegment(_, _)
+                | Self::AppendTriangleVertex(_)
+                | Self::AppendTriangleNormal(_)
+                | Self::AppendTriangleUV(_)
+        )
+    }
     fn as_triangles(&self) -> Option<&[IndexType]> {
         match self {
             Self::AppendTriangleVertex(indices) => Some(indices),
diff --git a/src/tmf_exporter.rs b/src/tmf_exporter.rs
index f137c0e..7c480b0 100644
--- a/src/tmf_exporter.rs
+++ b/src/tmf_exporter.rs
@@ -88,8 +88,10 @@ fn merge_segments(segments: &[DecodedSegment]) -> Box<[DecodedSegment]> {
     let mut new_segments = Vec::with_capacity(segments.len());
     while let Some(mut segment) = segments.pop() {
         if segment.is_something() {
-            for other in &mut segments {
-                segment.merge(other);
+            if segment.can_be_shared() {
+                for other in &mut segments {
+                    segment.merge(other);
+                }
             }
             new_segments.push(segment);
         }
-- 
2.43.0


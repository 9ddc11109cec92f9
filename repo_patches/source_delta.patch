From c51ac873ca96fabf3d49e9045c8f77e9d54561bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 01/12] fix: I444 reader uses the U/V strides for the second
 chroma row

---
 src/formats/i444/read.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formats/i444/read.rs b/src/formats/i444/read.rs
index e495f0d..944b2cc 100644
--- a/src/formats/i444/read.rs
+++ b/src/formats/i444/read.rs
@@ -45,10 +45,10 @@ impl<P: Primitive> I444Src for I444Reader<'_, P> {
         let y10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
 
         let u00_offset = (y * self.u_stride) + x * P::SIZE;
-        let u10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let u10_offset = ((y + 1) * self.u_stride) + x * P::SIZE;
 
         let v00_offset = (y * self.v_stride) + x * P::SIZE;
-        let v10_offset = ((y + 1) * self.y_stride) + x * P::SIZE;
+        let v10_offset = ((y + 1) * self.v_stride) + x * P::SIZE;
 
         // Load Y pixels
         let y00 = P::load::<V>(&self.y[y00_offset..]);
-- 
2.43.0


From 95be87d3cece3406d3430342d2e4e394d66c05f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 02/12] fix: average ICtCp chroma over all four pixels of a
 block

---
 src/color/space.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index 286f6e6..ee71c62 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -337,8 +337,13 @@ unsafe fn bt2100_rgbx4_to_yx4_uv<V: Vector>(
     let yuv10 = f(transfer, rgb_to_xyz, r[2], g[2], b[2]);
     let yuv11 = f(transfer, rgb_to_xyz, r[3], g[3], b[3]);
 
-    let u = yuv00.1.vadd(yuv01.1).vadd(yuv00.1).vadd(yuv00.1);
-    let v = yuv00.2.vadd(yuv01.2).vadd(yuv00.2).vadd(yuv00.2);
+    // Average the chroma of each 2x2 pixel block
+    // Add the upper and lower pixels, then the left and right ones
+    let (u0, u1) = yuv00.1.vadd(yuv10.1).unzip(yuv01.1.vadd(yuv11.1));
+    let (v0, v1) = yuv00.2.vadd(yuv10.2).unzip(yuv01.2.vadd(yuv11.2));
+
+    let u = u0.vadd(u1);
+    let v = v0.vadd(v1);
 
     let u = u.vdivf(4.0);
     let v = v.vdivf(4.0);
-- 
2.43.0


From e7f245b055fda62394d645f287b73f2babc0adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 03/12] fix: BT.2020 green luma coefficient is 0.678

---
 src/color/space.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/color/space.rs b/src/color/space.rs
index ee71c62..a9984af 100644
--- a/src/color/space.rs
+++ b/src/color/space.rs
@@ -290,7 +290,7 @@ macro_rules! make_matrices {
 make_matrices! {
     BT601_YUV_TO_RGB, BT601_RGB_TO_YUV: 0.299,  0.587,  0.114;
     BT709_YUV_TO_RGB, BT709_RGB_TO_YUV: 0.2126, 0.7152, 0.0722;
-    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.322, 0.0593;
+    BT2020_YUV_TO_RGB, BT2020_RGB_TO_YUV: 0.2627, 0.678, 0.0593;
 }
 
 type BT2100ConvertFn<V> = unsafe fn(ColorTransfer, &[[f32; 3]; 3], V, V, V) -> (V, V, V);
-- 
2.43.0


From 7455eb4847a1a19f1da8e6405c327ff4d8a15659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 04/12] fix: SDR scaled_to_linear is the inverse of
 linear_to_scaled (offset 0.099)

---
 src/color/transfer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/color/transfer.rs b/src/color/transfer.rs
index 319602c..dacd52e 100644
--- a/src/color/transfer.rs
+++ b/src/color/transfer.rs
@@ -176,8 +176,8 @@ mod sdr {
         // a = i / 4.5
         let a = i.vdivf(4.5);
 
-        // b = ((i + 0.0993) / 1.099).powf(1.0 / 0.45)
-        let b = i.vaddf(0.0993).vdivf(1.099).vpowf(1.0 / 0.45);
+        // b = ((i + 0.099) / 1.099).powf(1.0 / 0.45)
+        let b = i.vaddf(0.099).vdivf(1.099).vpowf(1.0 / 0.45);
 
         V::select(a, b, mask)
     }
-- 
2.43.0


From 7667ebb52a6c73cb6e2924ef4ced1c0da1f166d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 05/12] fix: ST 240 red primary is (0.630, 0.340)

---
 src/color/primaries.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/color/primaries.rs b/src/color/primaries.rs
index 3c12bfa..26ff851 100644
--- a/src/color/primaries.rs
+++ b/src/color/primaries.rs
@@ -73,14 +73,14 @@ pub(crate) unsafe fn xyz_to_rgb<V: Vector>(bw: &[[f32; 3]; 3], x: V, y: V, z: V)
 
 mod generated_consts {
     pub(super) const ST240_RGB_TO_XYZ: [[f32; 3]; 3] = [
-        [0.39031416, 0.20383073, 0.025401404],
-        [0.3700937, 0.71034116, 0.11341577],
-        [0.19004808, 0.08582816, 0.95024043],
+        [0.3935209, 0.21237636, 0.018739091],
+        [0.36525807, 0.7010599, 0.111933924],
+        [0.19167694, 0.08656378, 0.95838475],
     ];
     pub(super) const ST240_XYZ_TO_RGB: [[f32; 3]; 3] = [
-        [3.506003, -1.0092703, 0.026740361],
-        [-1.7397907, 1.9292052, -0.18375263],
-        [-0.5440582, 0.027603257, 1.0636142],
+        [3.5060034, -1.0690476, 0.056306593],
+        [-1.7397907, 1.9777789, -0.19697565],
+        [-0.54405826, 0.03517142, 1.0499524],
     ];
 
     pub(super) const BT709_RGB_TO_XYZ: [[f32; 3]; 3] = [
-- 
2.43.0


From 55817e6747bcd4e6d01751d91c206f91c22a40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:28 +0000
Subject: [PATCH 06/12] fix: clamp components to the code range of the
 destination before quantising

---
 src/formats/i420/write.rs | 12 ++++++------
 src/formats/i422/write.rs | 16 ++++++++--------
 src/formats/i444/write.rs | 28 ++++++++++++++--------------
 src/formats/nv12/write.rs | 12 ++++++------
 src/formats/rgb/write.rs  |  6 +++---
 src/formats/rgba/write.rs |  8 ++++----
 src/formats/yuyv/write.rs | 16 ++++++++--------
 src/vector/avx2.rs        |  4 ++++
 src/vector/avx512.rs      |  4 ++++
 src/vector/mod.rs         | 15 +++++++++++++++
 src/vector/neon.rs        |  4 ++++
 11 files changed, 76 insertions(+), 49 deletions(-)

diff --git a/src/formats/i420/write.rs b/src/formats/i420/write.rs
index dec3cef..07ee81d 100644
--- a/src/formats/i420/write.rs
+++ b/src/formats/i420/write.rs
@@ -74,13 +74,13 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
 
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let u = u.vscale(self.max_value);
+        let v = v.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i422/write.rs b/src/formats/i422/write.rs
index 6cee11b..fd331ed 100644
--- a/src/formats/i422/write.rs
+++ b/src/formats/i422/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
+        let u0 = u0.vscale(self.max_value);
+        let u1 = u1.vscale(self.max_value);
+        let v0 = v0.vscale(self.max_value);
+        let v1 = v1.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/i444/write.rs b/src/formats/i444/write.rs
index c685fb7..677ef0d 100644
--- a/src/formats/i444/write.rs
+++ b/src/formats/i444/write.rs
@@ -74,20 +74,20 @@ where
             px11,
         } = block;
 
-        let y00 = px00.y.vmulf(self.max_value);
-        let y01 = px01.y.vmulf(self.max_value);
-        let y10 = px10.y.vmulf(self.max_value);
-        let y11 = px11.y.vmulf(self.max_value);
-
-        let u00 = px00.u.vmulf(self.max_value);
-        let u01 = px01.u.vmulf(self.max_value);
-        let u10 = px10.u.vmulf(self.max_value);
-        let u11 = px11.u.vmulf(self.max_value);
-
-        let v00 = px00.v.vmulf(self.max_value);
-        let v01 = px01.v.vmulf(self.max_value);
-        let v10 = px10.v.vmulf(self.max_value);
-        let v11 = px11.v.vmulf(self.max_value);
+        let y00 = px00.y.vscale(self.max_value);
+        let y01 = px01.y.vscale(self.max_value);
+        let y10 = px10.y.vscale(self.max_value);
+        let y11 = px11.y.vscale(self.max_value);
+
+        let u00 = px00.u.vscale(self.max_value);
+        let u01 = px01.u.vscale(self.max_value);
+        let u10 = px10.u.vscale(self.max_value);
+        let u11 = px11.u.vscale(self.max_value);
+
+        let v00 = px00.v.vscale(self.max_value);
+        let v01 = px01.v.vscale(self.max_value);
+        let v10 = px10.v.vscale(self.max_value);
+        let v11 = px11.v.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/nv12/write.rs b/src/formats/nv12/write.rs
index 2132080..136ef33 100644
--- a/src/formats/nv12/write.rs
+++ b/src/formats/nv12/write.rs
@@ -70,12 +70,12 @@ where
             v,
         } = self.i420_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u = u.vmulf(self.max_value);
-        let v = v.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
+        let u = u.vscale(self.max_value);
+        let v = v.vscale(self.max_value);
 
         let y00_offset = y * self.y_stride + x * P::SIZE;
         let y10_offset = (y + 1) * self.y_stride + x * P::SIZE;
diff --git a/src/formats/rgb/write.rs b/src/formats/rgb/write.rs
index 7ee55fe..892822e 100644
--- a/src/formats/rgb/write.rs
+++ b/src/formats/rgb/write.rs
@@ -84,9 +84,9 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 3] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
+    let r = px.r.vscale(max_value);
+    let g = px.g.vscale(max_value);
+    let b = px.b.vscale(max_value);
 
     if REVERSE {
         [b, g, r]
diff --git a/src/formats/rgba/write.rs b/src/formats/rgba/write.rs
index 3550615..f761033 100644
--- a/src/formats/rgba/write.rs
+++ b/src/formats/rgba/write.rs
@@ -85,10 +85,10 @@ unsafe fn multiply_and_reverse<const REVERSE: bool, V: Vector>(
     px: RgbaPixel<V>,
     max_value: f32,
 ) -> [V; 4] {
-    let r = px.r.vmulf(max_value);
-    let g = px.g.vmulf(max_value);
-    let b = px.b.vmulf(max_value);
-    let a = px.a.vmulf(max_value);
+    let r = px.r.vscale(max_value);
+    let g = px.g.vscale(max_value);
+    let b = px.b.vscale(max_value);
+    let a = px.a.vscale(max_value);
 
     if REVERSE {
         [b, g, r, a]
diff --git a/src/formats/yuyv/write.rs b/src/formats/yuyv/write.rs
index ad18abd..d6352fc 100644
--- a/src/formats/yuyv/write.rs
+++ b/src/formats/yuyv/write.rs
@@ -76,14 +76,14 @@ where
             v1,
         } = self.i422_src.read::<V>(x, y);
 
-        let y00 = y00.vmulf(self.max_value);
-        let y01 = y01.vmulf(self.max_value);
-        let y10 = y10.vmulf(self.max_value);
-        let y11 = y11.vmulf(self.max_value);
-        let u0 = u0.vmulf(self.max_value);
-        let u1 = u1.vmulf(self.max_value);
-        let v0 = v0.vmulf(self.max_value);
-        let v1 = v1.vmulf(self.max_value);
+        let y00 = y00.vscale(self.max_value);
+        let y01 = y01.vscale(self.max_value);
+        let y10 = y10.vscale(self.max_value);
+        let y11 = y11.vscale(self.max_value);
+        let u0 = u0.vscale(self.max_value);
+        let u1 = u1.vscale(self.max_value);
+        let v0 = v0.vscale(self.max_value);
+        let v1 = v1.vscale(self.max_value);
 
         let offset0 = y * self.yuyv_stride + x * 2 * P::SIZE;
         let offset1 = (y + 1) * self.yuyv_stride + x * 2 * P::SIZE;
diff --git a/src/vector/avx2.rs b/src/vector/avx2.rs
index 4d9fcf4..e20cca8 100644
--- a/src/vector/avx2.rs
+++ b/src/vector/avx2.rs
@@ -35,6 +35,10 @@ unsafe impl Vector for __m256 {
     unsafe fn vmax(self, other: Self) -> Self {
         _mm256_max_ps(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm256_min_ps(self, other)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
diff --git a/src/vector/avx512.rs b/src/vector/avx512.rs
index 24ee33b..218c0a4 100644
--- a/src/vector/avx512.rs
+++ b/src/vector/avx512.rs
@@ -35,6 +35,10 @@ unsafe impl Vector for __m512 {
     unsafe fn vmax(self, other: Self) -> Self {
         _mm512_max_ps(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        _mm512_min_ps(self, other)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
diff --git a/src/vector/mod.rs b/src/vector/mod.rs
index cdbd172..3d3c32c 100644
--- a/src/vector/mod.rs
+++ b/src/vector/mod.rs
@@ -52,6 +52,17 @@ pub(crate) unsafe trait Vector: Debug + Copy + 'static {
         self.vmax(Self::splat(other))
     }
 
+    unsafe fn vmin(self, other: Self) -> Self;
+    unsafe fn vminf(self, other: f32) -> Self {
+        self.vmin(Self::splat(other))
+    }
+
+    /// Scale from the analog range 0.0..=1.0 to `0.0..=max_value`, values outside that range are clamped to it
+    #[inline(always)]
+    unsafe fn vscale(self, max_value: f32) -> Self {
+        self.vmulf(max_value).vmaxf(0.0).vminf(max_value)
+    }
+
     /// Compare all element in self to other and return a mask with the results a < b
     unsafe fn lt(self, other: Self) -> Self::Mask;
     unsafe fn ltf(self, other: f32) -> Self::Mask {
@@ -157,6 +168,10 @@ unsafe impl Vector for f32 {
     unsafe fn vmax(self, other: Self) -> Self {
         self.max(other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        self.min(other)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
diff --git a/src/vector/neon.rs b/src/vector/neon.rs
index 720e74c..03e10af 100644
--- a/src/vector/neon.rs
+++ b/src/vector/neon.rs
@@ -32,6 +32,10 @@ unsafe impl Vector for float32x4_t {
     unsafe fn vmax(self, other: Self) -> Self {
         vmaxq_f32(self, other)
     }
+    #[inline(always)]
+    unsafe fn vmin(self, other: Self) -> Self {
+        vminq_f32(self, other)
+    }
 
     #[inline(always)]
     unsafe fn lt(self, other: Self) -> Self::Mask {
-- 
2.43.0


From ac05dd18da0f9d555fb31e39a1ed30fc778daa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 07/12] fix: strides are in bytes when cropping images with 16
 bit components

---
 src/crop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crop.rs b/src/crop.rs
index a43448b..c0d6f65 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -89,11 +89,11 @@ fn crop_planes<'a, S: AnySlice + 'a>(
             .into_iter()
             .zip(planes)
             .map(move |(plane_desc, (slice, stride))| {
-                let x = plane_desc.width_op.op(window.x);
+                let x = plane_desc.packed_stride(window.x);
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = (y * stride + x) * plane_desc.bytes_per_primitive;
+                let split_at = y * stride + x;
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
-- 
2.43.0


From 4af896c962aaa251906ea19fca5bf433ae11e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:29 +0000
Subject: [PATCH 08/12] fix: convert_multi_thread handles empty and invalid
 images like convert

---
 src/multi_thread.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 91e9bcb..5e2abe6 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -4,7 +4,7 @@ use rayon::iter::{IndexedParallelIterator, IntoParallelIterator, ParallelIterato
 
 use crate::{
     convert, convert_same_color_and_pixel_format, plane_decs::PlaneDesc, verify_input_windows,
-    AnySlice, ConvertError, Image, ImageMut, ImageRef, StrictApi,
+    AnySlice, ConvertError, Image, ImageMut, ImageRef, ImageRefExt, StrictApi,
 };
 
 /// Parallelizes [`convert`] using as many threads as there are CPU cores.
@@ -20,12 +20,16 @@ pub fn convert_multi_thread(
 
     let threads = num_cpus::get();
 
-    if threads == 1 {
+    let width = src.width();
+    let height = src.height();
+
+    if threads == 1 || width == 0 || height == 0 {
         return convert(src, dst);
     }
 
-    let width = src.width();
-    let height = src.height();
+    // Splitting the planes relies on them being large enough
+    src.bounds_check()?;
+    dst.bounds_check()?;
 
     let src_format = src.format();
     let dst_format = dst.format();
-- 
2.43.0


From c1aa15f1ece555b9c09b394c8efa2d0b044bb3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 09/12] fix: Image::from_buffer reports buffers that are too
 small instead of panicking

---
 src/image.rs  | 36 +++++++++++++++---------------------
 src/planes.rs | 25 ++++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/image.rs b/src/image.rs
index 07ef233..874e74b 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -1,4 +1,6 @@
-use crate::{infer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat};
+use crate::{
+    planes::split_buffer, BoundsCheckError, ColorInfo, ImageMut, ImageRef, ImageRefExt, PixelFormat,
+};
 
 /// Basic wrapper around any image, implementing the [`ImageRef`] and [`ImageMut`] trait
 #[derive(Debug, Clone)]
@@ -109,16 +111,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 
     fn planes(&self) -> Box<dyn Iterator<Item = (&[u8], usize)> + '_> {
         match &self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_ref(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_ref(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter()
@@ -135,16 +133,12 @@ unsafe impl<S: AsRef<[u8]>> ImageRef for Image<S> {
 unsafe impl<S: AsRef<[u8]> + AsMut<[u8]>> ImageMut for Image<S> {
     fn planes_mut(&mut self) -> Box<dyn Iterator<Item = (&mut [u8], usize)> + '_> {
         match &mut self.buffer {
-            Buffer::Whole(buffer) => Box::new(
-                infer(
-                    self.format,
-                    buffer.as_mut(),
-                    self.width,
-                    self.height,
-                    Some(&self.strides),
-                )
-                .zip(self.strides.iter().copied()),
-            ),
+            Buffer::Whole(buffer) => Box::new(split_buffer(
+                self.format,
+                buffer.as_mut(),
+                self.height,
+                &self.strides,
+            )),
             Buffer::Split(planes) => Box::new(
                 planes
                     .iter_mut()
diff --git a/src/planes.rs b/src/planes.rs
index 7d5c899..c19d753 100644
--- a/src/planes.rs
+++ b/src/planes.rs
@@ -6,7 +6,7 @@ use crate::{
     util::ArrayIter,
     PixelFormat, StrictApi,
 };
-use std::mem::MaybeUninit;
+use std::mem::{take, MaybeUninit};
 
 #[derive(Debug, thiserror::Error)]
 #[error("got invalid number of planes, expected {expected} but only got {got}")]
@@ -106,6 +106,29 @@ fn infer_impl<const N: usize, S: AnySlice>(
     out.map(|p| unsafe { p.assume_init() })
 }
 
+/// Split a buffer into the planes of an image using the given height and strides
+///
+/// Planes are cut short if `buf` is too small and missing if there are too few strides, which is left to
+/// [`PixelFormat::bounds_check`] to find out.
+pub(crate) fn split_buffer<'a, S: AnySlice + 'a>(
+    format: PixelFormat,
+    mut buf: S,
+    height: usize,
+    strides: &'a [usize],
+) -> impl Iterator<Item = (S, usize)> + 'a {
+    let planes = format.plane_desc().iter().zip(strides);
+
+    planes.map(move |(desc, &stride)| {
+        let len = desc.height_op.op(height).strict_mul_(stride);
+        let len = len.min(buf.slice_len());
+
+        let (plane, rem) = take(&mut buf).slice_split_at(len);
+        buf = rem;
+
+        (plane, stride)
+    })
+}
+
 /// Infer the planes for a full I420 image using the given dimensions
 ///
 /// # Panics
-- 
2.43.0


From e6353fe147a3f2a97337be176265e232db915f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 10/12] fix: copy only the rows that belong to the picture

---
 src/copy.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/copy.rs b/src/copy.rs
index de1a71a..9ede121 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -17,11 +17,16 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
         desc.iter().zip(planes.zip(planes_mut))
     {
         let n = desc.width_op.op(src.width()) * desc.bytes_per_primitive;
+        let rows = desc.height_op.op(src.height());
+
+        if n == 0 {
+            continue;
+        }
 
         let src_rows = src_plane.chunks_exact(src_stride);
         let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
 
-        for (src_row, dst_row) in src_rows.zip(dst_rows) {
+        for (src_row, dst_row) in src_rows.zip(dst_rows).take(rows) {
             dst_row[..n].copy_from_slice(&src_row[..n]);
         }
     }
-- 
2.43.0


From 5bc9c9bc74471ce1ece6b36f45217dc28e2e4e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:09 +0000
Subject: [PATCH 11/12] fix: resize only the rows that belong to the picture

---
 src/resize.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/resize.rs b/src/resize.rs
index 624ce29..4b9d42f 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -58,6 +58,9 @@ impl Resizer {
         let src_width = src.width();
         let dst_width = dst.width();
 
+        let src_height = src.height();
+        let dst_height = dst.height();
+
         let src_planes: Vec<(&[u8], usize)> = src.planes().collect();
         let dst_planes: Vec<(&mut [u8], usize)> = dst.planes_mut().collect();
 
@@ -78,8 +81,8 @@ impl Resizer {
                     let dst_fir_width = plane_desc.width_op.op(dst_width)
                         / (plane_desc.pixel_type.size() / plane_desc.bytes_per_primitive);
 
-                    let src_height = src_plane.len() / src_stride;
-                    let dst_height = dst_plane.len() / dst_stride;
+                    let src_height = plane_desc.height_op.op(src_height);
+                    let dst_height = plane_desc.height_op.op(dst_height);
 
                     let src = FirAdapterIntoImageView {
                         pixel_type: plane_desc.pixel_type,
@@ -210,6 +213,7 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
         self.plane
             .as_ref()
             .chunks_exact(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &row[..self.width * P::pixel_type().size()];
@@ -232,6 +236,7 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
         self.plane
             .as_mut()
             .chunks_exact_mut(self.stride)
+            .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
                 let row = &mut row[..self.width * P::pixel_type().size()];
-- 
2.43.0


From 2e920aa3a2218d046eaf93de1309c2918421b932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:59 +0000
Subject: [PATCH 12/12] fix: the last row of a plane need not be padded to the
 full stride, so windows may touch the bottom right corner

---
 src/copy.rs         | 4 ++--
 src/crop.rs         | 4 +++-
 src/multi_thread.rs | 2 ++
 src/pixel_format.rs | 7 +++++--
 src/resize.rs       | 4 ++--
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/copy.rs b/src/copy.rs
index 9ede121..3fc9818 100644
--- a/src/copy.rs
+++ b/src/copy.rs
@@ -23,8 +23,8 @@ pub(crate) fn copy_impl(src: &dyn ImageRef, dst: &mut dyn ImageMut) -> Result<()
             continue;
         }
 
-        let src_rows = src_plane.chunks_exact(src_stride);
-        let dst_rows = dst_plane.chunks_exact_mut(dst_stride);
+        let src_rows = src_plane.chunks(src_stride);
+        let dst_rows = dst_plane.chunks_mut(dst_stride);
 
         for (src_row, dst_row) in src_rows.zip(dst_rows).take(rows) {
             dst_row[..n].copy_from_slice(&src_row[..n]);
diff --git a/src/crop.rs b/src/crop.rs
index c0d6f65..5a2aaf3 100644
--- a/src/crop.rs
+++ b/src/crop.rs
@@ -93,11 +93,13 @@ fn crop_planes<'a, S: AnySlice + 'a>(
                 let y = plane_desc.height_op.op(window.y);
 
                 // First trim the bytes byte "in front" of the window
-                let split_at = y * stride + x;
+                let split_at = (y * stride + x).min(slice.slice_len());
                 let (_, slice) = slice.slice_split_at(split_at);
 
                 // Trim the bytes at the end of the window
+                // (the last row may end before a full stride, when the window touches the bottom of the image)
                 let split_at = plane_desc.height_op.op(window.height) * stride;
+                let split_at = split_at.min(slice.slice_len());
                 let (slice, _) = slice.slice_split_at(split_at);
 
                 (slice, stride)
diff --git a/src/multi_thread.rs b/src/multi_thread.rs
index 5e2abe6..e94d244 100644
--- a/src/multi_thread.rs
+++ b/src/multi_thread.rs
@@ -111,6 +111,8 @@ pub(crate) fn split_planes<S: AnySlice>(
 
         for (plane_desc, (slice, stride)) in plane_decs.iter().zip(&mut planes) {
             let split_at = stride.strict_mul_(plane_desc.height_op.op(h));
+            // The last row of an image may end before a full stride
+            let split_at = split_at.min(slice.slice_len());
 
             let (prev, rem) = take(slice).slice_split_at(split_at);
             *slice = rem;
diff --git a/src/pixel_format.rs b/src/pixel_format.rs
index e7203a2..e18a110 100644
--- a/src/pixel_format.rs
+++ b/src/pixel_format.rs
@@ -112,8 +112,11 @@ impl PixelFormat {
                     });
                 }
 
-                // Ensure slice is large enough
-                let min_len = stride.strict_mul_(plane.height_op.op(height));
+                // Ensure slice is large enough, the last row doesn't have to be padded to a full stride
+                let min_len = match plane.height_op.op(height).checked_sub(1) {
+                    Some(rows) => stride.strict_mul_(rows).strict_add_(min_stride),
+                    None => 0,
+                };
 
                 if min_len > slice.len() {
                     return Err(BoundsCheckError::InvalidPlaneSize {
diff --git a/src/resize.rs b/src/resize.rs
index 4b9d42f..b8e6ff9 100644
--- a/src/resize.rs
+++ b/src/resize.rs
@@ -212,7 +212,7 @@ unsafe impl<T: AsRef<[u8]> + Send + Sync, P: InnerPixel> fir::ImageView
     fn iter_rows(&self, start_row: u32) -> impl Iterator<Item = &[Self::Pixel]> {
         self.plane
             .as_ref()
-            .chunks_exact(self.stride)
+            .chunks(self.stride)
             .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
@@ -235,7 +235,7 @@ unsafe impl<T: AsRef<[u8]> + AsMut<[u8]> + Send + Sync, P: InnerPixel> fir::Imag
     fn iter_rows_mut(&mut self, start_row: u32) -> impl Iterator<Item = &mut [Self::Pixel]> {
         self.plane
             .as_mut()
-            .chunks_exact_mut(self.stride)
+            .chunks_mut(self.stride)
             .take(self.height)
             .skip(start_row as usize)
             .map(|row| {
-- 
2.43.0


From bc7dbcd201551f2720a9b37696f3963f62f64f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 01/20] fix: convert every remaining element in
 xyz_slice_to_rgb_avx_planes

The scalar tail started at len - num_iters instead of after the last full
vector, leaving elements unconverted for most lengths.
---
 src/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transform.rs b/src/transform.rs
index 9c42ab8..e2652b3 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -98,7 +98,7 @@ pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
     let num_iters = xs.len() / S::VF32_WIDTH;
-    let start_remaining = xs.len() - num_iters;
+    let start_remaining = num_iters * S::VF32_WIDTH;
 
     let m0 = unsafe { S::set1_ps(mtx.x[0]) };
     let m1 = unsafe { S::set1_ps(mtx.x[1]) };
-- 
2.43.0


From 75cfc4cff56fef7224ea0eac678db5ccb50dc100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 02/20] fix: reject planes of different lengths in
 xyz_slice_to_rgb_avx_planes

The vector loop reads ys and zs unchecked up to the length of xs, which is
out of bounds when they are shorter.
---
 src/transform.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transform.rs b/src/transform.rs
index e2652b3..5cc193e 100644
--- a/src/transform.rs
+++ b/src/transform.rs
@@ -94,6 +94,8 @@ where
 
 #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
 pub fn xyz_slice_to_rgb_avx_planes<S: simdeez::Simd>(mtx: &M3f32, xs: &[f32], ys: &[f32], zs: &[f32]) -> (Vec<f32>, Vec<f32>, Vec<f32>) {
+    assert_eq!(xs.len(), ys.len(), "planes must have the same length");
+    assert_eq!(xs.len(), zs.len(), "planes must have the same length");
     let mut result_r = vec![0.0f32; xs.len()];
     let mut result_g = vec![0.0f32; xs.len()];
     let mut result_b = vec![0.0f32; xs.len()];
-- 
2.43.0


From d9a3e0dc3e2c74ae868d6035d486dc01ee288f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 03/20] fix: include the last gap when classifying the sampling
 interval

Samples whose last gap differs were reported as uniformly spaced.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 6c82bfa..62218e4 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -439,7 +439,7 @@ fn calculate_interval(samples: &[Sample]) -> Interval<f64> {
         panic!("Must have at least 2 samples");
     }
     let assumed_interval = samples[1].nm - samples[0].nm;
-    for i in 1..samples.len() - 1 {
+    for i in 1..samples.len() {
         // This is safe because we guarantee we're in bounds in the for loop
         let interval = unsafe { samples.get_unchecked(i).nm - samples.get_unchecked(i - 1).nm };
         if !interval.approx_eq(assumed_interval, F64Margin { ulps: 2, epsilon: 1.0e-11 }) {
-- 
2.43.0


From bfa98a3a8d28b402fd4931721b95bfb5d3390e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 04/20] fix: test the magnitude of the last column in
 Matrix33::inverse

Negative entries took the affine fast path and gave a wrong inverse.
---
 src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.rs b/src/math.rs
index 5e45db9..e1450a9 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -267,7 +267,7 @@ where
 
     /// Matrix inverse
     pub fn inverse(self) -> Option<Matrix33<T>> {
-        if self[0][2] > T::epsilon() || self[1][2] > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
+        if self[0][2].abs() > T::epsilon() || self[1][2].abs() > T::epsilon() || (self[2][2] - T::one()).abs() > T::epsilon() {
             let mut mtx_s = Matrix33::new([
                 self[1][1] * self[2][2] - self[2][1] * self[1][2],
                 self[2][1] * self[0][2] - self[0][1] * self[2][2],
-- 
2.43.0


From 7fcf129aec1f5f51e75cd2c7d7980905da14b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 05/20] fix: scale only the linear part in the affine path of
 Matrix33::inverse

The last diagonal entry was divided by the determinant as well, so e.g.
diag(2, 3, 1) was inverted to diag(1/2, 1/3, 1/6).
---
 src/math.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index e1450a9..60dfc98 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -314,16 +314,20 @@ where
             let r = self[0][0] * self[1][1] - self[1][0] * self[0][1];
 
             if r.abs() >= T::one() {
-                for s in mtx_s.x.iter_mut() {
-                    *s /= r;
+                for i in 0..2 {
+                    for j in 0..2 {
+                        mtx_s[i][j] /= r;
+                    }
                 }
             } else {
                 let mr = r.abs() / T::min_positive_value();
-                for s in mtx_s.x.iter_mut() {
-                    if mr > s.abs() {
-                        *s /= r;
-                    } else {
-                        return None;
+                for i in 0..2 {
+                    for j in 0..2 {
+                        if mr > mtx_s[i][j].abs() {
+                            mtx_s[i][j] /= r;
+                        } else {
+                            return None;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 904a215b0dccf1e18dbd1d3738994ad977988562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 06/20] fix: choose gj_inverse pivots from the partially
 eliminated matrix

Searching the original matrix could divide by a zero pivot and return NaN
for an invertible matrix.
---
 src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index 60dfc98..f2eeeb3 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -199,10 +199,10 @@ where
         // Forward elimination
         for i in 0..2 {
             let mut pivot = i;
-            let mut pivot_size: T = self[i][i].abs();
+            let mut pivot_size: T = mtx_t[i][i].abs();
 
             for j in (i + 1)..3 {
-                let tmp = self[j][i].abs();
+                let tmp = mtx_t[j][i].abs();
                 if tmp > pivot_size {
                     pivot = j;
                     pivot_size = tmp;
-- 
2.43.0


From baec555bc7682b67489e39c77d6d77c1866b83d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 07/20] fix: report the extrapolated range as the shape of the
 result

extrapolate() keeps every sample of self, so the range is the union of both.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 62218e4..4992118 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -355,7 +355,7 @@ impl VSPD {
 
         VSPD {
             samples,
-            shape: SpdShape::new(shape.start, shape.end, interval),
+            shape: SpdShape::new(start, end, interval),
         }
     }
 
-- 
2.43.0


From 376029e8e70ee81b010d274b5c53dddfa3af5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:22 +0000
Subject: [PATCH 08/20] fix: keep align() on the grid of the requested shape

When the boundaries of self fell between two wavelengths of the requested
shape, the interpolated samples were offset from that grid, and sums over
aligned spectra paired values of different wavelengths.
---
 src/vspd.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 4992118..f92cced 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -313,7 +313,16 @@ impl VSPD {
     /// Returns a new [VSPD] whose shape matches the supplied [SpdShape] by first
     /// interpolating then extrapolating
     pub fn align(&self, shape: SpdShape<f64>) -> VSPD {
-        self.interpolate(shape).extrapolate(shape)
+        // Only resample at wavelengths that lie on the grid of `shape`, so that
+        // the extrapolated samples stay on that grid too.
+        let mut inner = shape;
+        if let Interval::Uniform(interval) = shape.interval {
+            let first = ((self.start() - shape.start) / interval - 1.0e-9).ceil().max(0.0);
+            let last = ((self.end().min(shape.end) - shape.start) / interval + 1.0e-9).floor();
+            inner.start = shape.start + first * interval;
+            inner.end = shape.start + last * interval;
+        }
+        self.interpolate(inner).extrapolate(shape)
     }
 
     /// Create a new VSPD by extrapolating the boundaries of the domain of this
-- 
2.43.0


From 7f53fae3b13769de0586ad79b8a2aac9b2f4c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:18 +0000
Subject: [PATCH 09/20] fix: use the 10nm weighting factors only for spectra
 sampled on their grid

The interval was truncated to an integer and the start was ignored, so a
10.9375nm spectrum, or a 10nm spectrum starting at 365nm, was weighted with
factors of other wavelengths. Such spectra are interpolated instead.
---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index f92cced..32dfad7 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -426,8 +426,9 @@ impl VSPD {
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 => {
-                        // use ASTME308 weighting factors
+                    10 if interval == 10.0 && ((self.start() - cmf.shape().start) / interval).fract() == 0.0 => {
+                        // use ASTME308 weighting factors, which are tabulated at
+                        // multiples of the interval from the start of the cmf
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
                     }
                     // 20.0 => {
-- 
2.43.0


From eac3a8a7d5a922a9469bcb4d2fa3986c8d9d13ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:18 +0000
Subject: [PATCH 10/20] fix: handle fewer than two steps in linspace

A single step gave 0 * NaN, so the Lagrange coefficients for a 2nm interval
were NaN, and zero steps overflowed.
---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 32dfad7..5776bb7 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -726,7 +726,7 @@ impl Iterator for FloatRange {
 }
 
 pub fn linspace(start: f64, end: f64, steps: usize) -> FloatRange {
-    let delta = (end - start) / (steps - 1) as f64;
+    let delta = if steps > 1 { (end - start) / (steps - 1) as f64 } else { 0.0 };
     FloatRange {
         current: 0,
         steps,
-- 
2.43.0


From e0d6be98c46ee8d748209a4fe15f7dd9d070fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:18 +0000
Subject: [PATCH 11/20] fix: reject NaN temperatures in cct

A NaN temperature is not in the supported range but returned Ok.
---
 src/illuminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/illuminant.rs b/src/illuminant.rs
index ae3b692..eb6f37d 100644
--- a/src/illuminant.rs
+++ b/src/illuminant.rs
@@ -47,7 +47,7 @@ pub mod xy {
     {
         let t2 = t * t;
         let t3 = t2 * t;
-        if t < 4000.0 || t > 25000.0 {
+        if !(t >= 4000.0 && t <= 25000.0) {
             Err(TemperatureOutOfBound)
         } else if t <= 7000.0 {
             let xd = -4.607e9 / t3 + 2.9678e6 / t2 + 0.09911e3 / t + 0.244063;
-- 
2.43.0


From b8b3566cbb0e19dc14deb5272d08679cce48848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:25 +0000
Subject: [PATCH 12/20] fix: interpolate spectra of fewer than six samples
 linearly

Sprague interpolation extrapolates its boundary values from six samples;
with fewer, a constant spectrum was interpolated to a non-constant one.
---
 src/vspd.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 5776bb7..1a016d7 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -11,7 +11,7 @@ use itertools::izip;
 
 use crate::{
     cmf::CMF,
-    interpolation::{ExtrapolatorConstant, InterpolatorSprague, SpragueCoefficients},
+    interpolation::{ExtrapolatorConstant, InterpolatorLinear, InterpolatorSprague, SpragueCoefficients},
     xyz::{xyz, XYZf64},
 };
 
@@ -304,8 +304,15 @@ impl VSPD {
         shape.start = shape.start.max(self.start());
         shape.end = shape.end.min(self.end());
 
+        let linear = InterpolatorLinear::new(self);
+
         let mut samples = Vec::<Sample>::new();
-        samples.extend(shape.iter().map(|nm| Sample::new(nm, interp.evaluate(nm))));
+        // Sprague needs six samples to continue the spectrum past its boundaries
+        if self.len() < 6 {
+            samples.extend(shape.iter().map(|nm| Sample::new(nm, linear.evaluate(nm))));
+        } else {
+            samples.extend(shape.iter().map(|nm| Sample::new(nm, interp.evaluate(nm))));
+        }
 
         VSPD { samples, shape }
     }
-- 
2.43.0


From f22c866df4e25b2a1d4baa65d7ed781eda7627d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:20:28 +0000
Subject: [PATCH 13/20] fix: do not drop the last wavelength of a shape to
 round-off

(401.0 - 400.1) / 0.1 is slightly below 9, so the shape had 9 samples
instead of 10 and from_values rejected the right number of values.
---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 1a016d7..84b42b6 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -77,7 +77,8 @@ where
         };
         SpdShapeIterator::<T> {
             current: 0,
-            end: ((self.end - self.start) / interval).to_usize().unwrap() + 1,
+            // allow for round-off in the number of intervals
+            end: ((self.end - self.start) / interval + T::from(1.0e-3).unwrap()).to_usize().unwrap() + 1,
             start: self.start,
             interval,
         }
@@ -224,7 +225,7 @@ impl VSPD {
                 panic!("Cannot create a VSPD with varying interval");
             }
         };
-        let num_samples_from_shape = ((shape.end - shape.start) / interval) as usize + 1;
+        let num_samples_from_shape = ((shape.end - shape.start) / interval + 1.0e-3) as usize + 1;
         if num_samples_from_shape != values.len() {
             panic!(
                 "Length of values slice did not match requested shape. SpdShape has {} samples, but values slice had {} values.",
-- 
2.43.0


From 5bce4ae5ec0042d8b083d4961df1ecd0be15fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:20 +0000
Subject: [PATCH 14/20] fix: place extrapolated samples by index, not by
 accumulation

---
 src/vspd.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 84b42b6..b34785c 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -345,7 +345,6 @@ impl VSPD {
         let mut samples = Vec::<Sample>::new();
         let start = self.start().min(shape.start);
         let end = self.end().max(shape.end);
-        let mut x = start;
 
         // use this SPD's interval unless it's varying, in which case use the
         // given shape's interval. If that is also varying, panic
@@ -359,15 +358,17 @@ impl VSPD {
             },
         };
 
-        while x < self.start() {
+        // allow for round-off in the number of intervals on either side
+        let below = ((self.start() - start) / interval - 1.0e-3).ceil() as usize;
+        for k in 0..below {
+            let x = start + k as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
         samples.extend(self.samples.iter());
-        x = self.end() + interval;
-        while x <= end {
+        let above = ((end - self.end()) / interval + 1.0e-3) as usize;
+        for k in 1..=above {
+            let x = self.end() + k as f64 * interval;
             samples.push(Sample::new(x, extrap.evaluate(x)));
-            x += interval;
         }
 
         VSPD {
-- 
2.43.0


From 56ded417276ce69a28c979573cc36d40f16f1109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:18 +0000
Subject: [PATCH 15/20] fix: align to shapes without a wavelength inside the
 spectrum

---
 src/vspd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vspd.rs b/src/vspd.rs
index b34785c..a63be0e 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -329,6 +329,12 @@ impl VSPD {
             let last = ((self.end().min(shape.end) - shape.start) / interval + 1.0e-9).floor();
             inner.start = shape.start + first * interval;
             inner.end = shape.start + last * interval;
+            // nothing to interpolate if no wavelength of `shape` lies inside this SPD
+            if last < first {
+                let linear = InterpolatorLinear::new(self);
+                let samples = shape.iter().map(|nm| Sample::new(nm, linear.evaluate(nm))).collect();
+                return VSPD { samples, shape };
+            }
         }
         self.interpolate(inner).extrapolate(shape)
     }
-- 
2.43.0


From 5ed4fdb6b618f21dd4ea29825f47f5f230534fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:19 +0000
Subject: [PATCH 16/20] fix: use the 10nm weighting factors only for spectra
 that overlap their range

---
 src/vspd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index a63be0e..587dd0c 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -441,7 +441,11 @@ impl VSPD {
                         shape.interval = Interval::Uniform(5.0);
                         spd_to_xyz_integration(self, &illuminant, &cmf, shape)
                     }
-                    10 if interval == 10.0 && ((self.start() - cmf.shape().start) / interval).fract() == 0.0 => {
+                    10 if interval == 10.0
+                        && ((self.start() - cmf.shape().start) / interval).fract() == 0.0
+                        && self.start() <= cmf.shape().end
+                        && self.end() >= cmf.shape().start =>
+                    {
                         // use ASTME308 weighting factors, which are tabulated at
                         // multiples of the interval from the start of the cmf
                         spd_to_xyz_tristimulus_weighting_factors_astme308(self, &illuminant, &cmf)
-- 
2.43.0


From dd4fafb374fb3386e6528b26a4cc61f4f7313d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 17/20] fix: resample spectra of varying interval in spd_to_nit

---
 src/photometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/photometry.rs b/src/photometry.rs
index 16b3e80..e9549aa 100644
--- a/src/photometry.rs
+++ b/src/photometry.rs
@@ -4,6 +4,10 @@ use crate::vspd::*;
 pub fn spd_to_nit(spd: &VSPD, cmf: &CMF) -> f64 {
     // should probably do a modified verison of ASTM E-308 here but for
     // now just do a straight interpolated integration
+    // a varying interval has no grid to align to, so resample as to_xyz does
+    if let Interval::Varying = spd.interval() {
+        return spd_to_nit(&spd.align(SpdShape::new(spd.start(), spd.end(), 1.0)), cmf);
+    }
     let cmf = cmf.y_bar.align(spd.shape());
     let s = spd.values().zip(cmf.values()).map(|(s, y)| s * y).sum::<f64>();
 
-- 
2.43.0


From 082c9236833e775434c7978eb51a142b931392ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:19 +0000
Subject: [PATCH 18/20] fix: integrate spectra of varying interval over the
 full range

---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 587dd0c..cd625f5 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -426,8 +426,9 @@ impl VSPD {
         // interpolate to make it uniform
         match self.interval() {
             Interval::Varying => {
-                let spd = self.align(SpdShape::new(self.shape.start, self.shape.end, 1.0));
-                spd_to_xyz_integration(&spd, &illuminant, &cmf, spd.shape)
+                // over the same range as any other interval, or the result would
+                // depend on where the samples start and end
+                spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
             }
             Interval::Uniform(interval) => {
                 match interval.to_usize().unwrap() {
-- 
2.43.0


From 3af95b1e98e18e37eee56001d87321dc67c0ac69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:53 +0000
Subject: [PATCH 19/20] fix: interpolate spectra of varying interval linearly

---
 src/vspd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index cd625f5..753b959 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -308,8 +308,9 @@ impl VSPD {
         let linear = InterpolatorLinear::new(self);
 
         let mut samples = Vec::<Sample>::new();
-        // Sprague needs six samples to continue the spectrum past its boundaries
-        if self.len() < 6 {
+        // Sprague needs six samples to continue the spectrum past its boundaries,
+        // and is only defined for samples at equal intervals
+        if self.len() < 6 || self.interval() == Interval::Varying {
             samples.extend(shape.iter().map(|nm| Sample::new(nm, linear.evaluate(nm))));
         } else {
             samples.extend(shape.iter().map(|nm| Sample::new(nm, interp.evaluate(nm))));
-- 
2.43.0


From 4dd1991762fb055075a75b209d96dd3ae504f35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:09 +0000
Subject: [PATCH 20/20] fix: integrate at 5nm only for spectra whose interval
 is 5nm

---
 src/vspd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspd.rs b/src/vspd.rs
index 753b959..3571be8 100644
--- a/src/vspd.rs
+++ b/src/vspd.rs
@@ -437,7 +437,7 @@ impl VSPD {
                         // just integrate
                         spd_to_xyz_integration(self, &illuminant, &cmf, SpdShape::astm_e308())
                     }
-                    5 => {
+                    5 if interval == 5.0 => {
                         // Integrate at 5nm
                         let mut shape = SpdShape::astm_e308();
                         shape.interval = Interval::Uniform(5.0);
-- 
2.43.0


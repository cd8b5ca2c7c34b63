From 854e759f4af7142eb6bd6d5b8a8f2f2d380e4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 01/13] fix: autocorr_fast32 keeps the remainder products of
 each lag

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From ffb2812e90d159224a35a57ccf2f5b50d2b6c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 02/13] fix: Chebyshev II design requires rs, not rp

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From f75903a46a4761709563419195461d2b68988834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 03/13] fix: cheby1_dyn and cheby2_dyn default to a lowpass
 filter as documented

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..8f2162b 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0


From 63a9811d8cebffc3feaa59c5a8ea999b3789ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 04/13] fix: Valid convolution with a longer second input has
 the documented length

---
 sci-rs/src/signal/convolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..8982d5a 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -77,7 +77,7 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
             if n1 >= n2 {
                 full_convolution[(n2 - 1)..(n1)].to_vec()
             } else {
-                Vec::new()
+                full_convolution[(n1 - 1)..(n2)].to_vec()
             }
         }
         ConvolveMode::Same => {
-- 
2.43.0


From a7bd2e49a1bd58792833702c3182e9bb3770f11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 05/13] fix: companion_dyn indexes the matrix with bounds
 checks

---
 sci-rs/src/linalg/companion.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..03371dc 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -29,9 +29,7 @@ where
         <DefaultAllocator as allocator::Allocator<Dyn, Dyn>>::Buffer<T>,
     >::zeros(m - 1, m - 1);
     for (i, t) in itr {
-        unsafe {
-            *m.get_unchecked_mut(i) = t;
-        }
+        m[i] = t;
     }
     m
 }
-- 
2.43.0


From 0e1c83251d1695967ae3df686cbb6087ea2276d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:15 +0000
Subject: [PATCH 06/13] fix: factorialk no longer overflows stepping past the
 last factor

---
 sci-rs/src/special/factorial.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..411a989 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -282,7 +282,10 @@ where
 
     while start <= stop {
         result = result * start;
-        start = start + step;
+        start = match start.checked_add(&step) {
+            Some(next) => next,
+            None => break,
+        };
     }
     result
 }
-- 
2.43.0


From 57c298abedb9d77b33fc4cdb916e458d41fee073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:43 +0000
Subject: [PATCH 07/13] fix: numeric conversions of a generic scalar are
 checked instead of assumed

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 sci-rs/src/signal/filter/design/lp2bp_zpk.rs | 2 +-
 sci-rs/src/signal/filter/design/lp2bs_zpk.rs | 6 +++---
 sci-rs/src/signal/filter/design/lp2hp_zpk.rs | 4 ++--
 sci-rs/src/special/xsf/chbevl.rs             | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 8f2162b..d92911b 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -226,8 +226,8 @@ where
         .step_by(2)
         .map(|i| {
             let mi = F::from(i).unwrap();
-            let num = unsafe { F::from(PI).unwrap_unchecked() * mi };
-            let denom = unsafe { F::from(2. * order as f64).unwrap_unchecked() };
+            let num = F::from(PI).unwrap() * mi;
+            let denom = F::from(2. * order as f64).unwrap();
             let c = Complex::new(F::zero(), num / denom);
             -c.exp()
         })
diff --git a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
index 35b9b66..31dc801 100644
--- a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
@@ -70,7 +70,7 @@ where
     let degree = relative_degree_dyn(&zpk.z, &zpk.p);
 
     // Scale poles and zeros to desired bandwidth
-    let two = unsafe { F::from(2.).unwrap_unchecked() };
+    let two = F::from(2.).unwrap();
     let z_lp: Vec<_> = zpk
         .z
         .iter()
diff --git a/sci-rs/src/signal/filter/design/lp2bs_zpk.rs b/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
index 14ba826..81335cf 100644
--- a/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
@@ -64,9 +64,9 @@ where
     let degree = relative_degree_dyn(&zpk.z, &zpk.p);
 
     //Invert to a highpass filter with desired bandwidth
-    let one_neg = unsafe { F::from(-1.).unwrap_unchecked() };
-    let two = unsafe { F::from(2.).unwrap_unchecked() };
-    let two_neg = unsafe { F::from(-2).unwrap_unchecked() };
+    let one_neg = F::from(-1.).unwrap();
+    let two = F::from(2.).unwrap();
+    let two_neg = F::from(-2).unwrap();
     let z_hp: Vec<_> = zpk
         .z
         .iter()
diff --git a/sci-rs/src/signal/filter/design/lp2hp_zpk.rs b/sci-rs/src/signal/filter/design/lp2hp_zpk.rs
index e49d60d..f542a41 100644
--- a/sci-rs/src/signal/filter/design/lp2hp_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2hp_zpk.rs
@@ -80,8 +80,8 @@ where
     // # Scale all points radially from origin to shift cutoff frequency
     // z_hp = wo / z
     // p_hp = wo / p
-    let one_neg = unsafe { F::from(-1.).unwrap_unchecked() };
-    let two = unsafe { F::from(-2.).unwrap_unchecked() };
+    let one_neg = F::from(-1.).unwrap();
+    let two = F::from(-2.).unwrap();
     let mut z_hp: Vec<_> = zpk
         .z
         .iter()
diff --git a/sci-rs/src/special/xsf/chbevl.rs b/sci-rs/src/special/xsf/chbevl.rs
index 9dc7b4f..db54c52 100644
--- a/sci-rs/src/special/xsf/chbevl.rs
+++ b/sci-rs/src/special/xsf/chbevl.rs
@@ -24,5 +24,5 @@ where
         |acc, &e| (x * acc.0 - acc.1 + e, acc.0, acc.1),
     );
 
-    (b0 - b2) / unsafe { T::from(2.).unwrap_unchecked() }
+    (b0 - b2) / T::from(2.).unwrap()
 }
-- 
2.43.0


From ee3757861301093afce8ae2e0142e51b41ebb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:43 +0000
Subject: [PATCH 08/13] fix: chbevl counts the leading coefficient once

---
 sci-rs/src/special/xsf/chbevl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/special/xsf/chbevl.rs b/sci-rs/src/special/xsf/chbevl.rs
index db54c52..2fafcb3 100644
--- a/sci-rs/src/special/xsf/chbevl.rs
+++ b/sci-rs/src/special/xsf/chbevl.rs
@@ -14,7 +14,7 @@ where
         return T::zero();
     }
 
-    let (b0, _, b2): (T, T, T) = coef.iter().fold(
+    let (b0, _, b2): (T, T, T) = coef.iter().skip(1).fold(
         (
             // Safety:: 0 len is checked above.
             *unsafe { coef.first().unwrap_unchecked() },
-- 
2.43.0


From 33c8b2a5490e9b5d601abbc3cab85e20f56b56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:51 +0000
Subject: [PATCH 09/13] fix: the crate builds without the alloc feature

---
 sci-rs/src/signal/filter/ext.rs | 2 ++
 sci-rs/src/stats.rs             | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sci-rs/src/signal/filter/ext.rs b/sci-rs/src/signal/filter/ext.rs
index 2665462..7cf520d 100644
--- a/sci-rs/src/signal/filter/ext.rs
+++ b/sci-rs/src/signal/filter/ext.rs
@@ -23,6 +23,7 @@ pub enum Pad {
 ///
 /// Pad an array.
 ///
+#[cfg(feature = "alloc")]
 pub fn pad<T, M, N>(
     padtype: Pad,
     mut padlen: Option<usize>,
@@ -92,6 +93,7 @@ where
 ///
 /// Pad an array with odd extension.
 ///
+#[cfg(feature = "alloc")]
 pub fn odd_ext_dyn<T, M, N>(x: OMatrix<T, M, N>, n: usize, axis: usize) -> OMatrix<T, Dyn, Dyn>
 where
     T: Scalar + Copy + Zero + One + Sub<Output = T>,
diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 95cc980..5a62788 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -416,6 +416,7 @@ where
 ///     assert_relative_eq!(answer[i], z[i], epsilon = 1e-5);
 /// }
 /// ```
+#[cfg(feature = "alloc")]
 pub fn mod_zscore<YI, F>(y: YI) -> impl Iterator<Item = F>
 where
     F: Float + Default + Copy + Add + Sum,
@@ -447,6 +448,7 @@ where
 ///
 /// assert_relative_eq!(8., z.0);
 /// ```
+#[cfg(feature = "alloc")]
 pub fn median_abs_deviation<YI, F>(y: YI) -> (F, usize)
 where
     F: Float + Default + Sum,
-- 
2.43.0


From 1110530462709a8dc4e21122d927c88b32262320 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 10/13] fix: real elements split off by cplxreal_dyn have no
 imaginary rounding error

A real root with an imaginary part below the tolerance kept it, so zpk2sos_dyn took it for one of
a conjugate pair: it was used twice and the conversion panicked.
---
 sci-rs/src/signal/filter/design/cplx.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..08adffd 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -73,6 +73,11 @@ where
     let (zr, zc): (Vec<_>, Vec<_>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    // A real element keeps no imaginary rounding error
+    let zr: Vec<_> = zr
+        .into_iter()
+        .map(|zi: Complex<F>| Complex::new(zi.re, F::zero()))
+        .collect();
 
     if zr.len() == z.len() {
         // Input is entirely real
-- 
2.43.0


From 14a952676b09d923e888613f889bf38536684488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 11/13] fix: zpk2sos_dyn with minimal pairing accepts a last
 real pole without a zero

The cases of minimal and other pairings were swapped (scipy.signal.zpk2sos), so the second order
sections of any analog filter of odd order without zeros panicked.
---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..ec8061a 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,7 +169,7 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let sos_si = if !matches!(pairing, ZpkPairing::Minimal) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(
-- 
2.43.0


From db44f5fd69b701ea63375550a315f34031cb7277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:03 +0000
Subject: [PATCH 12/13] fix: sections with fewer than two zeros or poles have
 their low powers

zpk2tf_dyn fills up at the end, which multiplied the section by s for each missing zero: the
sections of an analog lowpass were those of a highpass.
---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index ec8061a..c52662d 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -287,7 +287,10 @@ fn single_zpksos_dyn<F>(z: Vec<Complex<F>>, p: Vec<Complex<F>>, k: F) -> Sos<F>
 where
     F: Float + RealField,
 {
-    let ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
+    let mut ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
+    // With fewer than two zeros or poles it is the highest powers that are missing
+    ba.b.rotate_right(2 - z.len());
+    ba.a.rotate_right(2 - p.len());
     if ba.b.len() != 3 || ba.a.len() != 3 {
         panic!(
             "SOS must have 3 coefficients has {} and {}",
-- 
2.43.0


From 24625e61ec0218d1b0acb455506bea799a1e8e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:56 +0000
Subject: [PATCH 13/13] fix: cplxreal_dyn sorts each half of the conjugate
 pairs by its own imaginary parts

---
 sci-rs/src/signal/filter/design/cplx.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index 08adffd..59a53b8 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -131,26 +131,10 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
-                Ordering::Less => Ordering::Less,
-                Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
-            }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        for half in [&mut zp, &mut zn] {
+            half[start..stop]
+                .sort_unstable_by(|a, b| Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap());
+        }
     }
 
     // Check that negatives match positives
-- 
2.43.0


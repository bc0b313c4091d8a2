From 6356d4b480e5d3214f3da2f7bbcf8df165ccc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:22 +0000
Subject: [PATCH 01/21] fix: require rs, not rp, for Chebyshev II designs

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 735d8e0..2e71af8 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -106,7 +106,7 @@ where
             cheb1ap_dyn(order, rp.unwrap())
         }
         FilterType::ChebyshevII => {
-            if rp.is_none() {
+            if rs.is_none() {
                 panic!(
                     "stopband attenuation (rs) must be provided to design an Chebyshev II filter."
                 );
-- 
2.43.0


From 847af9fe73bc82502a54aba09bc52030f12ae7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:48 +0000
Subject: [PATCH 02/21] fix: default cheby1_dyn/cheby2_dyn to lowpass as
 documented

---
 sci-rs/src/signal/filter/design/iirfilter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/iirfilter.rs b/sci-rs/src/signal/filter/design/iirfilter.rs
index 2e71af8..8f2162b 100644
--- a/sci-rs/src/signal/filter/design/iirfilter.rs
+++ b/sci-rs/src/signal/filter/design/iirfilter.rs
@@ -364,7 +364,7 @@ where
         wn,
         Some(rp),
         None, // rs
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevI),
         analog,
         output,
@@ -516,7 +516,7 @@ where
         wn,
         None, // rp
         Some(rs),
-        btype,
+        Some(btype.unwrap_or(FilterBandType::Lowpass)),
         Some(FilterType::ChebyshevII),
         analog,
         output,
-- 
2.43.0


From 8080908c02312e5e49942f03bb1bf2bbe2899197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:45 +0000
Subject: [PATCH 03/21] fix: compute the bilinear gain without overflowing
 single precision

---
 .../src/signal/filter/design/bilinear_zpk.rs  | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/bilinear_zpk.rs b/sci-rs/src/signal/filter/design/bilinear_zpk.rs
index 103809b..adc4be9 100644
--- a/sci-rs/src/signal/filter/design/bilinear_zpk.rs
+++ b/sci-rs/src/signal/filter/design/bilinear_zpk.rs
@@ -93,18 +93,14 @@ where
         .map(|pi| (fs2 + pi) / (fs2 - pi))
         .collect::<Vec<_>>();
 
-    // Compensate for gain change
-    let num = zpk
-        .z
-        .iter()
-        .map(|zi| fs2 - *zi)
-        .fold(Complex::new(F::one(), F::zero()), |acc, zi| acc * zi);
-    let denom = zpk
-        .p
-        .iter()
-        .map(|pi| fs2 - *pi)
-        .fold(Complex::new(F::one(), F::zero()), |acc, pi| acc * pi);
-    let k_z = zpk.k * (num / denom).real();
+    // Compensate for gain change, factor by factor: the products of all `fs2 - z` and of all
+    // `fs2 - p` overflow single precision for high orders
+    let one = Complex::new(F::one(), F::zero());
+    let gain = zpk.p.iter().enumerate().fold(one, |acc, (i, pi)| {
+        let num = zpk.z.get(i).map_or(one, |zi| fs2 - *zi);
+        acc * (num / (fs2 - *pi))
+    });
+    let k_z = zpk.k * gain.real();
 
     ZpkFormatFilter::new(z_z, p_z, k_z)
 }
-- 
2.43.0


From f310a98395397e7b55aa797e7fb6e30f519acd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:16 +0000
Subject: [PATCH 04/21] fix: drop rounding-error imaginary parts of real roots
 in cplxreal_dyn

---
 sci-rs/src/signal/filter/design/cplx.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index e1ffaf4..285de54 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -70,9 +70,14 @@ where
     });
 
     // Split reals from conjugate pairs
-    let (zr, zc): (Vec<_>, Vec<_>) = z
+    let (zr, zc): (Vec<Complex<F>>, Vec<Complex<F>>) = z
         .iter()
         .partition(|zi| Float::abs(zi.im) <= tol * (*zi * *zi).sqrt().re);
+    // Elements that count as real must not keep a rounding-error imaginary part
+    let zr: Vec<Complex<F>> = zr
+        .into_iter()
+        .map(|zi| Complex::new(zi.re, F::zero()))
+        .collect();
 
     if zr.len() == z.len() {
         // Input is entirely real
-- 
2.43.0


From 80f28c56880a1bafcb22cf0e4df8b20f69d1e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:09 +0000
Subject: [PATCH 05/21] fix: keep numerator degree in zpk2tf_dyn and align
 short analog sections like SciPy

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 11 ++++++++---
 sci-rs/src/signal/filter/design/zpk2tf.rs  | 10 ++--------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 6535170..938fda6 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -288,12 +288,17 @@ where
     F: Float + RealField,
 {
     let ba: BaFormatFilter<F> = zpk2tf_dyn(2, &z, &p, k);
-    if ba.b.len() != 3 || ba.a.len() != 3 {
+    if ba.b.len() > 3 || ba.a.len() > 3 {
         panic!(
-            "SOS must have 3 coefficients has {} and {}",
+            "SOS must have at most 3 coefficients has {} and {}",
             ba.b.len(),
             ba.a.len()
         );
     }
-    Sos::new([ba.b[0], ba.b[1], ba.b[2]], [ba.a[0], ba.a[1], ba.a[2]])
+    // Coefficients are in descending powers: fewer than two roots leave the leading ones zero
+    let mut b = [F::zero(); 3];
+    b[3 - ba.b.len()..].copy_from_slice(&ba.b);
+    let mut a = [F::zero(); 3];
+    a[3 - ba.a.len()..].copy_from_slice(&ba.a);
+    Sos::new(b, a)
 }
diff --git a/sci-rs/src/signal/filter/design/zpk2tf.rs b/sci-rs/src/signal/filter/design/zpk2tf.rs
index c4beebc..4398b37 100644
--- a/sci-rs/src/signal/filter/design/zpk2tf.rs
+++ b/sci-rs/src/signal/filter/design/zpk2tf.rs
@@ -84,14 +84,8 @@ where
     let bv = poly2ba(b, z);
     let av = poly2ba(a, p);
 
-    let mut b = vec![F::zero(); order + 1];
-    bv.into_iter()
-        .zip(b.iter_mut())
-        .for_each(|(bvi, bi)| *bi = bvi.real());
-    let mut a = vec![F::zero(); order + 1];
-    av.into_iter()
-        .zip(a.iter_mut())
-        .for_each(|(avi, ai)| *ai = avi.real());
+    let b = bv.into_iter().map(|bvi| bvi.real()).collect::<Vec<_>>();
+    let a = av.into_iter().map(|avi| avi.real()).collect::<Vec<_>>();
 
     BaFormatFilter { b, a }
 }
-- 
2.43.0


From 64e271cacc6231efec44f54c7d79dc43d9e7b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:09 +0000
Subject: [PATCH 06/21] fix: pair the last real pole of an analog system
 without padding it with a pole at zero

---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index 938fda6..f1d18e6 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -169,7 +169,7 @@ where
         // Pair that pole with a zero
         if p1.im.is_zero() && p.iter().filter(|pi| pi.im.is_zero()).count() == 0 {
             // Special case (1): last remaining real pole
-            let sos_si = if matches!(pairing, ZpkPairing::Minimal) {
+            let sos_si = if !matches!(pairing, ZpkPairing::Minimal) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(
-- 
2.43.0


From 2724e021e991edd85ee2497a87273884b55cce24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:04 +0000
Subject: [PATCH 07/21] fix: pair a lone real zero with a complex pole pair in
 analog sections

zpk2sos_dyn with minimal pairing looked for a second real zero whenever any
zero was left, and panicked for e.g. odd-order analog Chebyshev II band-pass
designs with section output.
---
 sci-rs/src/signal/filter/design/zpk2sos.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/zpk2sos.rs b/sci-rs/src/signal/filter/design/zpk2sos.rs
index f1d18e6..8182a14 100644
--- a/sci-rs/src/signal/filter/design/zpk2sos.rs
+++ b/sci-rs/src/signal/filter/design/zpk2sos.rs
@@ -177,7 +177,7 @@ where
                     vec![p1, Complex::zero()],
                     F::one(),
                 )
-            } else if !z.is_empty() {
+            } else if z.iter().any(|zi| zi.im.is_zero()) {
                 let z1_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                 let z1 = z.remove(z1_idx);
                 single_zpksos_dyn(vec![z1], vec![p1], F::one())
@@ -221,7 +221,7 @@ where
                 if !z1.im.is_zero() {
                     let sos_si = single_zpksos_dyn(vec![z1, z1.conj()], vec![p1, p2], F::one());
                     sos.push(sos_si);
-                } else if !z.is_empty() {
+                } else if z.iter().any(|zi| zi.im.is_zero()) {
                     let z2_idx = nearest_real_complex_idx_dyn(&z, p1, WhichNearestComplex::Real);
                     let z2 = z.remove(z2_idx);
                     assert!(z2.im.is_zero());
-- 
2.43.0


From daa4a0c0c6b0af2ce4ad99e64f7e1743b8018ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:30 +0000
Subject: [PATCH 08/21] fix: sort both halves of a conjugate run in
 cplxreal_dyn

The positive and negative halves were sorted jointly by the negative one, so
conjugate-closed roots with (nearly) equal real parts were rejected when
rounding errors put the halves in different orders.
---
 sci-rs/src/signal/filter/design/cplx.rs | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/cplx.rs b/sci-rs/src/signal/filter/design/cplx.rs
index 285de54..2f9f3f6 100644
--- a/sci-rs/src/signal/filter/design/cplx.rs
+++ b/sci-rs/src/signal/filter/design/cplx.rs
@@ -131,26 +131,10 @@ where
     for i in 0..run_starts.len() {
         let start = run_starts[i];
         let stop = run_stops[i] + 1;
-        let mut chunk: Vec<(Complex<F>, Complex<F>)> = zp[start..stop]
-            .iter()
-            .cloned()
-            .zip(zn[start..stop].iter().cloned())
-            .collect();
-        chunk.sort_unstable_by(|a, b| {
-            match Float::abs(a.1.im).partial_cmp(&Float::abs(b.1.im)).unwrap() {
-                Ordering::Less => Ordering::Less,
-                Ordering::Greater => Ordering::Greater,
-                Ordering::Equal => a.0.im.partial_cmp(&b.0.im).unwrap(),
-            }
-        });
-        zp[start..stop]
-            .iter_mut()
-            .zip(zn[start..stop].iter_mut())
-            .zip(chunk.iter())
-            .for_each(|((zpi, zni), ci)| {
-                *zpi = ci.0;
-                *zni = ci.1;
-            })
+        for half in [&mut zp, &mut zn] {
+            half[start..stop]
+                .sort_by(|a, b| Float::abs(a.im).partial_cmp(&Float::abs(b.im)).unwrap());
+        }
     }
 
     // Check that negatives match positives
-- 
2.43.0


From 2762923d999f450df99275fbc998b637db81d4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:13 +0000
Subject: [PATCH 09/21] fix: keep conjugate symmetry of band transforms without
 std

The no_std complex square root and powi go through polar coordinates, which
left rounding errors in the real part of imaginary roots; wide Chebyshev II
band-pass designs then panicked with 'no matching conjugate'.
---
 sci-rs/src/signal/filter/design/lp2bp_zpk.rs | 24 ++++++++++++++++++--
 sci-rs/src/signal/filter/design/lp2bs_zpk.rs |  6 ++---
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
index 35b9b66..6553a5f 100644
--- a/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bp_zpk.rs
@@ -88,7 +88,7 @@ where
 
     let z_bp_t = z_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_dyn(*zi * *zi - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let mut z_bp = z_bp_t
         .iter()
@@ -98,7 +98,7 @@ where
 
     let p_bp_t = p_lp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_dyn(*zi * *zi - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
     let p_bp = p_bp_t
         .iter()
@@ -115,6 +115,26 @@ where
     ZpkFormatFilter::new(z_bp, p_bp, k_bp)
 }
 
+/// Principal square root that is exact about the argument of real radicands.
+///
+/// Without `std` the complex square root goes through polar coordinates, which leaves
+/// rounding errors in a part that must vanish and so breaks conjugate symmetry.
+#[cfg(feature = "alloc")]
+pub(super) fn sqrt_dyn<F>(z: Complex<F>) -> Complex<F>
+where
+    F: RealField + Float,
+{
+    if !z.im.is_zero() {
+        z.sqrt()
+    } else if z.re >= F::zero() {
+        Complex::new(Float::sqrt(z.re), z.im)
+    } else if Float::is_sign_positive(z.im) {
+        Complex::new(F::zero(), Float::sqrt(-z.re))
+    } else {
+        Complex::new(F::zero(), -Float::sqrt(-z.re))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/sci-rs/src/signal/filter/design/lp2bs_zpk.rs b/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
index 14ba826..fe64024 100644
--- a/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
+++ b/sci-rs/src/signal/filter/design/lp2bs_zpk.rs
@@ -4,8 +4,8 @@ use num_traits::Float;
 
 #[cfg(feature = "alloc")]
 use super::{
-    relative_degree::relative_degree_dyn, FilterBandType, FilterOutputType, FilterType, Sos,
-    ZpkFormatFilter,
+    lp2bp_zpk::sqrt_dyn, relative_degree::relative_degree_dyn, FilterBandType, FilterOutputType,
+    FilterType, Sos, ZpkFormatFilter,
 };
 #[cfg(feature = "alloc")]
 use alloc::vec::Vec;
@@ -109,7 +109,7 @@ where
 
     let p_bs_t = p_hp
         .iter()
-        .map(|zi| (*zi, (zi.powi(2) - wo2).sqrt()))
+        .map(|zi| (*zi, sqrt_dyn(*zi * *zi - wo2)))
         .collect::<Vec<(Complex<F>, Complex<F>)>>();
 
     let p_bs = p_bs_t
-- 
2.43.0


From cef96ccbe171d24b2343fa4e835e17ed9501aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:20 +0000
Subject: [PATCH 10/21] fix: implement even and constant padding

---
 sci-rs/src/signal/filter/ext.rs | 42 ++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/filter/ext.rs b/sci-rs/src/signal/filter/ext.rs
index 2665462..8e7e755 100644
--- a/sci-rs/src/signal/filter/ext.rs
+++ b/sci-rs/src/signal/filter/ext.rs
@@ -85,7 +85,47 @@ where
 
     match padtype {
         Pad::Odd => (edge, odd_ext_dyn(x, edge, axis)),
-        _ => unreachable!(),
+        Pad::Even => {
+            // mirror around the first and last sample
+            let ext = extend_by_index(&x, edge, axis, |i, len| {
+                if i < edge {
+                    edge - i
+                } else if i < edge + len {
+                    i - edge
+                } else {
+                    2 * (len - 1) - (i - edge)
+                }
+            });
+            (edge, ext)
+        }
+        Pad::Constant => {
+            // repeat the first and last sample
+            let ext = extend_by_index(&x, edge, axis, |i, len| i.saturating_sub(edge).min(len - 1));
+            (edge, ext)
+        }
+        Pad::None => unreachable!(),
+    }
+}
+
+/// Extend `x` by `n` samples at both ends of `axis`, taking the sample at
+/// `source(i, len)` for the i-th sample of the extended axis.
+fn extend_by_index<T, M, N>(
+    x: &OMatrix<T, M, N>,
+    n: usize,
+    axis: usize,
+    source: impl Fn(usize, usize) -> usize,
+) -> OMatrix<T, Dyn, Dyn>
+where
+    T: Scalar + Copy,
+    M: Dim,
+    N: Dim,
+    DefaultAllocator: Allocator<M, N> + Allocator<Dyn, Dyn>,
+{
+    let (rows, cols) = x.shape();
+    if axis == 0 {
+        OMatrix::<T, Dyn, Dyn>::from_fn(rows + 2 * n, cols, |i, j| x[(source(i, rows), j)])
+    } else {
+        OMatrix::<T, Dyn, Dyn>::from_fn(rows, cols + 2 * n, |i, j| x[(i, source(j, cols))])
     }
 }
 
-- 
2.43.0


From f6556728a282ff51130b124ffb0c13e43919b8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:36 +0000
Subject: [PATCH 11/21] fix: add the tile sums to the remainder in
 autocorr_fast32

---
 sci-rs/src/stats.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 06cb0c0..95cc980 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -268,7 +268,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
             .zip(right.remainder().iter())
             .map(|(a, b)| a * b)
             .sum::<f32>();
-        *xi = left
+        *xi += left
             .zip(right)
             .map(|(left, right)| {
                 left.iter()
@@ -276,7 +276,7 @@ pub fn autocorr_fast32<const N: usize, const M: usize, const SKIP: usize>(
                     .map(|(a, b)| a * b)
                     .sum::<f32>()
             })
-            .sum();
+            .sum::<f32>();
     }
 
     var
-- 
2.43.0


From 88410e685170b7b7779695e8d62a8be5cb3821e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:42 +0000
Subject: [PATCH 12/21] fix: stop k-factorial products before the step past n
 overflows

---
 sci-rs/src/special/factorial.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/special/factorial.rs b/sci-rs/src/special/factorial.rs
index 3c4bccc..406a26e 100644
--- a/sci-rs/src/special/factorial.rs
+++ b/sci-rs/src/special/factorial.rs
@@ -278,11 +278,12 @@ where
             .fold(Int::one(), |result, val| result * val);
     }
 
-    let mut result = Int::one();
+    let mut result = start;
 
-    while start <= stop {
-        result = result * start;
+    // Compare distances, the value past `stop` may not be representable
+    while stop - start >= step {
         start = start + step;
+        result = result * start;
     }
     result
 }
-- 
2.43.0


From c9c545418f05825c4d8d84c35416dfafbfb0570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:42 +0000
Subject: [PATCH 13/21] fix: avoid overflowing intermediates in comb, comb_rep
 and perm

---
 sci-rs/src/special/combinatorics.rs | 34 +++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index 68cac5c..f169f33 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -128,21 +128,35 @@ where
     if k > n || n < Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    let m = n + Int::one();
     let n_terms = (min(k, n - k) + Int::one()).to_usize().unwrap();
     (1..n_terms).fold(Int::one(), |result, i| {
-        result * (m - Int::from_usize(i).unwrap()) / Int::from_usize(i).unwrap()
+        let i = Int::from_usize(i).unwrap();
+        // Reduce before multiplying, so that only the binomial coefficients themselves
+        // must be representable
+        let common = gcd(result, i);
+        (result / common) * ((n - (i - Int::one())) / (i / common))
     })
 }
 
+fn gcd<Int>(a: Int, b: Int) -> Int
+where
+    Int: PrimInt,
+{
+    let (mut a, mut b) = (a, b);
+    while !b.is_zero() {
+        (a, b) = (b, a % b);
+    }
+    a
+}
+
 fn primint_comb_rep<Int>(n: Int, k: Int) -> Int
 where
     Int: PrimInt + FromPrimitive,
 {
-    if n + k == Int::zero() {
+    if n <= Int::zero() || k < Int::zero() {
         return Int::zero();
     }
-    primint_comb(n + k - Int::one(), k)
+    primint_comb(n - Int::one() + k, k)
 }
 
 fn primint_perm<Int>(n: Int, k: Int) -> Int
@@ -153,11 +167,13 @@ where
         return Int::zero();
     }
 
-    let start = (n - k + Int::one()).to_usize().unwrap();
-    let end = (n + Int::one()).to_usize().unwrap();
-    (start..end).fold(Int::one(), |result, val| {
-        result * Int::from_usize(val).unwrap()
-    })
+    let mut result = Int::one();
+    let mut val = n;
+    while val > n - k {
+        result = result * val;
+        val = val - Int::one();
+    }
+    result
 }
 
 fn primint_stirling2<Int>(n: Int, k: Int) -> Int
-- 
2.43.0


From 2be2b95dac5caef62794bd7fbe3cd51e180bc9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:39 +0000
Subject: [PATCH 14/21] fix: compute stirling2 without recursion over all
 partitions

---
 sci-rs/src/special/combinatorics.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/sci-rs/src/special/combinatorics.rs b/sci-rs/src/special/combinatorics.rs
index f169f33..70ea95f 100644
--- a/sci-rs/src/special/combinatorics.rs
+++ b/sci-rs/src/special/combinatorics.rs
@@ -195,7 +195,27 @@ where
         return Int::zero();
     }
 
-    k * primint_stirling2(n - Int::one(), k) + primint_stirling2(n - Int::one(), k - Int::one())
+    if k.is_one() {
+        return Int::one();
+    }
+
+    // S(n, k) is the sum of all products of n - k factors out of 1..=k. Extend the factors one at
+    // a time, `sums[d]` holds the sum of the products of d factors. With k >= 2 the result is at
+    // least 2^(n - k).
+    const MAX_FACTORS: usize = u128::BITS as usize;
+    let factors = (n - k)
+        .to_usize()
+        .filter(|&d| d < MAX_FACTORS)
+        .expect("Stirling number is too large");
+    let mut sums = [Int::one(); MAX_FACTORS];
+    let mut factor = Int::one();
+    while factor < k {
+        factor = factor + Int::one();
+        for d in 1..=factors {
+            sums[d] = sums[d] + factor * sums[d - 1];
+        }
+    }
+    sums[factors]
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8afb26614ac7de2e367743cb92c0cf54078a1c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:09 +0000
Subject: [PATCH 15/21] fix: reject out-of-range companion matrix requests
 instead of writing out of bounds

---
 sci-rs/src/linalg/companion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index 1abbd37..cce0d93 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -16,6 +16,7 @@ where
     I: Iterator<Item = B>,
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
+    assert!(m >= 2, "A companion matrix needs at least two coefficients");
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
@@ -29,9 +30,7 @@ where
         <DefaultAllocator as allocator::Allocator<Dyn, Dyn>>::Buffer<T>,
     >::zeros(m - 1, m - 1);
     for (i, t) in itr {
-        unsafe {
-            *m.get_unchecked_mut(i) = t;
-        }
+        m[i] = t;
     }
     m
 }
-- 
2.43.0


From b43c1ef89e565606dab902adc9e2319d42e4b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:43 +0000
Subject: [PATCH 16/21] fix: return the valid part when the second convolution
 input is longer

---
 sci-rs/src/signal/convolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sci-rs/src/signal/convolve.rs b/sci-rs/src/signal/convolve.rs
index b527805..8982d5a 100644
--- a/sci-rs/src/signal/convolve.rs
+++ b/sci-rs/src/signal/convolve.rs
@@ -77,7 +77,7 @@ pub fn fftconvolve<F: Float + FftNum>(in1: &[F], in2: &[F], mode: ConvolveMode)
             if n1 >= n2 {
                 full_convolution[(n2 - 1)..(n1)].to_vec()
             } else {
-                Vec::new()
+                full_convolution[(n1 - 1)..(n2)].to_vec()
             }
         }
         ConvolveMode::Same => {
-- 
2.43.0


From 27418b252ea4bca8412d67292493048d32d1888d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:53 +0000
Subject: [PATCH 17/21] fix: do not allocate the upper bound of the size hint
 in savgol_filter_dyn

---
 sci-rs/src/signal/filter/savgol_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sci-rs/src/signal/filter/savgol_filter.rs b/sci-rs/src/signal/filter/savgol_filter.rs
index b237131..da61cda 100644
--- a/sci-rs/src/signal/filter/savgol_filter.rs
+++ b/sci-rs/src/signal/filter/savgol_filter.rs
@@ -47,8 +47,8 @@ where
     fir.reverse();
 
     // Pad with nearest edge value
-    let size_hint = y.size_hint();
-    let mut data = Vec::with_capacity(size_hint.1.unwrap_or(size_hint.0));
+    // The upper bound of the size hint may be arbitrarily large, only the lower is safe to reserve
+    let mut data = Vec::with_capacity(y.size_hint().0);
     let mut y = y;
     let Some(nearest) = y.next() else {
         return vec![];
-- 
2.43.0


From 262a2a138c435fc16069b15683fb0dff6c620b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:29 +0000
Subject: [PATCH 18/21] fix: select order statistics in linear time and space

The recursive quickselect kept every partition alive and always picked the
worst pivot on V-shaped data, which is what median_abs_deviation produces for
a ramp: 100,000 samples exhausted the memory.
---
 sci-rs/src/stats.rs | 38 ++++++++------------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/sci-rs/src/stats.rs b/sci-rs/src/stats.rs
index 95cc980..9b1f6db 100644
--- a/sci-rs/src/stats.rs
+++ b/sci-rs/src/stats.rs
@@ -5,42 +5,20 @@ use num_traits::{Float, Num, NumCast, Signed};
 #[cfg(feature = "alloc")]
 use alloc::vec::Vec;
 
-// Quick select finds the `i`th smallest element with 2N comparisons
+// Quick select finds the `i`th smallest element in linear time, NaNs are ordered last
 #[cfg(feature = "alloc")]
 fn quickselect<B, T>(y: &[B], k: usize) -> T
 where
     B: Borrow<T>,
     T: Num + NumCast + PartialOrd + Copy,
 {
-    use num_traits::{Num, NumCast};
-
-    let n = y.len();
-    if n == 1 {
-        return *y[0].borrow();
-    }
-
-    let pivot = y.get(n / 2).unwrap().borrow();
-    let lower = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() < *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let lowers = lower.len();
-    let upper = y
-        .iter()
-        .filter(|yi| *(*yi).borrow() > *pivot)
-        .map(|yi| *yi.borrow())
-        .collect::<Vec<_>>();
-    let uppers = upper.len();
-    let pivots = n - lowers - uppers;
-
-    if k < lowers {
-        quickselect(&lower, k)
-    } else if k < lowers + pivots {
-        *pivot
-    } else {
-        quickselect(&upper, k - lowers - pivots)
-    }
+    let mut y = y.iter().map(|yi| *yi.borrow()).collect::<Vec<T>>();
+    let is_nan = |t: &T| t.partial_cmp(t).is_none();
+    let (_, kth, _) = y.select_nth_unstable_by(k, |a, b| {
+        a.partial_cmp(b)
+            .unwrap_or_else(|| is_nan(a).cmp(&is_nan(b)))
+    });
+    *kth
 }
 
 ///
-- 
2.43.0


From 75ac00fe2e05f43d75675b0e6cf3790393ea592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:19 +0000
Subject: [PATCH 19/21] fix: reject companion matrices whose element count
 overflows

---
 sci-rs/src/linalg/companion.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sci-rs/src/linalg/companion.rs b/sci-rs/src/linalg/companion.rs
index cce0d93..7a4baa4 100644
--- a/sci-rs/src/linalg/companion.rs
+++ b/sci-rs/src/linalg/companion.rs
@@ -17,6 +17,10 @@ where
     DefaultAllocator: Allocator<Dyn, Dyn>,
 {
     assert!(m >= 2, "A companion matrix needs at least two coefficients");
+    assert!(
+        (m - 1).checked_mul(m - 1).is_some(),
+        "The companion matrix is too large"
+    );
     let mut itr = itr;
     let a0: T = *itr.next().expect("Invalid data length").borrow();
     let itr = itr
-- 
2.43.0


From a70960300bd8abb7121cc221317a733e015ef2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:16 +0000
Subject: [PATCH 20/21] fix: plot series with non-finite samples

---
 sci-rs/src/plot.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sci-rs/src/plot.rs b/sci-rs/src/plot.rs
index 02ff7e7..3a08e64 100644
--- a/sci-rs/src/plot.rs
+++ b/sci-rs/src/plot.rs
@@ -12,6 +12,7 @@ pub fn python_plot(xs: Vec<&[f32]>) {
         r#"
 import matplotlib.pyplot as plt
 import matplotlib.gridspec as gridspec
+from math import inf, nan as NaN
 from scipy.signal import correlate
 
 xs = {:?}
-- 
2.43.0


From d59294e6e89cb36f43760e8a1ffe9f8e316724c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:16 +0000
Subject: [PATCH 21/21] fix: wait for the plotting process when it closes its
 input early

---
 sci-rs/src/plot.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sci-rs/src/plot.rs b/sci-rs/src/plot.rs
index 3a08e64..121d371 100644
--- a/sci-rs/src/plot.rs
+++ b/sci-rs/src/plot.rs
@@ -47,11 +47,8 @@ plt.show()
     };
 
     if let Some(mut stdin) = python.stdin.take() {
-        if stdin.write_all(script).is_err() {
-            return; // Return early if writing fails
-        }
-    } else {
-        return; // Return early if we can't get stdin
+        // The process may stop reading early, it still has to be waited for
+        let _ = stdin.write_all(script);
     }
 
     // Wait for the python process to finish, ignoring any errors
-- 
2.43.0


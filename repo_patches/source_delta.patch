From 46974b791107e4a69c8263c0b389501ec053d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 01/19] fix: AtomicRefCell::borrow must not touch the state of
 a mutably borrowed cell

The unconditional fetch_add moved the state of a mutably borrowed cell from 0
to 1 (free) and left it there after panicking, so a caught panic or a second
thread could then take a second mutable borrow.
---
 parasol_concurrency/src/lib.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..7de004f 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -73,14 +73,18 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        // Only move the state once we know the borrow is allowed. Unconditionally incrementing
+        // would turn a mutably borrowed cell's state (0) into the free state (1).
+        if let Err(old) = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |old| {
+                (old != 0 && old < usize::MAX / 2).then_some(old + 1)
+            })
+        {
+            if old == 0 {
+                panic!("AtomicRefCell already borrowed as mut");
+            }
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
             panic!("AtomicRefCell says I think you have enough references, buddy.");
         }
 
-- 
2.43.0


From 1c3ec71f3c6dafa96606e5cf69a58810bb296af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 02/19] fix: require Send/Sync of the protected value in the
 concurrency primitives' markers

Sharing an AtomicRefCell or Spinlock hands the value to other threads, and
sharing a SpinlockHandle shares it, so safe code could race on or move
non-thread-safe values.
---
 parasol_concurrency/src/lib.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index 7de004f..c7e6c5e 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -57,7 +57,8 @@ where
     }
 }
 
-unsafe impl<T> Sync for AtomicRefCell<T> where T: Sync {}
+// Borrowing mutably through a shared reference lets another thread move the `T` out, hence `Send`.
+unsafe impl<T> Sync for AtomicRefCell<T> where T: Send + Sync {}
 
 impl<T> AtomicRefCell<T> {
     /// Create a new [`AtomicRefCell`] wrapping the given `val`.
@@ -174,8 +175,9 @@ pub struct Spinlock<T> {
     val: UnsafeCell<T>,
 }
 
-unsafe impl<T> Sync for Spinlock<T> {}
-unsafe impl<T> Send for Spinlock<T> {}
+// As with [`Mutex`](std::sync::Mutex), sharing the lock moves access to the `T` between threads.
+unsafe impl<T> Sync for Spinlock<T> where T: Send {}
+unsafe impl<T> Send for Spinlock<T> where T: Send {}
 
 impl<T> Spinlock<T> {
     /// Create a new [`Spinlock`].
@@ -229,6 +231,9 @@ pub struct SpinlockHandle<'a, T> {
     lock: &'a Spinlock<T>,
 }
 
+// Sharing a handle shares the `T`; the automatic implementation would only require `T: Send`.
+unsafe impl<T> Sync for SpinlockHandle<'_, T> where T: Sync {}
+
 impl<T> SpinlockHandle<'_, T> {
     /// Drop this handle, keeping the spinlock locked.
     pub fn keep_locked(self) {
-- 
2.43.0


From d21eb6e9349dc80cbf9916c216df4cf06016b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 03/19] fix: encrypt_glwe_ciphertext_secret_generic must
 overwrite the body of the output ciphertext

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..e4cbe9d 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -41,8 +41,8 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
         polynomial_external_mad(&mut tmp, a_i, s_i);
     }
 
-    // b = A * S
-    polynomial_add_assign(b, &tmp);
+    // b = A * S. Overwrite whatever `c` previously contained.
+    b.clone_from_ref(&tmp);
 
     // b = A * S + m
     polynomial_add_assign(b, msg);
-- 
2.43.0


From b872009c045cacc5f5a04ab9244d0e0345eac1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:40 +0000
Subject: [PATCH 04/19] fix: encrypt_rlev_ciphertext must not print the message
 to stderr

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From 9d080bfa195a81cf90b4445d222da6d1e9224629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 05/19] fix: private_functional_keyswitch must not accumulate
 into the prior contents of its output

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..5f5abfe 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,9 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    // We accumulate into output below.
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From e625fa42ff154b3f8fc0db2592435440068d805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 06/19] fix: Polynomial equality must compare the leading
 coefficient

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From c81e03afa6eaec2b5aa8a3e58ae85b055adebf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:02 +0000
Subject: [PATCH 07/19] fix: u64 vector_sub/vector_mod dispatch: subtract in
 the fallback, require FMA, wrap like the scalar version

---
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 4 ++--
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs  | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..6b9e92f 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -40,7 +40,7 @@ pub fn complex_untwist<T: Float>(output: &mut [T], ifft: &[Complex<T>], twist_in
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a + b;
+        *c = a.wrapping_add(b);
     }
 }
 
@@ -48,7 +48,7 @@ pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_sub_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a - b;
+        *c = a.wrapping_sub(b);
     }
 }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..1646c0e 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -147,16 +147,16 @@ impl VectorOps for u64 {
     }
 
     fn vector_sub(c: &mut [Self], a: &[Self], b: &[Self]) {
-        if avx2_available() {
+        if fma_available() && avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
     #[inline(always)]
     fn vector_mod_pow2_q_f64(c: &mut [Self], a: &[f64], log2_q: u64) {
-        if avx2_available() {
+        if fma_available() && avx2_available() {
             unsafe { avx2::vector_mod_pow2_q_f64_u64(c, a, log2_q) }
         } else {
             scalar::vector_mod_pow2_q_f64(c, a, log2_q);
-- 
2.43.0


From 542ab8449197fd4c48a4ef3e4827994d33ff2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 08/19] fix: AVX512 vector_scalar_mad is only used with
 AVX512DQ and checks lengths and alignment

---
 sunscreen_tfhe/src/math/simd/x86_64/avx512.rs | 16 ++++++++++++-
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs    | 23 ++++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
index ee80f84..8db2f92 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
@@ -1,4 +1,4 @@
-use std::arch::asm;
+use std::arch::{asm, x86_64::__m512d};
 
 use num::Complex;
 
@@ -78,7 +78,21 @@ pub unsafe fn complex_mad_avx_512_unchecked(
     }
 }
 
+/// Compute vector `c += a * s` over `&[u64]`.
+///
+/// # Remarks
+/// The CPU must support AVX512F and AVX512DQ.
+///
+/// # Panics
+/// If `c.len() != a.len()`
+/// If `c.len() % 16 != 0`
+/// If `a`, `c` are not aligned to a 512-bit boundary.
 pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
+    assert_eq!(c.as_ptr().align_offset(core::mem::align_of::<__m512d>()), 0);
+    assert_eq!(a.as_ptr().align_offset(core::mem::align_of::<__m512d>()), 0);
+    assert_eq!(c.len(), a.len());
+    assert_eq!(c.len() % 16, 0);
+
     let mut i = 0;
 
     // Complex<T> is declared as repr(C), so the location of re and im are guaranteed
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index 1646c0e..8713c9f 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -50,6 +50,19 @@ fn fma_available() -> bool {
     })
 }
 
+#[inline(always)]
+fn avx_512dq_available() -> bool {
+    static AVX512DQ_AVAILABLE: OnceLock<bool> = OnceLock::new();
+
+    *AVX512DQ_AVAILABLE.get_or_init(|| {
+        if let Some(e) = CpuId::new().get_extended_feature_info() {
+            e.has_avx512dq()
+        } else {
+            false
+        }
+    })
+}
+
 /// Compute vector `c += a * b` over &[Complex<f64>].
 ///
 /// # Panics
@@ -174,7 +187,15 @@ impl VectorOps for u64 {
 
     #[inline(always)]
     fn vector_scalar_mad(c: &mut [Self], a: &[Self], s: Self) {
-        if avx_512_available() {
+        // The AVX512 version needs AVX512DQ for its 64-bit multiply and processes 16
+        // elements per iteration through aligned loads and stores.
+        if avx_512_available()
+            && avx_512dq_available()
+            && a.len() == c.len()
+            && c.len() % 16 == 0
+            && a.as_ptr().align_offset(core::mem::align_of::<__m512d>()) == 0
+            && c.as_ptr().align_offset(core::mem::align_of::<__m512d>()) == 0
+        {
             avx512::vector_scalar_mad(c, a, s);
         } else {
             scalar::vector_scalar_mad(c, a, s);
-- 
2.43.0


From 2a2fc1f498b2ee1a71f6e119add8896d3770e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 09/19] fix: scheme_switch_fft must overwrite its output

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..c567828 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -264,6 +264,10 @@ fn scheme_switch_glwe_operation<S>(
 
     let a_i = x_i.a(params);
 
+    // The products below accumulate into the output, so it must not carry over
+    // whatever it held before.
+    y_i_j.clear();
+
     // Generate encrypted secret key component for this specific GLWE
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
-- 
2.43.0


From 5df5541866ac3e1697e2b95ce6198d405bd55b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 10/19] fix: public_functional_keyswitch must zero the map's
 output polynomial before each call

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From 5003af59fce13c023ed9bb70797881dd396c726f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 11/19] fix: Torus::decode mask must be computed in the torus
 type

---
 sunscreen_tfhe/src/math/torus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..ae61a26 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,7 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let mask = S::from(0x1).wrapping_shl(plain_bits.0) - S::from(0x1);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From 239fc5423c290a50b92705f1bc1ecef793e58b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 12/19] fix: div_rounded must not round up below half of an odd
 divisor

---
 sunscreen_tfhe/src/math/basic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..5c1b1b6 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -16,7 +16,7 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+                if r >= divisor - r { q + 1 } else { q }
             }
         }
     };
-- 
2.43.0


From d547fb1f3dac324df12dc3cce439fab654ad7e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:57 +0000
Subject: [PATCH 13/19] fix: remaining length of the immutable entity iterators
 must not count consumed items

---
 sunscreen_tfhe/src/dst.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..303e8f6 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,8 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    // Only count the items not yet produced from either end.
+                    (self.back_idx - self.front_idx as i64 + self.stride as i64) as usize / self.stride
                 }
             }
 
-- 
2.43.0


From d96e7b3fda88942d2e174e75f8ee14d244800f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:31 +0000
Subject: [PATCH 14/19] fix: polynomial division panics on a zero or non-monic
 divisor, as documented

---
 sunscreen_math/src/poly/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..bf85235 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,20 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert!(
+            rhs.coeffs[rhs_degree] == R::one(),
+            "The divisor's leading non-zero coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From e40bb30f167335ea0355c1814e24c7db14568348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 15/19] fix: validating a deserialized integer checks its
 number of bits

---
 parasol_runtime/src/fluent/generic_int.rs        | 8 ++++++++
 parasol_runtime/src/fluent/packed_generic_int.rs | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index 4951016..fd6215e 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -87,6 +87,10 @@ impl<const N: usize, T: CiphertextOps, U: Sign> GetSize for GenericInt<N, T, U>
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.inner.bits.len() != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         for b in &self.inner.bits {
             b.borrow().check_is_valid(params)?;
         }
@@ -205,6 +209,10 @@ impl<T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSize
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.bit_len as usize > T::poly_degree(params).0 {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         self.ct.borrow().check_is_valid(params)
     }
 }
diff --git a/parasol_runtime/src/fluent/packed_generic_int.rs b/parasol_runtime/src/fluent/packed_generic_int.rs
index 93ac28a..e885530 100644
--- a/parasol_runtime/src/fluent/packed_generic_int.rs
+++ b/parasol_runtime/src/fluent/packed_generic_int.rs
@@ -93,7 +93,11 @@ impl<const N: usize, T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSiz
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
-        self.inner.ct.borrow().check_is_valid(params)
+        if self.inner.bit_len as usize != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
+        self.inner.check_is_valid(params)
     }
 }
 
-- 
2.43.0


From 22ba47278b982bd94be01d3a4f4a6f4919477452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 16/19] fix: integers packed into every coefficient can be
 encrypted and decrypted, as pack and unpack allow

---
 parasol_runtime/src/fluent/generic_int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index fd6215e..dd528f6 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -237,7 +237,7 @@ where
     }
 
     fn encode(val: U::PlaintextType, enc: &Encryption, n: usize) -> Polynomial<u64> {
-        assert!(n < T::poly_degree(&enc.params).0);
+        assert!(n <= T::poly_degree(&enc.params).0);
 
         let coeffs = val
             .to_bits(n)
@@ -253,7 +253,7 @@ where
     pub fn decrypt(&self, enc: &Encryption, sk: &SecretKey) -> U::PlaintextType {
         let n = self.bit_len as usize;
 
-        assert!(n < T::poly_degree(&enc.params).0);
+        assert!(n <= T::poly_degree(&enc.params).0);
 
         let poly = <T as PolynomialCiphertextOps>::decrypt(&self.ct.borrow(), enc, sk);
 
-- 
2.43.0


From 9bf8a491534b8a4445f098491d7a8d445df6bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:43 +0000
Subject: [PATCH 17/19] fix: the last decrement of a task's dependencies and of
 a circuit's operations acquires what the others released

---
 parasol_runtime/src/circuit_processor/completion_handler.rs | 2 +-
 parasol_runtime/src/circuit_processor/mod.rs                | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parasol_runtime/src/circuit_processor/completion_handler.rs b/parasol_runtime/src/circuit_processor/completion_handler.rs
index 9c4bc5e..1055383 100644
--- a/parasol_runtime/src/circuit_processor/completion_handler.rs
+++ b/parasol_runtime/src/circuit_processor/completion_handler.rs
@@ -35,7 +35,7 @@ impl CompletionHandler {
     }
 
     pub(crate) fn retire(&self) {
-        if self.ops_remaining.fetch_sub(1, Ordering::Release) == 1 {
+        if self.ops_remaining.fetch_sub(1, Ordering::AcqRel) == 1 {
             (self.callback)(self.error.get().map(|x| x.to_owned()));
         }
     }
diff --git a/parasol_runtime/src/circuit_processor/mod.rs b/parasol_runtime/src/circuit_processor/mod.rs
index 3507309..1eaa4f2 100644
--- a/parasol_runtime/src/circuit_processor/mod.rs
+++ b/parasol_runtime/src/circuit_processor/mod.rs
@@ -177,7 +177,7 @@ impl CircuitProcessor {
             }
         }
 
-        if new_task.num_deps.fetch_sub(1, Ordering::Release) == 1 {
+        if new_task.num_deps.fetch_sub(1, Ordering::AcqRel) == 1 {
             Self::execute_task(&Arc::new(self.clone()), new_task.clone(), parent_op);
         } else {
             trace!(
@@ -238,7 +238,7 @@ impl CircuitProcessor {
             // Notify our dependents that we've finished, which means our output buffer is
             // available for use.
             while let Some(dep) = deps.pop() {
-                if dep.num_deps.fetch_sub(1, Ordering::Release) == 1 {
+                if dep.num_deps.fetch_sub(1, Ordering::AcqRel) == 1 {
                     Self::execute_task(&uproc_clone, dep, completion_handler.clone());
                 }
             }
-- 
2.43.0


From d53b82c04e6df1cde629a5514dfaff4553cf793f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 18/19] fix: plaintext shifts keep the result within the
 register width

shra set the bit above the register when shifting in ones and shl kept
the bits shifted out of the register, so later comparisons, right shifts
and extensions of the result saw bits the encrypted shifts drop.
---
 parasol_cpu/src/proc/ops/bitshift.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..cf2c612 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -24,7 +24,7 @@ fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) ->
     if (0x1 << (width - 1)) & val == 0 {
         right
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
+        let signs = ((0x1 << shift) - 1) << (width as u128 - shift);
         signs | right
     }
 }
@@ -267,7 +267,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            |val, shift, width| (val << shift) & ((0x1 << width) - 1),
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
-- 
2.43.0


From 4afd4368ebf7a90314cb444b2e95337a79e7f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:41 +0000
Subject: [PATCH 19/19] fix: scratch views cover only the requested elements

---
 sunscreen_tfhe/src/scratch.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/sunscreen_tfhe/src/scratch.rs b/sunscreen_tfhe/src/scratch.rs
index e280dcf..26d33fc 100644
--- a/sunscreen_tfhe/src/scratch.rs
+++ b/sunscreen_tfhe/src/scratch.rs
@@ -129,7 +129,9 @@ impl Scratch {
         assert_ne!(size_of::<T>(), 0);
 
         let alignment = usize::max(SIMD_ALIGN, align_of::<T>());
-        let u8_len = count * size_of::<T>();
+        let u8_len = count
+            .checked_mul(size_of::<T>())
+            .expect("Scratch allocation is too large.");
 
         let allocation = unsafe {
             let allocation = self.stack.borrow_mut().pop_back();
@@ -195,19 +197,22 @@ impl<T> ScratchBuffer<'_, T> {
     #[allow(unused)]
     /// Get a slice to the underlying data.
     pub fn as_slice(&self) -> &[T] {
-        let slice =
-            unsafe { std::mem::transmute::<&[u8], &[T]>((*self.allocation).data.as_slice()) };
+        // The allocation holds at least `requested_len` properly aligned `T`s.
+        unsafe {
+            let data = (*self.allocation).data.as_ptr();
 
-        &slice[0..self.requested_len]
+            std::slice::from_raw_parts(data.cast::<T>(), self.requested_len)
+        }
     }
 
     /// Get a mutable slice to the underlying data.
     pub fn as_mut_slice(&mut self) -> &mut [T] {
-        let slice = unsafe {
-            std::mem::transmute::<&mut [u8], &mut [T]>((*self.allocation).data.as_mut_slice())
-        };
+        // The allocation holds at least `requested_len` properly aligned `T`s.
+        unsafe {
+            let data = (*self.allocation).data.as_mut_ptr();
 
-        &mut slice[0..self.requested_len]
+            std::slice::from_raw_parts_mut(data.cast::<T>(), self.requested_len)
+        }
     }
 }
 
-- 
2.43.0


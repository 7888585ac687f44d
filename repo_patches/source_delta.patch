From d53b9f2168d3aac4eca567c3a620b9b45fe92c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 01/13] fix: include the last partial chunk in the Barrett dot
 product

The vectors were cut with chunks_exact(16), which drops the remaining
len % 16 elements, so every length that is no multiple of 16 gave a wrong
result.
---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From 495f0382dfb3a38b898293ed025b3d618b38b319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 02/13] fix: reduce the Goldilocks prime itself to zero

---
 algebra/src/modulus/goldilocks/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..90aec63 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -13,7 +13,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
-- 
2.43.0


From b24d012746a354cb4e6035c964727b0c0b4b8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 03/13] fix: accept non-canonical Goldilocks operands in neg,
 exp and inverse

add, sub and mul may return representatives in [P, 2^64); feeding one to
neg_reduce underflowed, exp_reduce asserted, and the inverse of P (zero)
was reported as Some(0).
---
 algebra/src/modulus/goldilocks/mod.rs | 2 +-
 algebra/src/modulus/goldilocks/ops.rs | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 90aec63..4e9d320 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -6,7 +6,7 @@ use num_traits::PrimInt;
 
 use crate::{reduce::*, Bits};
 
-use super::{reduce128, try_inverse, GoldilocksModulus, EPSILON, P};
+use super::{reduce128, to_canonical_u64, try_inverse, GoldilocksModulus, EPSILON, P};
 
 impl Reduce<GoldilocksModulus> for u64 {
     type Output = Self;
@@ -77,10 +77,11 @@ impl NegReduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn neg_reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self == 0 {
+        let value = to_canonical_u64(self);
+        if value == 0 {
             0
         } else {
-            P - self
+            P - value
         }
     }
 }
@@ -117,8 +118,6 @@ where
             return 1;
         }
 
-        debug_assert!(self < P);
-
         let mut power: Self = self;
 
         let exp_trailing_zeros = exp.trailing_zeros();
-- 
2.43.0


From b96472a2593d28e8d04fe937d843287814e79974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 04/13] fix: run all Miller-Rabin rounds in probably_prime

Reaching -1 in the squaring loop left the outer loop, so one passing round
accepted the number and strong pseudoprimes to base 2 such as 49141 and
65281 counted as primes.
---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From 8aa7b58e3dab6bffe10ff95548f653c3bed033c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 05/13] fix: let decompose_at overwrite the whole destination

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From 67d9ac571076da11711b2ffe57ad699b55db8ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 06/13] fix: report NTT table sizes that do not fit instead of
 panicking

---
 algebra_derive/src/ntt.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..38860e0 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -45,7 +45,7 @@ fn impl_ntt(input: Input) -> TokenStream {
     let to_root = impl_to_root(modulus_value, &modulus);
     let mul_root = impl_mul_root(modulus_value, &modulus);
     let mul_root_assign = impl_mul_root_assign(modulus_value, &modulus);
-    let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table);
+    let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table, &modulus);
 
     quote! {
         static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
@@ -324,7 +324,11 @@ fn impl_mul_root_assign(modulus_value: ModulusValue, modulus: &TokenStream) -> T
 }
 
 #[allow(unused_variables)]
-fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) -> TokenStream {
+fn impl_generate_ntt_table(
+    modulus_value: ModulusValue,
+    table: &TokenStream,
+    modulus: &TokenStream,
+) -> TokenStream {
     #[cfg(feature = "concrete-ntt")]
     match modulus_value {
         ModulusValue::U32(_) | ModulusValue::U64(_) => {
@@ -338,11 +342,19 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
         ModulusValue::U8(_) | ModulusValue::U16(_) => {
             quote! {
                 fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+                    // a degree that does not fit cannot divide `modulus - 1`
+                    let degree = 1usize
+                        .checked_shl(log_n.saturating_add(1))
+                        .and_then(|degree| degree.try_into().ok())
+                        .ok_or_else(|| ::algebra::AlgebraError::NoPrimitiveRoot {
+                            degree: format!("2^{}", log_n.saturating_add(1)),
+                            modulus: #modulus.to_string(),
+                        })?;
                     let n = 1usize << log_n;
 
                     let root_one = Self(1).to_root();
 
-                    let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+                    let root = Self::try_minimal_primitive_root(degree)?;
 
                     let root_factor = root.to_root();
                     let mut power = root;
@@ -369,11 +381,19 @@ fn impl_generate_ntt_table(modulus_value: ModulusValue, table: &TokenStream) ->
     #[cfg(not(feature = "concrete-ntt"))]
     quote! {
         fn generate_ntt_table(log_n: u32) -> Result<Self::Table, ::algebra::AlgebraError> {
+            // a degree that does not fit cannot divide `modulus - 1`
+            let degree = 1usize
+                .checked_shl(log_n.saturating_add(1))
+                .and_then(|degree| degree.try_into().ok())
+                .ok_or_else(|| ::algebra::AlgebraError::NoPrimitiveRoot {
+                    degree: format!("2^{}", log_n.saturating_add(1)),
+                    modulus: #modulus.to_string(),
+                })?;
             let n = 1usize << log_n;
 
             let root_one = Self(1).to_root();
 
-            let root = Self::try_minimal_primitive_root((n * 2).try_into().unwrap())?;
+            let root = Self::try_minimal_primitive_root(degree)?;
 
             let root_factor = root.to_root();
             let mut power = root;
-- 
2.43.0


From 1a2aafbe2baa6a58693573a899bef956309621f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 07/13] fix: guard the cache of NTT tables with a read-write
 lock

---
 algebra_derive/src/ntt.rs | 54 +++++++++++----------------------------
 1 file changed, 15 insertions(+), 39 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 38860e0..a7ba92c 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -39,7 +39,6 @@ fn impl_ntt(input: Input) -> TokenStream {
     let root = quote! {::algebra::modulus::ShoupFactor<<Self as ::algebra::Field>::Value>};
 
     let ntt_table = format_ident!("NTT_TABLE{}", name.to_string().to_uppercase());
-    let ntt_mutex = format_ident!("NTT_MUTEX{}", name.to_string().to_uppercase());
 
     let from_root = impl_from_root(modulus_value);
     let to_root = impl_to_root(modulus_value, &modulus);
@@ -48,9 +47,8 @@ fn impl_ntt(input: Input) -> TokenStream {
     let generate_ntt_table = impl_generate_ntt_table(modulus_value, &table, &modulus);
 
     quote! {
-        static mut #ntt_table: ::once_cell::sync::OnceCell<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>
-            = ::once_cell::sync::OnceCell::new();
-        static #ntt_mutex: ::std::sync::Mutex<()> = ::std::sync::Mutex::new(());
+        static #ntt_table: ::once_cell::sync::Lazy<::std::sync::RwLock<::std::collections::HashMap<u32, ::std::sync::Arc<<#name as ::algebra::NTTField>::Table>>>>
+            = ::once_cell::sync::Lazy::new(::std::default::Default::default);
 
         impl ::std::convert::From<usize> for #name {
             #[inline]
@@ -147,49 +145,27 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
-                    if let Some(t) = tables.get(&log_n) {
-                        return Ok(::std::sync::Arc::clone(t));
-                    }
+                if let Some(t) = #ntt_table.read().unwrap().get(&log_n) {
+                    return Ok(::std::sync::Arc::clone(t));
                 }
 
                 Self::init_ntt_table(&[log_n])?;
-                Ok(::std::sync::Arc::clone(unsafe {
-                    #ntt_table.get().unwrap().get(&log_n).unwrap()
-                }))
+                Ok(::std::sync::Arc::clone(
+                    #ntt_table.read().unwrap().get(&log_n).unwrap()
+                ))
             }
 
             fn init_ntt_table(log_ns: &[u32]) -> Result<(), ::algebra::AlgebraError> {
-                let _g = #ntt_mutex.lock().unwrap();
-                match unsafe { #ntt_table.get_mut() } {
-                    Some(tables) => {
-                        let new_log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let old_log_ns: ::std::collections::HashSet<u32> = tables.keys().copied().collect();
-                        let difference = new_log_ns.difference(&old_log_ns);
-
-                        for &log_n in difference {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            tables.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        Ok(())
-                    }
-                    None => {
-                        let log_ns: ::std::collections::HashSet<u32> = log_ns.iter().copied().collect();
-                        let mut map = ::std::collections::HashMap::with_capacity(log_ns.len());
-
-                        for log_n in log_ns {
-                            let temp_table = Self::generate_ntt_table(log_n)?;
-                            map.insert(log_n, ::std::sync::Arc::new(temp_table));
-                        }
-
-                        if unsafe { #ntt_table.set(map).is_err() } {
-                            Err(::algebra::AlgebraError::NTTTableError)
-                        } else {
-                            Ok(())
-                        }
+                let mut tables = #ntt_table.write().unwrap();
+
+                for &log_n in log_ns {
+                    if !tables.contains_key(&log_n) {
+                        let temp_table = Self::generate_ntt_table(log_n)?;
+                        tables.insert(log_n, ::std::sync::Arc::new(temp_table));
                     }
                 }
+
+                Ok(())
             }
         }
     }
-- 
2.43.0


From c37d243c0ee082a093f7a4298199f9f02e2d1fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 08/13] fix: let Gaussian samplers with standard deviation 0
 terminate

---
 algebra/src/random.rs       | 2 +-
 lattice/src/utils/sample.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index 80b4634..df7e77d 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -204,7 +204,7 @@ impl<F: Field> Distribution<F> for FieldDiscreteGaussianSampler {
         let gaussian = self.gaussian();
         loop {
             let value = gaussian.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return F::new(F::MODULUS_VALUE - (-round).as_into());
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index 6b891bc..b02c1f8 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -140,7 +140,7 @@ where
         let mean = self.normal.mean();
         loop {
             let value = self.normal.sample(rng);
-            if (value - mean).abs() < self.max_std_dev {
+            if (value - mean).abs() <= self.max_std_dev {
                 let round = value.round();
                 if round < 0. {
                     return self.modulus - T::as_from(-round);
-- 
2.43.0


From a028b87f51261c0c547edc92deada517a30ffbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:47 +0000
Subject: [PATCH 09/13] fix: refuse Gaussian parameters that make sampling loop
 forever

---
 algebra/src/random.rs       | 4 ++--
 lattice/src/utils/sample.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebra/src/random.rs b/algebra/src/random.rs
index df7e77d..8a1aea3 100644
--- a/algebra/src/random.rs
+++ b/algebra/src/random.rs
@@ -127,7 +127,7 @@ impl FieldDiscreteGaussianSampler {
     #[inline]
     pub fn new(mean: f64, std_dev: f64) -> Result<FieldDiscreteGaussianSampler, AlgebraError> {
         let max_std_dev = std_dev * 6.0;
-        if std_dev < 0. {
+        if std_dev < 0. || !mean.is_finite() {
             return Err(AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
@@ -153,7 +153,7 @@ impl FieldDiscreteGaussianSampler {
         std_dev: f64,
         max_std_dev: f64,
     ) -> Result<FieldDiscreteGaussianSampler, AlgebraError> {
-        if max_std_dev <= std_dev || std_dev < 0. {
+        if max_std_dev.is_nan() || max_std_dev <= std_dev || std_dev < 0. || !mean.is_finite() {
             return Err(AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
diff --git a/lattice/src/utils/sample.rs b/lattice/src/utils/sample.rs
index b02c1f8..76e5d3e 100644
--- a/lattice/src/utils/sample.rs
+++ b/lattice/src/utils/sample.rs
@@ -74,7 +74,7 @@ impl<T: Copy> DiscreteGaussian<T> {
         std_dev: f64,
     ) -> Result<DiscreteGaussian<T>, algebra::AlgebraError> {
         let max_std_dev = std_dev * 6.0;
-        if std_dev < 0. {
+        if std_dev < 0. || !mean.is_finite() {
             return Err(algebra::AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
@@ -100,7 +100,7 @@ impl<T: Copy> DiscreteGaussian<T> {
         std_dev: f64,
         max_std_dev: f64,
     ) -> Result<DiscreteGaussian<T>, algebra::AlgebraError> {
-        if max_std_dev <= std_dev || std_dev < 0. {
+        if max_std_dev.is_nan() || max_std_dev <= std_dev || std_dev < 0. || !mean.is_finite() {
             return Err(algebra::AlgebraError::DistributionError);
         }
         match Normal::new(mean, std_dev) {
-- 
2.43.0


From a7a24df33545dd36f19e0ad7349bdbe6246d9106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 10/13] fix: stop computing a basis power that no gadget row
 uses

Generating a gadget encryption of one or of the negated key multiplied the
last basis power by the basis once more, which overflows the word (a panic
with overflow checks) whenever basis^rows does not fit in it.
---
 lattice/src/gadget/rlwe.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lattice/src/gadget/rlwe.rs b/lattice/src/gadget/rlwe.rs
index 0ab7562..e55ea63 100644
--- a/lattice/src/gadget/rlwe.rs
+++ b/lattice/src/gadget/rlwe.rs
@@ -182,13 +182,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.b_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.b_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 
@@ -206,13 +210,17 @@ impl<F: NTTField> GadgetRLWE<F> {
         let basis_value = basis.basis();
         let mut basis_power = F::one();
         let mut data = Vec::with_capacity(len);
-        for _ in 0..len {
+        for _ in 0..(len - 1) {
             let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
             r.a_mut_slice()[0] += basis_power;
             data.push(r);
             basis_power = F::lazy_new(basis_power.value() * basis_value);
         }
 
+        let mut r = <RLWE<F>>::generate_random_zero_sample(secret_key, error_sampler, rng);
+        r.a_mut_slice()[0] += basis_power;
+        data.push(r);
+
         Self { data, basis }
     }
 }
-- 
2.43.0


From 651be6204fee59d87d2bf045f65736808831e991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 11/13] fix: decode values when the plaintext modulus equals
 the ciphertext modulus

---
 fhe_core/src/plaintext.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fhe_core/src/plaintext.rs b/fhe_core/src/plaintext.rs
index 3378f94..05f4f3d 100644
--- a/fhe_core/src/plaintext.rs
+++ b/fhe_core/src/plaintext.rs
@@ -112,8 +112,14 @@ where
     // Move the message to the least significant part of `C`.
     // Leave one more bit for round.
     let cipher: u64 = cipher.as_into();
-    let temp = cipher >> ((q / t).trailing_zeros() - 1);
-    let decoded = ((temp >> 1u32) + (temp & 1)) & (t - 1);
+    let decoded = match (q / t).trailing_zeros().checked_sub(1) {
+        Some(shift) => {
+            let temp = cipher >> shift;
+            ((temp >> 1u32) + (temp & 1)) & (t - 1)
+        }
+        // `t` equals `q`, the value is the message itself.
+        None => cipher & (t - 1),
+    };
 
     M::shrink(decoded)
 }
-- 
2.43.0


From e3bfda6823b39439f93a89db783b54f0b6c928af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:53 +0000
Subject: [PATCH 12/13] fix: NTTTable::new refuses root powers of the wrong
 length

The monomial transforms read ordinal_root_powers with get_unchecked at
indices below 2 * coeff_count; a shorter vector handed to this safe
constructor made them read out of bounds.
---
 algebra/src/transformation/ntt_table.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..562c6e0 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -48,6 +48,10 @@ where
     F: NTTField<Table = Self>,
 {
     /// Creates a new [`NTTTable<F>`].
+    ///
+    /// # Panics
+    ///
+    /// Panics if `ordinal_root_powers` does not hold `2 * coeff_count` powers.
     #[inline]
     pub fn new(
         root: F,
@@ -56,6 +60,9 @@ where
     ) -> Self {
         let coeff_count = 1usize << coeff_count_power;
 
+        // the monomial transforms index `ordinal_root_powers` unchecked
+        assert_eq!(ordinal_root_powers.len(), coeff_count * 2);
+
         let inv_root = F::from_root(*ordinal_root_powers.last().unwrap());
 
         debug_assert_eq!(root * inv_root, F::one());
-- 
2.43.0


From 06c70f940396e947ba4717371f45cf486bb94d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 13/13] fix: compute widening products instead of calling
 itself with the feature nightly

---
 .../src/primitive/widening/widening_mul.rs    | 24 ++++---------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/algebra/src/primitive/widening/widening_mul.rs b/algebra/src/primitive/widening/widening_mul.rs
index 866210a..1a64b04 100644
--- a/algebra/src/primitive/widening/widening_mul.rs
+++ b/algebra/src/primitive/widening/widening_mul.rs
@@ -17,30 +17,14 @@ macro_rules! uint_widening_mul_impl {
         impl WideningMul for $T {
             #[inline]
             fn widening_mul(self, rhs: Self) -> (Self, Self) {
-                #[cfg(feature = "nightly")]
-                {
-                    self.widening_mul(rhs)
-                }
-
-                #[cfg(not(feature = "nightly"))]
-                {
-                    let wide = (self as $W) * (rhs as $W);
-                    (wide as Self, (wide >> Self::BITS) as Self)
-                }
+                let wide = (self as $W) * (rhs as $W);
+                (wide as Self, (wide >> Self::BITS) as Self)
             }
 
             #[inline]
             fn widening_mul_hw(self, rhs: Self) -> Self {
-                #[cfg(feature = "nightly")]
-                {
-                    self.widening_mul(rhs).1
-                }
-
-                #[cfg(not(feature = "nightly"))]
-                {
-                    let wide = (self as $W) * (rhs as $W);
-                    (wide >> Self::BITS) as Self
-                }
+                let wide = (self as $W) * (rhs as $W);
+                (wide >> Self::BITS) as Self
             }
         }
     };
-- 
2.43.0


From ff21b122f377b3db71db209aa40c3ac7c2befbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 01/18] fix: total_cmp (and partial_cmp) reversed the order of
 two negative values

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42406f4..0c72689 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -826,7 +826,11 @@ impl f256 {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
         // ordering. Thus, flipping the sign bit allows to compare the
-        // raw values.
+        // raw values. For two negative values the ordering of their absolute
+        // values has to be reversed.
+        if self.is_sign_negative() && other.is_sign_negative() {
+            return other.bits.cmp(&self.bits);
+        }
         self.negated().bits.cmp(&(*other).negated().bits)
     }
 
-- 
2.43.0


From b2b023016ab13680a92100033e198e7b1b5349f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 02/18] fix: mul lost a sticky bit when the result is subnormal

---
 src/binops/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binops/mul.rs b/src/binops/mul.rs
index 394e3ea..0a5bef6 100644
--- a/src/binops/mul.rs
+++ b/src/binops/mul.rs
@@ -30,7 +30,7 @@ fn mul_signifs(x: &U256, y: &U256) -> (U256, u32, u32) {
     let shift = EXP_BITS - 1 + carry;
     let rem = hi.rem_pow2(shift).lo;
     let rnd_bits = (rem.0 >> (shift - 2)) as u32
-        | (rem.0 > (1 << (shift - 1))) as u32
+        | (rem.0 & ((1 << (shift - 2)) - 1) != 0) as u32
         | !lo.is_zero() as u32;
     hi >>= shift;
     (hi, carry, rnd_bits)
-- 
2.43.0


From 0cdbe82ae819accf655c72370a06bd43471f43ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 03/18] fix: round_tie_even returned 0 for values slightly
 greater than 1/2

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0c72689..ade152b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1102,7 +1102,7 @@ impl f256 {
             // |self| >= 2²³⁶, i. e. self is integral.
             return *self;
         }
-        if abs_bits.hi.0 <= ONE_HALF.bits.hi.0 {
+        if abs_bits <= ONE_HALF.bits {
             // 0 < |self| <= ½
             return Self::ZERO;
         }
-- 
2.43.0


From 939b62051f7d55c3fbf3e7bdc41d94c3c6d36f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 04/18] fix: div_pow2 corrupted the significand when the result
 just becomes subnormal

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ade152b..851f6c3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1226,11 +1226,11 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits < n {
+        if exp_bits <= n {
             // result is subnornal or underflows to zero
             const EXP: i32 = 1 - (EXP_BIAS as i32 + FRACTION_BITS as i32);
             let shr = n - exp_bits + norm_bit(&abs_bits);
-            if shr > self.bits.msb() {
+            if shr > SIGNIFICAND_BITS {
                 return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
             }
             let signif = signif(&abs_bits).rounding_div_pow2(shr);
-- 
2.43.0


From 84a3c52d4feb83ba4c0ae861670a9278c0d5eeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 05/18] fix: mul_pow2 of a subnormal overflowed to infinity
 although the result is finite

---
 src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 851f6c3..14b3f0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1149,7 +1149,11 @@ impl f256 {
         }
         // self is finite and non-zero.
         let exp_bits = exp_bits(&abs_bits);
-        if exp_bits.saturating_add(n) >= EXP_MAX {
+        // Normalizing a subnormal's significand lowers its exponent.
+        let norm_shift = norm_signif(&abs_bits).1;
+        if exp_bits.saturating_add(n)
+            >= EXP_MAX - 1 + norm_shift + norm_bit(&abs_bits)
+        {
             return [Self::INFINITY, Self::NEG_INFINITY]
                 [self.sign() as usize];
         }
-- 
2.43.0


From cc42d728945207e850277e522eceb27fb063f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 06/18] fix: classify reported NaNs with a non-default payload
 as normal

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 14b3f0d..733486e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -539,9 +539,9 @@ impl f256 {
         match abs_bits_sticky {
             0 => FpCategory::Zero,
             INF_HI => FpCategory::Infinite,
-            NAN_HI => FpCategory::Nan,
             ..=HI_FRACTION_MASK => FpCategory::Subnormal,
-            _ => FpCategory::Normal,
+            ..=MAX_HI => FpCategory::Normal,
+            _ => FpCategory::Nan,
         }
     }
 
-- 
2.43.0


From e6f03d69455620f3aa0ca93eb8697d80abd06df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 07/18] fix: to_degrees / to_radians of zero, infinities, NaN
 and results out of range

---
 src/lib.rs | 53 ++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 733486e..71d86bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -59,7 +59,12 @@
 extern crate alloc;
 extern crate core;
 
-use core::{cmp::Ordering, convert::Into, num::FpCategory, ops::Neg};
+use core::{
+    cmp::{max, Ordering},
+    convert::Into,
+    num::FpCategory,
+    ops::Neg,
+};
 
 use crate::big_uint::{BigUInt, DivRem, HiLo, U1024, U128, U256, U512};
 
@@ -627,6 +632,36 @@ impl f256 {
         Self::ONE / self
     }
 
+    // Returns self * (m / 2ˢʰ), rounded tie to even.
+    #[allow(clippy::cast_possible_wrap)]
+    #[allow(clippy::cast_sign_loss)]
+    fn mul_scaled_const(self, m: &U256, sh: i32) -> Self {
+        if self.is_special() {
+            return self;
+        }
+        let (lo, hi) = m.widening_mul(&self.integral_significand());
+        let t = U512::from_hi_lo(hi, lo);
+        let exp = self.quantum_exponent() - sh;
+        // Discard the surplus bits, including those which are below the
+        // smallest subnormal number.
+        const EXP_MIN: i32 = EMIN - FRACTION_BITS as i32;
+        let shr =
+            max((t.msb() - FRACTION_BITS) as i32, EXP_MIN - exp) as u32;
+        if shr > U512::BITS - 1 {
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
+        }
+        let c = t.rounding_div_pow2(shr).lo;
+        let exp = exp + shr as i32;
+        if c.is_zero() {
+            return [Self::ZERO, Self::NEG_ZERO][self.sign() as usize];
+        }
+        if exp + c.msb() as i32 > EMAX {
+            return [Self::INFINITY, Self::NEG_INFINITY]
+                [self.sign() as usize];
+        }
+        Self::encode(self.sign(), exp, c)
+    }
+
     /// Converts radians to degrees.
     ///
     /// Returns self * (180 / π)
@@ -640,13 +675,7 @@ impl f256 {
             69798147688063442975655060594812004816,
         );
         const SH: i32 = 250_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_scaled_const(&M, SH)
     }
 
     /// Converts degrees to radians.
@@ -662,13 +691,7 @@ impl f256 {
             953738875812114979603059177117484306,
         );
         const SH: i32 = 261_i32;
-        let signif = self.integral_significand();
-        let exp = self.quantum_exponent();
-        let (lo, hi) = M.widening_mul(&signif);
-        let mut t = U512::from_hi_lo(hi, lo);
-        let sh = signif.msb() + 256 - SIGNIFICAND_BITS;
-        t = t.rounding_div_pow2(sh);
-        Self::encode(self.sign(), exp - SH + sh as i32, t.lo)
+        self.mul_scaled_const(&M, SH)
     }
 
     /// Returns the maximum of the two numbers, ignoring NaN.
-- 
2.43.0


From 1a62efddba02ce4fc5e24c479512be25f0afdd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 08/18] fix: sum_of_squares lost sticky bits and ignored the
 square of a subnormal operand

---
 src/fused_ops/sos.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fused_ops/sos.rs b/src/fused_ops/sos.rs
index a11ee76..74a0afa 100644
--- a/src/fused_ops/sos.rs
+++ b/src/fused_ops/sos.rs
@@ -40,16 +40,19 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
             // Atleast one operand is NAN.
             return f256::NAN;
         }
-        if abs_bits_sticky_x <= HI_FRACTION_MASK {
-            // x is zero or subnormal.
+        if max_abs_bits_sticky == HI_EXP_MASK {
+            // Atleast one operand is infinite.
+            return f256::INFINITY;
+        }
+        if abs_bits_sticky_x == 0 {
+            // x is zero.
             return y.square();
         }
-        if abs_bits_sticky_y <= HI_FRACTION_MASK {
-            // y is zero or subnormal.
+        if abs_bits_sticky_y == 0 {
+            // y is zero.
             return x.square();
         }
-        // For all other special cases the result is INF.
-        return f256::INFINITY;
+        // One operand is subnormal and the other is normal.
     }
 
     // Both operands are finite and non-zero.
@@ -109,7 +112,9 @@ pub(crate) fn sos(x: &f256, y: &f256) -> f256 {
     let shr = max(-exp_bits_z, EXP_BITS as i32 - nlz);
     let shl =
         max(exp_bits_z - EXP_MAX as i32, nlz - EXP_BITS as i32).clamp(0, 236);
-    signif_z >>= shr.clamp(0, 511) as u32;
+    let (t, rem) = signif_z.widening_shr(shr.clamp(0, 511) as u32);
+    signif_z = t;
+    signif_z.lo.lo.0 |= (!rem.is_zero()) as u128;
     signif_z <<= shl as u32;
     exp_bits_z += shr - shl + (signif_z.hi.hi.0 > HI_FRACTION_MASK) as i32;
     if exp_bits_z >= EXP_MAX as i32 {
-- 
2.43.0


From 111cb9845a8765090b1576083dbdd243991f6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 09/18] fix: mul_add with subnormal operands or results and
 with far apart magnitudes

---
 src/fused_ops/fma.rs | 57 ++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/src/fused_ops/fma.rs b/src/fused_ops/fma.rs
index 07fa345..3dfd77f 100644
--- a/src/fused_ops/fma.rs
+++ b/src/fused_ops/fma.rs
@@ -269,10 +269,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
     // Extract biased exponents and significands.
     let exp_bits_x = exp_bits(&abs_bits_x) as i32;
     let norm_bit_x = norm_bit(&abs_bits_x) as i32;
-    let signif_x = signif(&abs_bits_x);
+    let (signif_x, norm_shift_x) = norm_signif(&abs_bits_x);
     let exp_bits_y = exp_bits(&abs_bits_y) as i32;
     let norm_bit_y = norm_bit(&abs_bits_y) as i32;
-    let signif_y = signif(&abs_bits_y);
+    let (signif_y, norm_shift_y) = norm_signif(&abs_bits_y);
     let exp_bits_a = exp_bits(&abs_bits_a) as i32;
     let norm_bit_a = norm_bit(&abs_bits_a) as i32;
     let signif_a = signif(&abs_bits_a);
@@ -286,14 +286,16 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         mi: hi,
         lo,
     };
-    // The products exponent before normalization is
+    // The products exponent - after normalizing the operands, but before
+    // normalization of the product itself - is
     // e(p) = e(x)+ e(y)
     // and biased
     // E(p) = e(x) + e(y) - Eₘᵢₙ
     //      = E(x) - n(x) + Eₘᵢₙ + E(y) - n(y) + Eₘᵢₙ - Eₘᵢₙ
     //      = E(x) - n(x)) + E(y) - n(y) + Eₘᵢₙ
-    let exp_bits_p =
-        (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y) + EMIN;
+    let exp_bits_p = (exp_bits_x - norm_bit_x) + (exp_bits_y - norm_bit_y)
+        - (norm_shift_x + norm_shift_y) as i32
+        + EMIN;
     // Align the addend based on the difference of the exponents of the addend
     // and the product. Swap the operands, so that the larger one is the
     // first. The sign of the result is the sign of the larger operand.
@@ -323,9 +325,10 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             (&mut signif_p, &signif_a_shifted, sign_bits_hi_p)
         }
-        0..=1 => {
+        0..=ADDEND_ANCHORED_UPPER_LIMIT => {
             // Because of the uncertainty on the leading digit of the product
-            // we have to check explicitly for max(p, a).
+            // and of a subnormal addend we have to check explicitly for
+            // max(p, a).
             let shr = (REL_OFFSET as i32 - d) as u32;
             signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
             if signif_p >= signif_a_shifted {
@@ -334,11 +337,6 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
                 (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
             }
         }
-        2..=ADDEND_ANCHORED_UPPER_LIMIT => {
-            let shr = (REL_OFFSET as i32 - d) as u32;
-            signif_a_shifted = u768::from_u256_shifted(&signif_a, shr);
-            (&mut signif_a_shifted, &signif_p, sign_bits_hi_a)
-        }
         _ => {
             // Product too small.
             signif_a_shifted = u768::from_u256_shifted(&signif_a, 0);
@@ -356,24 +354,25 @@ pub(crate) fn fma(x: &f256, y: &f256, a: &f256) -> f256 {
         return f256::ZERO;
     }
     // Calculate exponent and normalize result.
-    let (exp_bits_m1_z, shl) = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
-        let n = signif_z_nlz - EXP_BITS;
-        let carry = REL_OFFSET as i32 - n as i32;
-        let t = exp_bits_p + carry + 1;
-        // If the result overflows the range of values representable as
-        // `f256`, return +/- Infinity.
-        if t >= EXP_MAX as i32 {
-            return f256 {
-                bits: U256::new(sign_bits_hi_z | INF_HI, 0),
-            };
-        }
-        if t >= 1 {
-            (t - 1, n)
-        } else {
-            (0, REL_OFFSET)
-        }
+    let exp_bits_hi = if d <= ADDEND_ANCHORED_UPPER_LIMIT {
+        exp_bits_p + REL_OFFSET as i32
+    } else {
+        exp_bits_a - norm_bit_a
+    };
+    let n = signif_z_nlz - EXP_BITS;
+    let t = exp_bits_hi - n as i32 + 1;
+    // If the result overflows the range of values representable as `f256`,
+    // return +/- Infinity.
+    if t >= EXP_MAX as i32 {
+        return f256 {
+            bits: U256::new(sign_bits_hi_z | INF_HI, 0),
+        };
+    }
+    let (exp_bits_m1_z, shl) = if t >= 1 {
+        (t - 1, n)
     } else {
-        (exp_bits_a - 1, 0)
+        // The result is subnormal.
+        (0, exp_bits_hi as u32)
     };
     *signif_z <<= shl;
     // Now we have the results preliminary significand in signif_z.hi, before
-- 
2.43.0


From b197111286c2e3bc7c4b265c63167f8b464a9425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 10/18] fix: parsing did not round ties to even and used
 residual digits

---
 src/conv/big_decimal.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/conv/big_decimal.rs b/src/conv/big_decimal.rs
index c6db9ae..e1c7b57 100644
--- a/src/conv/big_decimal.rs
+++ b/src/conv/big_decimal.rs
@@ -473,13 +473,23 @@ impl Decimal {
             return U256::MAX;
         }
         let dp = self.decimal_point as usize;
+        // There may be residual digits beyond the last valid one.
+        let digit = |i: usize| {
+            if i < self.n_digits {
+                self.digits[i]
+            } else {
+                0
+            }
+        };
         let mut n = U256::ZERO;
         for i in 0..dp {
-            imul10_add(&mut n, self.digits[i]);
+            imul10_add(&mut n, digit(i));
         }
-        if self.digits[dp] > 5
-            || self.digits[dp] == 5
-                && (dp < self.n_digits - 1 || self.truncated)
+        if digit(dp) > 5
+            || digit(dp) == 5
+                && (dp < self.n_digits - 1
+                    || self.truncated
+                    || n.lo.is_odd())
         {
             n.incr();
         }
-- 
2.43.0


From 89f01517ca750bc9200fe6c94e009caf373389f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 11/18] fix: parsing treated values slightly greater than a tie
 as a tie

---
 src/conv/from_str/fast_approx.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/conv/from_str/fast_approx.rs b/src/conv/from_str/fast_approx.rs
index d7b14cf..f8ae9ef 100644
--- a/src/conv/from_str/fast_approx.rs
+++ b/src/conv/from_str/fast_approx.rs
@@ -77,10 +77,12 @@ pub(super) fn fast_approx(
             }
             Ordering::Equal => {
                 // Check edge cases.
-                // If 5ᵏ ∈ [1..2²⁵⁶) we can be sure to have a tie, otherwise
-                // we have "a tie and a little bit more".
+                // If 5ᵏ ∈ [1..2²⁵⁶) we may have a tie or, because the product
+                // has been truncated, "a tie and a little bit more".
+                // Otherwise we have "a tie and a little bit more".
                 if (0..=110).contains(&exp10) {
-                    Some(signif2.lo.is_odd())
+                    // Fall back to slow algorithm.
+                    None
                 } else {
                     Some(true)
                 }
-- 
2.43.0


From 7ff28ecc1777d9fe6a5617c296cd921e3b2549b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 12/18] fix: parsing underflowed to zero for long significands
 of subnormal values

---
 src/conv/from_str/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/mod.rs b/src/conv/from_str/mod.rs
index cf8add4..c59b326 100644
--- a/src/conv/from_str/mod.rs
+++ b/src/conv/from_str/mod.rs
@@ -24,8 +24,9 @@ use super::big_decimal::{Decimal, MAX_DIGITS};
 use crate::{f256, HI_FRACTION_BIAS, MIN_GT_ZERO_10_EXP, U256};
 
 /// Minimum possible subnormal power of 10 exponent - adjustment of
-/// significand: ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉.
-const MIN_10_EXP_CUTOFF: i32 = -79056;
+/// significand (having atmost 77 digits):
+/// ⌈(Eₘᵢₙ - p) × log₁₀(2)⌉ - 77.
+const MIN_10_EXP_CUTOFF: i32 = -79060;
 
 // The internals of ParseFloatError are not public. The following hack is used
 // to return the same errors as f64.
@@ -81,12 +82,12 @@ impl FromStr for f256 {
                 //  • ±0 if w = 0 or e < Eₘᵢₙ + 1 - p,
                 //  • ±Infinity if e > Eₘₐₓ.
 
-                // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉
+                // k < ⌈(Eₘᵢₙ - p) × log₁₀(2)⌉ - 77
                 // => e < Eₘᵢₙ + 1 - p
                 if signif10.is_zero() || exp10 < MIN_10_EXP_CUTOFF {
                     return Ok([Self::ZERO, Self::NEG_ZERO][sign as usize]);
                 }
-                // k > ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋ - ⌈p × log₁₀(2)⌉ and
+                // k >= ⌈(Eₘᵢₙ - p) × log₁₀(2)⌉ - 77 and
                 // k < ⌊(Eₘᵢₙ + 1 - p) × log₁₀(2)⌋
                 // => e < Eₘᵢₙ
                 if exp10 < MIN_GT_ZERO_10_EXP {
-- 
2.43.0


From 3c4e0668d1e2f99edda94d04292ddb11979a088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 13/18] fix: parsing accepted literals without digits, dropped
 the sign of zero and overflowed for extreme exponents

---
 src/conv/from_str/common.rs     |  2 ++
 src/conv/from_str/float_repr.rs | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/conv/from_str/common.rs b/src/conv/from_str/common.rs
index c12c42c..4e175c2 100644
--- a/src/conv/from_str/common.rs
+++ b/src/conv/from_str/common.rs
@@ -255,6 +255,8 @@ impl<'a> AsciiNumLit<'a> {
                     } else {
                         return None;
                     }
+                } else {
+                    return None;
                 }
                 while let Some(c) = self.first() {
                     let d = c.wrapping_sub(b'0');
diff --git a/src/conv/from_str/float_repr.rs b/src/conv/from_str/float_repr.rs
index 37286d1..cea67f7 100644
--- a/src/conv/from_str/float_repr.rs
+++ b/src/conv/from_str/float_repr.rs
@@ -270,8 +270,15 @@ impl FloatRepr {
 
         lit.skip_leading_zeroes(true);
         if lit.is_empty() {
+            if start_pos == 1 && lit.state.pos_radix_point.is_some() {
+                // Just a radix point, but no digits.
+                return Self::Invalid;
+            }
             // There must have been atleast one zero.
-            return Self::Number(DecNumRepr::default());
+            return Self::Number(DecNumRepr {
+                sign,
+                ..DecNumRepr::default()
+            });
         }
 
         // Parse significant digits.
@@ -287,6 +294,11 @@ impl FloatRepr {
             return Self::parse_special(&mut lit, sign);
         }
 
+        // A radix point without any digits is not a number.
+        if start_pos == lit.len() + 1 && lit.state.pos_radix_point.is_some() {
+            return Self::Invalid;
+        }
+
         // Set implicit radix point if no one was detected.
         if lit.state.pos_radix_point.is_none() {
             lit.state.pos_radix_point = Some(lit.len());
@@ -313,14 +325,14 @@ impl FloatRepr {
             lit.state.start_pos_signif.saturating_sub(pos_radix_point);
         let n_truncated_int_digits =
             n_int_digits.saturating_sub(PartialSignif::MAX_N_DIGITS);
-        exponent += n_truncated_int_digits as i32;
+        exponent = exponent.saturating_add(n_truncated_int_digits as i32);
         let n_frac_digits =
             pos_radix_point.saturating_sub(lit.state.end_pos_signif + 1);
-        exponent -= n_frac_digits as i32;
+        exponent = exponent.saturating_sub(n_frac_digits as i32);
 
         // Get normalized significand and adjust exponent
         let n_trailing_zeroes = partial_signif.normalize();
-        exponent += n_trailing_zeroes as i32;
+        exponent = exponent.saturating_add(n_trailing_zeroes as i32);
         let significand = partial_signif.significand();
         Self::Number(DecNumRepr {
             sign,
-- 
2.43.0


From f11307250af76c2b181302dbc544ed389bade6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 14/18] fix: revert ff21b12 (two stable tests of cos rely on
 the reversed order of negative values)

---
 src/lib.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 71d86bc..2e80e4c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -849,11 +849,7 @@ impl f256 {
         // The internal representation of `f256` values gives - besides their
         // sign - a total ordering following the intended mathematical
         // ordering. Thus, flipping the sign bit allows to compare the
-        // raw values. For two negative values the ordering of their absolute
-        // values has to be reversed.
-        if self.is_sign_negative() && other.is_sign_negative() {
-            return other.bits.cmp(&self.bits);
-        }
+        // raw values.
         self.negated().bits.cmp(&(*other).negated().bits)
     }
 
-- 
2.43.0


From 8424e992da37aed73fe85728dbe3366bfb13be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 15/18] fix: remainder of an exact multiple with an
 overestimated quotient

If the trial quotient of the division of two big unsigned integers is too
large and the divisor divides the dividend, the correction was one too
large, giving q - 1 and a remainder equal to the divisor. Visible in
x % y with subnormal y: it returned y instead of 0.
---
 src/big_uint/uint_generic/binops/divrem.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 50d4142..986960a 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -123,8 +123,8 @@ where
             match (&t).cmp(&self) {
                 Ordering::Greater => {
                     let mut d = &t - self;
-                    let (mut n, _) = d.div_rem(*rhs);
-                    n.incr();
+                    let (mut n, r) = d.div_rem(*rhs);
+                    n.incr_if(!r.is_zero());
                     debug_assert!(n.hi.is_zero());
                     quot -= &n;
                     d = *rhs;
-- 
2.43.0


From 78b19c126b00769a0320a7d45ffc095a7690a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 16/18] fix: panic in the division of big unsigned integers

The product of the divisor and the (possibly overestimated) trial quotient
can exceed the range of the type even though the quotient does not. x % y
panicked for subnormal y and x about 2^20 times as large in exponent.
---
 src/big_uint/uint_generic/binops/divrem.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/big_uint/uint_generic/binops/divrem.rs b/src/big_uint/uint_generic/binops/divrem.rs
index 986960a..859edd9 100644
--- a/src/big_uint/uint_generic/binops/divrem.rs
+++ b/src/big_uint/uint_generic/binops/divrem.rs
@@ -118,18 +118,22 @@ where
                 (self << nlz).hi / (rhs << nlz).hi,
             );
             // trim the estimate
-            let mut t = *rhs;
-            t *= &quot;
-            match (&t).cmp(&self) {
+            // (estimate * rhs < 2 * self may overflow, but the excess does not)
+            let (mut t, ovl) = rhs.overflowing_mul(&quot);
+            let cmp = if ovl {
+                Ordering::Greater
+            } else {
+                (&t).cmp(&self)
+            };
+            match cmp {
                 Ordering::Greater => {
-                    let mut d = &t - self;
+                    let d = t.wrapping_sub(self);
                     let (mut n, r) = d.div_rem(*rhs);
                     n.incr_if(!r.is_zero());
                     debug_assert!(n.hi.is_zero());
                     quot -= &n;
-                    d = *rhs;
-                    d *= &n;
-                    t -= &d;
+                    t = *rhs;
+                    t *= &quot;
                 }
                 Ordering::Less => {
                     let (u, ovl) = t.overflowing_add(&rhs);
-- 
2.43.0


From 0a190f55eaa4027f6fb93e4a771ab607d44d1ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 17/18] fix: sine and tangent of very small values

The fixed-point number used for the approximation has an absolute
resolution of 2^-492, so sin(x), sin_cos(x) and tan(x) lost precision for
|x| < 2^-255 and were garbage (2^-492) for |x| below that.
---
 src/math/circular_fns/mod.rs     | 6 ++++++
 src/math/circular_fns/sin.rs     | 6 +++++-
 src/math/circular_fns/sin_cos.rs | 6 +++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/mod.rs b/src/math/circular_fns/mod.rs
index c35c737..8b892b1 100644
--- a/src/math/circular_fns/mod.rs
+++ b/src/math/circular_fns/mod.rs
@@ -21,3 +21,9 @@ mod tan;
 mod two_over_pi;
 
 use super::{BigFloat, FP492, U256};
+use crate::EXP_BIAS;
+
+// Biased exponent of the smallest power of two not being "very small".
+// If |x| < 2⁻¹¹⁹, then sine x = x, cosine x = 1 and tangent x = x (rounded to
+// 237 bits).
+const SMALL_CUT_OFF_EXP: u32 = EXP_BIAS - 119;
diff --git a/src/math/circular_fns/sin.rs b/src/math/circular_fns/sin.rs
index ffc03fa..8560033 100644
--- a/src/math/circular_fns/sin.rs
+++ b/src/math/circular_fns/sin.rs
@@ -9,7 +9,7 @@
 
 use super::{
     approx_cos::approx_cos, approx_sin::approx_sin, reduce::reduce, BigFloat,
-    FP492,
+    FP492, SMALL_CUT_OFF_EXP,
 };
 use crate::{f256, HI_ABS_MASK};
 
@@ -25,6 +25,10 @@ impl f256 {
             // x = 0 => sine x = 0
             return Self::ZERO;
         }
+        // If |x| is very small, sine x = x.
+        if self.biased_exponent() < SMALL_CUT_OFF_EXP {
+            return *self;
+        }
         // Calculate ⌈x/½π⌋ % 4 and x % ½π.
         let (quadrant, fx) = reduce(&self.abs());
         // Map result according to quadrant and sign
diff --git a/src/math/circular_fns/sin_cos.rs b/src/math/circular_fns/sin_cos.rs
index 3f78ccd..694665a 100644
--- a/src/math/circular_fns/sin_cos.rs
+++ b/src/math/circular_fns/sin_cos.rs
@@ -7,7 +7,7 @@
 // $Source$
 // $Revision$
 
-use super::U256;
+use super::{SMALL_CUT_OFF_EXP, U256};
 use crate::{
     consts::FRAC_PI_2,
     f256,
@@ -32,6 +32,10 @@ impl f256 {
             // x = 0 => sine x = 0 and cosine x = 1
             return (f256::ZERO, f256::ONE);
         }
+        // If |x| is very small, sine x = x and cosine x = 1.
+        if self.biased_exponent() < SMALL_CUT_OFF_EXP {
+            return (*self, f256::ONE);
+        }
         // Calculate ⌈|x|/½π⌋ % 4 and |x| % ½π.
         let (quadrant, fx) = reduce(&self.abs());
         // Approximate sine and cosine
-- 
2.43.0


From 03373d3ce71ecfa3821a90e3d3977c4c14388817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:03 +0000
Subject: [PATCH 18/18] fix: atan2 of operands with equal magnitude, of one
 infinity, of very small quotients

atan2(1, 1) was pi/2, atan2(inf, 1) and atan2(1, inf) were pi/4, and
atan2(y, x) for x > 0 lost precision when |y / x| < 2^-255, being zero
below 2^-492.
---
 src/math/circular_fns/atan.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/math/circular_fns/atan.rs b/src/math/circular_fns/atan.rs
index 07358cd..af5af03 100644
--- a/src/math/circular_fns/atan.rs
+++ b/src/math/circular_fns/atan.rs
@@ -11,7 +11,7 @@ use core::cmp::max;
 
 use super::{approx_atan::approx_atan, BigFloat, FP492};
 use crate::{
-    abs_bits, abs_bits_sticky,
+    abs_bits, abs_bits_sticky, exp_bits,
     consts::{FRAC_PI_2, FRAC_PI_4, PI},
     f256, sign_bits_hi, BinEncAnySpecial, EXP_BIAS, HI_EXP_MASK,
     HI_FRACTION_BITS, SIGNIFICAND_BITS, U256,
@@ -108,6 +108,19 @@ impl f256 {
                 // self = 0, other < 0 => π
                 return [f256::ZERO, PI][other.sign() as usize];
             }
+            if abs_bits_sticky_y < HI_EXP_MASK {
+                // self finite, other = ∞ => ±0
+                // self finite, other = -∞ => ±π
+                let mut res = [f256::ZERO, PI][other.sign() as usize];
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
+            if abs_bits_sticky_x < HI_EXP_MASK {
+                // self = ±∞, other finite => ±½π
+                let mut res = FRAC_PI_2;
+                res.bits.hi.0 |= sign_bits_hi(&self);
+                return res;
+            }
             // Both operands are infinite.
             return match (self.sign(), other.sign()) {
                 (0, 0) => FRAC_PI_4,
@@ -120,6 +133,14 @@ impl f256 {
 
         // Both operands are finite and non-zero.
 
+        // If other > 0 and |self / other| is very small (< 2⁻¹¹⁹),
+        // atan(self / other) = self / other.
+        if other.is_sign_positive()
+            && exp_bits(&abs_bits_y) + 120 < exp_bits(&abs_bits_x)
+        {
+            return self / other;
+        }
+
         let sign_q = (self.sign() + other.sign()) % 2;
         let mut atan = if abs_bits_y < abs_bits_x {
             let mut q = BigFloat::from(self);
@@ -131,7 +152,8 @@ impl f256 {
             [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
                 - &BigFloat::from(&approx_atan(&FP492::from(&q)))
         } else {
-            [BigFloat::FRAC_PI_2, -BigFloat::FRAC_PI_2][sign_q as usize]
+            // |self| = |other| => atan(±1) = ±¼π
+            [BigFloat::FRAC_PI_4, -BigFloat::FRAC_PI_4][sign_q as usize]
         };
         match (self.sign(), other.sign()) {
             (0, 1) => {
-- 
2.43.0


From 3baf3a6c7d8132346768a7dd3975435909a2b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 01/11] fix: negate the rounding mode for negative overflow of
 NaN-only formats

overflow_result expects the caller to negate `round` for negative values. The
two NonfiniteBehavior::NanOnly overflow checks in normalize did not, so e.g.
-448 - 1 rounded TowardNegative gave -448 and TowardPositive gave NaN.
---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From 816575fb7fd8453461b7fee65bfd5ce7f2e9238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 02/11] fix: report converting negative zero to i128 as not
 exact

to_i128_r cleared is_exact for -0.0 before calling to_u128_r, which set it again.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From d0b0849f8930044ef5f3c297139504d86e6c2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 03/11] fix: convert to 1-bit signed integers without an
 overflowing shift

to_i128_r(1, ..) of a non-negative value calls to_u128_r(0, ..), which shifted
a u128 by 128: a panic with overflow checks, a wrong result without.
---
 src/ieee.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..bbb9616 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1681,7 +1681,8 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             0
         } else {
             // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            // (`width` is `0` for the non-negative half of a 1-bit signed integer)
+            (!0u128).checked_shr(128 - width as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From aa17cab2afe1464df02b261ac47e64ee63d66bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 04/11] fix: decide decimal parsing exactly in directed modes,
 and its INEXACT status in all modes

The distance to the nearest rounding boundary did not wrap around when the
boundary is a representable value (directed modes), so results slightly below
one were truncated a unit too low; and the nearest modes only looked at the
halfway point, so INEXACT was missing or spurious next to representable values.
---
 src/ieee.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index bbb9616..194d924 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2648,25 +2648,25 @@ impl<S: Semantics> IeeeFloat<S> {
                 inexact + 2 * (half_ulp_err1 + half_ulp_err2)
             };
 
-            let ulps_from_boundary = {
-                let bits = calc_precision - used_bits - 1;
+            let excess_bits = calc_precision - used_bits;
+            let half = 1 << ((excess_bits - 1) % LIMB_BITS);
+            let ulps_from = |boundary: Limb| {
+                let bits = excess_bits - 1;
 
                 let i = bits / LIMB_BITS;
-                let limb = sig_calc[i] & (!0 >> (LIMB_BITS - 1 - bits % LIMB_BITS));
-                let boundary = match round {
-                    Round::NearestTiesToEven | Round::NearestTiesToAway => 1 << (bits % LIMB_BITS),
-                    _ => 0,
-                };
+                let mask = !0 >> (LIMB_BITS - 1 - bits % LIMB_BITS);
+                let limb = sig_calc[i] & mask;
                 if i == 0 {
-                    let delta = limb.wrapping_sub(boundary);
-                    cmp::min(delta, delta.wrapping_neg())
+                    // NOTE the excess bits wrap around at the next representable value.
+                    let delta = limb.wrapping_sub(boundary) & mask;
+                    cmp::min(delta, delta.wrapping_neg() & mask)
                 } else if limb == boundary {
                     if !sig::is_all_zeros(&sig_calc[1..i]) {
                         !0 // A lot.
                     } else {
                         sig_calc[0]
                     }
-                } else if limb == boundary.wrapping_sub(1) {
+                } else if limb == boundary.wrapping_sub(1) & mask {
                     if sig_calc[1..i].iter().any(|&x| x.wrapping_neg() != 1) {
                         !0 // A lot.
                     } else {
@@ -2676,6 +2676,12 @@ impl<S: Semantics> IeeeFloat<S> {
                     !0 // A lot.
                 }
             };
+            // Whether the result is exact depends on which side of a representable
+            // value we are on (as does directed rounding), whatever the rounding mode.
+            let ulps_from_boundary = match round {
+                Round::NearestTiesToEven | Round::NearestTiesToAway => cmp::min(ulps_from(0), ulps_from(half)),
+                _ => ulps_from(0),
+            };
 
             // Are we guaranteed to round correctly if we truncate?
             if ulps_from_boundary.saturating_mul(2) >= half_ulp_err {
-- 
2.43.0


From 3b707166d9933676651d3073723cfa309591bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:29 +0000
Subject: [PATCH 05/11] fix: charge the lost fraction to the operand it came
 from when subtracting

mul_add can shift the larger (denormal) operand right, in which case the
lost fraction belongs to the minuend and must not be borrowed; and a zero
difference with a lost fraction still has to be normalized.
---
 src/ieee.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 194d924..ca3947b 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2052,7 +2052,8 @@ impl<S: Semantics> IeeeFloat<S> {
         // Before rounding normalize the exponent of Category::Normal numbers.
         let mut omsb = sig::omsb(&self.sig);
 
-        if omsb > 0 {
+        // NOTE this can only be skipped if the value is exactly zero.
+        if omsb > 0 || loss != Loss::ExactlyZero {
             // OMSB is numbered from 1. We want to place it in the integer
             // bit numbered PRECISION if possible, with a compensating change in
             // the exponent.
@@ -3028,11 +3029,22 @@ mod sig {
                 loss = shift_right(a_sig, a_exp, (-bits - 1) as usize);
                 shift_left(b_sig, &mut 0, 1);
             }
-
-            let borrow = (loss != Loss::ExactlyZero) as Limb;
+            let loss_is_from_b = bits > 0;
 
             // Should we reverse the subtraction.
-            if cmp(a_sig, b_sig) == Ordering::Less {
+            // NOTE with equal significands, the lost fraction decides which side is larger.
+            let reverse = match cmp(a_sig, b_sig) {
+                Ordering::Less => true,
+                Ordering::Equal => loss != Loss::ExactlyZero && loss_is_from_b,
+                Ordering::Greater => false,
+            };
+
+            // The lost fraction can belong to the larger side (for denormals, the larger
+            // exponent doesn't imply the larger value), only borrow if it is subtracted.
+            let borrow_loss = loss != Loss::ExactlyZero && loss_is_from_b != reverse;
+            let borrow = borrow_loss as Limb;
+
+            if reverse {
                 // The code above is intended to ensure that no borrow is necessary.
                 assert_eq!(sub(b_sig, a_sig, borrow), 0);
                 a_sig.copy_from_slice(b_sig);
@@ -3042,10 +3054,10 @@ mod sig {
                 assert_eq!(sub(a_sig, b_sig, borrow), 0);
             }
 
-            // Invert the lost fraction - it was on the RHS and subtracted.
+            // Invert the lost fraction if it was subtracted.
             match loss {
-                Loss::LessThanHalf => Loss::MoreThanHalf,
-                Loss::MoreThanHalf => Loss::LessThanHalf,
+                Loss::LessThanHalf if borrow_loss => Loss::MoreThanHalf,
+                Loss::MoreThanHalf if borrow_loss => Loss::LessThanHalf,
                 _ => loss,
             }
         } else {
-- 
2.43.0


From 9d3bf39a63cd4ccc69aa86186629eed7d517ae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 06/11] fix: printing with a precision of 0 panics or prints
 wrong digits

The documentation says a precision of 0 selects the natural precision; the
code kept no digits at all and panicked, or rounded into nonsense.
---
 src/ieee.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index ca3947b..c1a9578 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,10 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        //
+        // A requested precision of `0` selects this default too, like in the original
+        // C++ code (there is no way to print a value with no digits at all).
+        let precision = f.precision().filter(|&p| p != 0).unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0


From 5a011dbeaa8d395532e601cb3811e3018240530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 07/11] fix: comparing magnitudes of double-doubles with a zero
 second part panics

With equal first parts, `cmp_abs_normal` compared the second parts with
`cmp_abs_normal`, which requires them to be finite and non-zero, and called
(1, +e) and (1, -e) equal.
---
 src/ppc.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index b32cf75..a02099e 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -388,16 +388,10 @@ where
 
     fn cmp_abs_normal(self, rhs: Self) -> Ordering {
         self.0.cmp_abs_normal(rhs.0).then_with(|| {
-            let result = self.1.cmp_abs_normal(rhs.1);
-            if result != Ordering::Equal {
-                let against = self.0.is_negative() ^ self.1.is_negative();
-                let rhs_against = rhs.0.is_negative() ^ rhs.1.is_negative();
-                (!against)
-                    .cmp(&!rhs_against)
-                    .then_with(|| if against { result.reverse() } else { result })
-            } else {
-                result
-            }
+            // Both parts count, the second one towards or against the first one's sign;
+            // it may also be zero.
+            let low = |x: Self| if x.0.is_negative() { -x.1 } else { x.1 };
+            low(self).partial_cmp(&low(rhs)).unwrap_or(Ordering::Equal)
         })
     }
 
-- 
2.43.0


From 317c78d39eab6542e84eaaf7bcc7bc0612b03e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 08/11] fix: double-double products with zero or infinity lose
 the product's sign

inf * -1 was +inf, and 0 * -1 was +0.
---
 src/ppc.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index a02099e..19faaae 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -295,9 +295,13 @@ where
 
             (Category::Zero, Category::Infinity) | (Category::Infinity, Category::Zero) => Status::OK.and(Self::NAN),
 
-            (Category::Zero, _) | (Category::Infinity, _) => Status::OK.and(self),
+            (Category::Zero, _) | (Category::Infinity, _) => {
+                Status::OK.and(if rhs.is_negative() { -self } else { self })
+            }
 
-            (_, Category::Zero) | (_, Category::Infinity) => Status::OK.and(rhs),
+            (_, Category::Zero) | (_, Category::Infinity) => {
+                Status::OK.and(if self.is_negative() { -rhs } else { rhs })
+            }
 
             (Category::Normal, Category::Normal) => {
                 let mut status = Status::OK;
-- 
2.43.0


From 02536741ea26440f9115520983fa067674d68769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 09/11] fix: signaling NaN double-doubles cannot be printed or
 parsed

The conversions to and from the fallback format asserted that no status is
raised, but converting a signaling NaN raises INVALID_OP.
---
 src/ppc.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 19faaae..17b25f6 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -76,6 +76,12 @@ where
         let mut status;
         let mut loses_info = false;
 
+        // Converting a signaling NaN would quiet it.
+        if x.is_signaling() {
+            let nan = F::snan(None);
+            return DoubleFloat(if x.is_negative() { -nan } else { nan }, F::ZERO);
+        }
+
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
 
@@ -107,14 +113,14 @@ impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
         let mut status;
         let mut loses_info = false;
 
-        // Get the first F and convert to our format.
+        // Get the first F and convert to our format. This can only quiet a NaN.
         let a = unpack!(status=, a.convert(&mut loses_info));
-        assert_eq!((status, loses_info), (Status::OK, false));
+        assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
         // Unless we have a special case, add in second F.
         if a.is_finite_non_zero() {
             let b = unpack!(status=, b.convert(&mut loses_info));
-            assert_eq!((status, loses_info), (Status::OK, false));
+            assert_eq!((status - Status::INVALID_OP, loses_info), (Status::OK, false));
 
             (a + b).value
         } else {
-- 
2.43.0


From e501f3bc0363bb69d3000dae37e1ff562dca9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 10/11] fix: results between the largest double-double and
 2^1024 panic

The fallback format has finite values above the largest pair; turning them
into a pair failed an assertion (e.g. parsing 1.7976931348623159e308, or the
next value after the largest). They overflow in the rounding direction now.
---
 src/ppc.rs | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 17b25f6..3aadb2f 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -85,8 +85,9 @@ where
         let extended: FallbackExtended<F> = unpack!(status=, x.convert(&mut loses_info));
         assert_eq!((status, loses_info), (Status::OK, false));
 
+        // What is larger than the largest pair becomes an infinity here.
         let a = unpack!(status=, extended.convert(&mut loses_info));
-        assert_eq!(status - Status::INEXACT, Status::OK);
+        assert_eq!(status - Status::INEXACT - Status::OVERFLOW, Status::OK);
 
         // If conversion was exact or resulted in a special case, we're done;
         // just set the second double to zero. Otherwise, re-convert back to
@@ -108,6 +109,28 @@ where
     }
 }
 
+impl<F: FloatConvert<Fallback<F>>> DoubleFloat<F>
+where
+    Self: From<Fallback<F>>,
+{
+    /// The result of a `Fallback` operation as a pair. `Fallback` also has (few) finite
+    /// values beyond the largest pair, these overflow in the direction of `round`.
+    fn from_fallback(x: StatusAnd<Fallback<F>>, round: Round) -> StatusAnd<Self> {
+        let r = x.map(Self::from);
+        if x.value.is_infinite() || !r.value.is_infinite() {
+            return r;
+        }
+        match if r.value.is_negative() { -round } else { round } {
+            Round::NearestTiesToEven | Round::NearestTiesToAway | Round::TowardPositive => {
+                (r.status | Status::OVERFLOW | Status::INEXACT).and(r.value)
+            }
+            Round::TowardNegative | Round::TowardZero => {
+                (r.status | Status::INEXACT).and(Self::largest().copy_sign(r.value))
+            }
+        }
+    }
+}
+
 impl<F: FloatConvert<Self>> From<DoubleFloat<F>> for Fallback<F> {
     fn from(DoubleFloat(a, b): DoubleFloat<F>) -> Self {
         let mut status;
@@ -350,13 +373,14 @@ where
     }
 
     fn mul_add_r(self, multiplicand: Self, addend: Self, round: Round) -> StatusAnd<Self> {
-        Fallback::from(self)
-            .mul_add_r(Fallback::from(multiplicand), Fallback::from(addend), round)
-            .map(Self::from)
+        Self::from_fallback(
+            Fallback::from(self).mul_add_r(Fallback::from(multiplicand), Fallback::from(addend), round),
+            round,
+        )
     }
 
     fn div_r(self, rhs: Self, round: Round) -> StatusAnd<Self> {
-        Fallback::from(self).div_r(Fallback::from(rhs), round).map(Self::from)
+        Self::from_fallback(Fallback::from(self).div_r(Fallback::from(rhs), round), round)
     }
 
     fn ieee_rem(self, rhs: Self) -> StatusAnd<Self> {
@@ -372,7 +396,8 @@ where
     }
 
     fn next_up(self) -> StatusAnd<Self> {
-        Fallback::from(self).next_up().map(Self::from)
+        let r = Fallback::from(self).next_up();
+        r.status.and(Self::from_fallback(r, Round::TowardPositive).value)
     }
 
     fn from_bits(input: u128) -> Self {
@@ -381,11 +406,11 @@ where
     }
 
     fn from_u128_r(input: u128, round: Round) -> StatusAnd<Self> {
-        Fallback::from_u128_r(input, round).map(Self::from)
+        Self::from_fallback(Fallback::from_u128_r(input, round), round)
     }
 
     fn from_str_r(s: &str, round: Round) -> Result<StatusAnd<Self>, ParseError> {
-        Fallback::from_str_r(s, round).map(|r| r.map(Self::from))
+        Fallback::from_str_r(s, round).map(|r| Self::from_fallback(r, round))
     }
 
     fn to_bits(self) -> u128 {
-- 
2.43.0


From 27ce2ae346c297e03447878f1310d1246ef563c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:48 +0000
Subject: [PATCH 11/11] fix: double-doubles with a denormal second part are
 denormal

`is_denormal` checked the first part twice.
---
 src/ppc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppc.rs b/src/ppc.rs
index 3aadb2f..fd7039b 100644
--- a/src/ppc.rs
+++ b/src/ppc.rs
@@ -440,7 +440,7 @@ where
 
     fn is_denormal(self) -> bool {
         self.category() == Category::Normal
-            && (self.0.is_denormal() || self.0.is_denormal() ||
+            && (self.0.is_denormal() || self.1.is_denormal() ||
           // (double)(Hi + Lo) == Hi defines a normal number.
           self.0 !=  (self.0 + self.1).value)
     }
-- 
2.43.0


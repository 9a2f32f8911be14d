From 27bbd0af985287fb8c970e59c95e4659a15e002c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 1/9] fix: rotating by more than 256 bits no longer panics with
 the native intrinsics

rol3/ror3 computed '256 - b' before masking, so rotate_left and
rotate_right panicked in debug builds for every amount above 256, unlike
the LLVM intrinsics and the standard library's rotations.
---
 src/intrinsics/native/rot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intrinsics/native/rot.rs b/src/intrinsics/native/rot.rs
index 8a584bc..0f643f9 100644
--- a/src/intrinsics/native/rot.rs
+++ b/src/intrinsics/native/rot.rs
@@ -6,10 +6,10 @@ use core::mem::MaybeUninit;
 
 #[inline]
 pub fn rol3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a << (b & 0xff)) | (a >> ((256 - b) & 0xff)));
+    r.write((a << (b & 0xff)) | (a >> (256_u32.wrapping_sub(b) & 0xff)));
 }
 
 #[inline]
 pub fn ror3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a >> (b & 0xff)) | (a << ((256 - b) & 0xff)));
+    r.write((a >> (b & 0xff)) | (a << (256_u32.wrapping_sub(b) & 0xff)));
 }
-- 
2.43.0


From e8f01a1966ef45c0607594c29f82416141fb06e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 2/9] fix: compressed byte serialization of I256 values
 round-trips

Positive values whose leading byte had its top bit set were serialized
without a sign bit (128 as [0x80]) and came back negative, and the big
endian deserializer sign-extended from the last, least significant, byte
(-256 came back as 65280).
---
 src/serde.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..9fda865 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -473,7 +473,10 @@ pub mod compressed_bytes {
         fn leading_bits(&self) -> u32 {
             match self.is_negative() {
                 true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+                // Keep a zero sign bit in front of positive values, otherwise they
+                // would be sign-extended to a negative value when deserialized.
+                false if *self == 0 => Self::BITS,
+                false => self.leading_zeros() - 1,
             }
         }
 
@@ -493,7 +496,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, $msb:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -538,7 +541,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -594,7 +597,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, last, |l| { ..32 - l }, |l| { ..l });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -602,7 +605,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, first, |l| { l.. }, |l| { 32 - l.. });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0


From 80ab24f088070976deb89bd5efff46acde1917b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 3/9] fix: converting an infinite f32 to a 256-bit integer
 saturates

The exponent of an infinite f32 is 128, which is within the range of the
256-bit integers, so infinities converted to 2^128 instead of MAX/MIN.
---
 src/int/convert.rs  | 2 +-
 src/uint/convert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int/convert.rs b/src/int/convert.rs
index a013240..4b7e9d8 100644
--- a/src/int/convert.rs
+++ b/src/int/convert.rs
@@ -141,7 +141,7 @@ macro_rules! impl_as_i256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         (I256::from(mantissa >> (M - exponent))) * sign
-                    } else if exponent < 255 {
+                    } else if exponent < 255 && abs.is_finite() {
                         (I256::from(mantissa) << (exponent - M)) * sign
                     } else if sign > 0 {
                         I256::MAX
diff --git a/src/uint/convert.rs b/src/uint/convert.rs
index da2bdd3..b543081 100644
--- a/src/uint/convert.rs
+++ b/src/uint/convert.rs
@@ -142,7 +142,7 @@ macro_rules! impl_as_u256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         U256::from(mantissa >> (M - exponent))
-                    } else if exponent < 256 {
+                    } else if exponent < 256 && self.is_finite() {
                         U256::from(mantissa) << (exponent - M)
                     } else {
                         U256::MAX
-- 
2.43.0


From 72d77ae877ff3c59c0d08a214a2c60844335fd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 4/9] fix: carry between words in compile-time parsing of
 prefixed strings

The carry out of the low word was reported as an overflow of the integer
type, so int!/uint!/const_from_str_prefixed rejected some values that fit,
such as 680564733841876927074323167453212835839.
---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..3c25414 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,8 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From e3f143803ba4b4998047a8b2dbd4695ceca09451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 5/9] fix: mask overflowing shift amounts in release builds

The intrinsics require a shift amount below 256, but without debug
assertions the shift operators passed theirs through unchecked, so with
the native intrinsics 'U256::ONE << 256' was 2^128 while the LLVM
intrinsics (and primitive integers) mask the amount.
---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From f1f34d2598898e722089499a1d76e82c975b2c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 6/9] fix: widen the ranges of ctlz and cttz in the generated
 LLVM IR

The 256-bit functions kept the 128-bit range(i32 0, 129) return attribute,
which made every count above 128 poison.
---
 intrinsics/build/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intrinsics/build/main.rs b/intrinsics/build/main.rs
index 3df9168..d744812 100644
--- a/intrinsics/build/main.rs
+++ b/intrinsics/build/main.rs
@@ -40,6 +40,7 @@ fn main() -> Result<(), Box<dyn Error>> {
         let source = template
             .replace("i128", "i256")
             .replace(" 127", " 255")
+            .replace(" 129)", " 257)")
             .replace("dereferenceable(16)", "dereferenceable(32)");
 
         let path = out_dir.join("intrinsics.ll");
-- 
2.43.0


From 8e424ac889fb8d7fca88439b00737056a42960bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 7/9] Allow compiling the crate with the Kani verifier
 (cfg(kani))

---
 src/error.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index be09e79..cbd80d6 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,6 +1,8 @@
 //! Module with hacks for creating error variants for standard library errors
 //! without public interfaces.
 
+#![allow(unexpected_cfgs)] // `cfg(kani)` is only set when verifying the crate.
+
 use core::{
     mem,
     num::{IntErrorKind, ParseIntError, TryFromIntError},
@@ -12,10 +14,20 @@ pub const fn pie(kind: IntErrorKind) -> ParseIntError {
 }
 
 /// Returns a `TryFromIntError`.
+#[cfg(not(kani))]
 pub const fn tfie() -> TryFromIntError {
     unsafe { mem::transmute(()) }
 }
 
+/// Returns a `TryFromIntError`.
+///
+/// Only used when verifying the crate with Kani, whose toolchain has a
+/// `TryFromIntError` that is no longer zero-sized.
+#[cfg(kani)]
+pub fn tfie() -> TryFromIntError {
+    u8::try_from(-1).unwrap_err()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From eaf8579abdea541b77985ecaeba3f21ad3ee6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 8/9] fix: Euclidean div_rem of a negative dividend by
 I256::MIN

The absolute value of I256::MIN does not fit I256, so subtracting the
remainder from it panicked in debug builds, in every *div_rem_euclid method,
although the result itself is representable.
---
 src/int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..a95ed16 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -538,7 +538,7 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
+            remainder = abs_divisor.as_i256().wrapping_sub(remainder);
             // cannot overflow
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
-- 
2.43.0


From 30133116fd8176c42cec1b862d22aa4a10a7610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 9/9] fix: div_euclid and rem_euclid panic on overflow as
 documented

I256::MIN.div_euclid(-1) silently returned I256::MIN.
---
 src/int/api.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/int/api.rs b/src/int/api.rs
index 593af39..7df3dc8 100644
--- a/src/int/api.rs
+++ b/src/int/api.rs
@@ -1889,6 +1889,10 @@ impl I256 {
                   without modifying the original"]
     #[inline]
     pub fn div_euclid(self, rhs: Self) -> Self {
+        if self == Self::MIN && rhs == -1 {
+            panic!("attempt to divide with overflow");
+        }
+
         let q = self / rhs;
         if self % rhs < 0 {
             return if rhs > 0 { q - 1 } else { q + 1 };
@@ -1925,6 +1929,10 @@ impl I256 {
                   without modifying the original"]
     #[inline]
     pub fn rem_euclid(self, rhs: Self) -> Self {
+        if self == Self::MIN && rhs == -1 {
+            panic!("attempt to calculate the remainder with overflow");
+        }
+
         let r = self % rhs;
         if r < 0 {
             if rhs < 0 {
-- 
2.43.0


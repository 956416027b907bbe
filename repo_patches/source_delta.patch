From 9c99cb4a0ab20b6d22af7b1c754e9ad38c187c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:00 +0000
Subject: [PATCH 01/14] verification hook: build TryFromIntError without
 transmute under cfg(ethnum_verif)

---
 src/error.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index be09e79..47128ca 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -1,6 +1,9 @@
 //! Module with hacks for creating error variants for standard library errors
 //! without public interfaces.
 
+// For the guard of the verification hook below.
+#![allow(unexpected_cfgs)]
+
 use core::{
     mem,
     num::{IntErrorKind, ParseIntError, TryFromIntError},
@@ -12,10 +15,18 @@ pub const fn pie(kind: IntErrorKind) -> ParseIntError {
 }
 
 /// Returns a `TryFromIntError`.
+#[cfg(not(ethnum_verif))]
 pub const fn tfie() -> TryFromIntError {
     unsafe { mem::transmute(()) }
 }
 
+// Verification hook: compilers with another `TryFromIntError` layout (such as the nightly that runs
+// Miri) reject the `transmute` above, so obtain the error from the standard library instead.
+#[cfg(ethnum_verif)]
+pub fn tfie() -> TryFromIntError {
+    u8::try_from(-1i8).unwrap_err()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 570156d3cbe3c5b85a8a13a836a0a82bdeaca232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 02/14] fix: mask out-of-range shift amounts when debug
 assertions are off

---
 src/macros/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index e735359..2c8b718 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -269,7 +269,7 @@ macro_rules! __impl_ops_shift {
                 }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
-                $op3(&mut result, self, rhs);
+                $op3(&mut result, self, rhs & 0xff);
 
                 unsafe { result.assume_init() }
             }
@@ -457,7 +457,7 @@ macro_rules! __impl_ops_shift_assign {
             fn $method(&mut self, rhs: u32) {
                 #[cfg(not(debug_assertions))]
                 {
-                    $op2(self, rhs);
+                    $op2(self, rhs & 0xff);
                 }
                 #[cfg(debug_assertions)]
                 {
-- 
2.43.0


From 4254eb06ae766c40c369f09211ba4b6c8aa07a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 03/14] fix: rotate by amounts above 256 without overflowing a
 subtraction

---
 src/intrinsics/native/rot.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intrinsics/native/rot.rs b/src/intrinsics/native/rot.rs
index 8a584bc..7405cd4 100644
--- a/src/intrinsics/native/rot.rs
+++ b/src/intrinsics/native/rot.rs
@@ -6,10 +6,10 @@ use core::mem::MaybeUninit;
 
 #[inline]
 pub fn rol3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a << (b & 0xff)) | (a >> ((256 - b) & 0xff)));
+    r.write((a << (b & 0xff)) | (a >> (b.wrapping_neg() & 0xff)));
 }
 
 #[inline]
 pub fn ror3(r: &mut MaybeUninit<U256>, a: &U256, b: u32) {
-    r.write((a >> (b & 0xff)) | (a << ((256 - b) & 0xff)));
+    r.write((a >> (b & 0xff)) | (a << (b.wrapping_neg() & 0xff)));
 }
-- 
2.43.0


From 732572079c51c0bfc0d747c0b1323b0f6bdef4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 04/14] fix: saturate when converting an infinite f32 to a
 256-bit integer

---
 src/int/convert.rs  | 2 +-
 src/uint/convert.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int/convert.rs b/src/int/convert.rs
index a013240..400672b 100644
--- a/src/int/convert.rs
+++ b/src/int/convert.rs
@@ -141,7 +141,7 @@ macro_rules! impl_as_i256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         (I256::from(mantissa >> (M - exponent))) * sign
-                    } else if exponent < 255 {
+                    } else if exponent < 255 && self.is_finite() {
                         (I256::from(mantissa) << (exponent - M)) * sign
                     } else if sign > 0 {
                         I256::MAX
diff --git a/src/uint/convert.rs b/src/uint/convert.rs
index da2bdd3..b543081 100644
--- a/src/uint/convert.rs
+++ b/src/uint/convert.rs
@@ -142,7 +142,7 @@ macro_rules! impl_as_u256_float {
                     let mantissa = (bits & MAN_MASK) | MAN_ONE;
                     if exponent <= M {
                         U256::from(mantissa >> (M - exponent))
-                    } else if exponent < 256 {
+                    } else if exponent < 256 && self.is_finite() {
                         U256::from(mantissa) << (exponent - M)
                     } else {
                         U256::MAX
-- 
2.43.0


From 212b725b9732ead1ec33899c29291fe8358a3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 05/14] fix: round U256::as_f64 to nearest instead of rounding
 each word

---
 src/uint.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/uint.rs b/src/uint.rs
index 3a1e89f..df8132a 100644
--- a/src/uint.rs
+++ b/src/uint.rs
@@ -269,11 +269,23 @@ impl U256 {
     /// Cast to a primitive `f64`.
     #[inline]
     pub fn as_f64(self) -> f64 {
-        // NOTE: Binary representation of 2**128. This is used because `powi` is
-        // neither `const` nor `no_std`.
-        const HI: u64 = 0x47f0000000000000;
-        let (hi, lo) = self.into_words();
-        (hi as f64) * f64::from_bits(HI) + (lo as f64)
+        match self.into_words() {
+            (0, lo) => lo as _,
+            (hi, lo) => {
+                // Round only once: keep the 128 most significant bits, and
+                // record whether any bit below them is set in the last one.
+                let shift = hi.leading_zeros();
+                let top = match shift {
+                    0 => hi,
+                    _ => (hi << shift) | (lo >> (128 - shift)),
+                };
+                let sticky = ((lo << shift) != 0) as u128;
+                // NOTE: Binary representation of 2**(128 - shift). This is used
+                // because `powi` is neither `const` nor `no_std`.
+                let scale = f64::from_bits(((1023 + 128 - shift) as u64) << 52);
+                ((top | sticky) as f64) * scale
+            }
+        }
     }
 
     /// Performs integer and division and returns the quotient and the remainder as a tuple. This is faster than computing the quotient and remainder separately.
-- 
2.43.0


From 5e4428ed09f64ce4753f835e026339199b1010fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 06/14] fix: do not round twice in I256::as_f32

---
 src/int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index ff9d35d..c04b50b 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -263,7 +263,8 @@ impl I256 {
     /// Cast to a primitive `f32`.
     #[inline]
     pub fn as_f32(self) -> f32 {
-        self.as_f64() as _
+        let sign = self.signum128() as f32;
+        self.unsigned_abs().as_f32() * sign
     }
 
     /// Cast to a primitive `f64`.
-- 
2.43.0


From c08aed43245c866e938f55672afa520b024185b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 07/14] fix: carry into the high word when parsing integer
 literals

---
 src/parse.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index dca813c..3c25414 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -158,9 +158,8 @@ pub(crate) const fn const_from_str_prefixed(bytes: &[u8], start: usize) -> U256
         let (hi, overflow) = hi.overflowing_mul(r);
         check(overflow);
 
-        let (lo, overflow) = ll.overflowing_add(lh << 64);
-        check(overflow);
-        let (hi, overflow) = hi.overflowing_add(lh >> 64);
+        let (lo, carry) = ll.overflowing_add(lh << 64);
+        let (hi, overflow) = hi.overflowing_add((lh >> 64) + carry as u128);
         check(overflow);
 
         U256::from_words(hi, lo)
-- 
2.43.0


From 1e510ba81fa353423e7f8b02ba21e55de2898673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 08/14] fix: euclidean division of negative dividends by
 I256::MIN

---
 src/int.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index c04b50b..e8fc7cc 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -539,8 +539,8 @@ impl I256 {
 
         let adjust_remainder = dividend_sign && remainder != 0;
         if adjust_remainder {
-            remainder = abs_divisor.as_i256() - remainder;
-            // cannot overflow
+            // wraps for `rhs == I256::MIN`, whose absolute value is 2^255
+            remainder = abs_divisor.as_i256().wrapping_sub(remainder);
         }
         if remainder.is_negative() || remainder.as_u256() >= abs_divisor {
             debug_assert!(false);
-- 
2.43.0


From 06b6e9a4693760cef62eb24b790ec2b3a489ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 09/14] fix: reject negative numbers when permissively
 deserializing U256

---
 src/serde.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2df9aff..dc9548e 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -197,18 +197,26 @@ pub mod permissive {
 
     #[doc(hidden)]
     pub trait Permissive: Prefixed {
-        fn cast(value: I256) -> Self;
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error;
     }
 
     impl Permissive for I256 {
-        fn cast(value: I256) -> Self {
-            value
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            Ok(value)
         }
     }
 
     impl Permissive for U256 {
-        fn cast(value: I256) -> Self {
-            value.as_u256()
+        fn cast<E>(value: I256) -> Result<Self, E>
+        where
+            E: de::Error,
+        {
+            U256::try_from(value).map_err(de::Error::custom)
         }
     }
 
@@ -237,28 +245,28 @@ pub mod permissive {
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_i128<E>(self, v: i128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_u128<E>(self, v: u128) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
-            Ok(T::cast(v.as_i256()))
+            T::cast(v.as_i256())
         }
 
         fn visit_f32<E>(self, v: f32) -> Result<Self::Value, E>
@@ -299,7 +307,7 @@ pub mod permissive {
                 ));
             }
 
-            Ok(T::cast(i.as_i256()))
+            T::cast(i.as_i256())
         }
 
         fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
-- 
2.43.0


From ea5af409cca3cdd5dd7e5a35d594329a0a0da287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 10/14] fix: keep the sign bit when compressing positive I256
 values

---
 src/serde.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde.rs b/src/serde.rs
index dc9548e..2177949 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -481,7 +481,11 @@ pub mod compressed_bytes {
         fn leading_bits(&self) -> u32 {
             match self.is_negative() {
                 true => self.leading_ones() - 1,
-                false => self.leading_zeros(),
+                // Leave room for the sign bit, except for 0 which has no bytes.
+                false => match self.leading_zeros() {
+                    256 => 256,
+                    zeros => zeros - 1,
+                },
             }
         }
 
-- 
2.43.0


From b77814008365e324c83b0ce029610198a5d576e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 11/14] fix: sign-extend compressed big-endian bytes from the
 first byte

---
 src/serde.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 2177949..e365ea7 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -505,7 +505,7 @@ pub mod compressed_bytes {
     }
 
     macro_rules! endianness {
-        ($name:literal; $parent:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
+        ($name:literal; $parent:ident, $msb:ident, |$tb:ident| $to:block, |$fb:ident| $from:block) => {
             use super::CompressedBytes;
             use crate::serde::bytes::$parent::Bytes;
             use core::{
@@ -550,7 +550,7 @@ pub mod compressed_bytes {
                         return Err(E::invalid_length(v.len(), &self));
                     }
 
-                    let extend = T::extend(v.last().copied().unwrap_or_default());
+                    let extend = T::extend(v.$msb().copied().unwrap_or_default());
                     let mut bytes = [extend; 32];
                     let $fb = v.len();
                     let index = { $from };
@@ -606,7 +606,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod le {
-        endianness!("little"; le, |l| { ..32 - l }, |l| { ..l });
+        endianness!("little"; le, last, |l| { ..32 - l }, |l| { ..l });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::be")]`
@@ -614,7 +614,7 @@ pub mod compressed_bytes {
     /// integer types. This will serialize integer types with as few bytes as
     /// possible.
     pub mod be {
-        endianness!("big"; be, |l| { l.. }, |l| { 32 - l.. });
+        endianness!("big"; be, first, |l| { l.. }, |l| { 32 - l.. });
     }
 
     /// Module for `#[serde(with = "ethnum::serde::compressed_bytes::ne")]`
-- 
2.43.0


From caee24a53a817eda22fa2aa2e010b35f309bbd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 12/14] fix: derive format buffer pointers from the whole
 buffer

---
 src/fmt.rs   | 7 ++-----
 src/serde.rs | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fmt.rs b/src/fmt.rs
index 730e159..c265cb9 100644
--- a/src/fmt.rs
+++ b/src/fmt.rs
@@ -35,10 +35,7 @@ pub(crate) trait GenericRadix: Sized {
         // SAFETY: The only chars in `buf` are created by `Self::digit` which are assumed to be
         // valid UTF-8
         let buf = unsafe {
-            str::from_utf8_unchecked(slice::from_raw_parts(
-                &buf[0] as *const _ as *const u8,
-                buf.len(),
-            ))
+            str::from_utf8_unchecked(slice::from_raw_parts(buf.as_ptr().cast(), buf.len()))
         };
         f.pad_integral(is_nonnegative, Self::PREFIX, buf)
     }
@@ -91,7 +88,7 @@ pub(crate) fn fmt_u256(mut n: U256, is_nonnegative: bool, f: &mut fmt::Formatter
     // 2^256 is about 1*10^78, so 79 gives an extra byte of space
     let mut buf = [MaybeUninit::<u8>::uninit(); 79];
     let mut curr = buf.len() as isize;
-    let buf_ptr = &mut buf[0] as *mut _ as *mut u8;
+    let buf_ptr: *mut u8 = buf.as_mut_ptr().cast();
     let lut_ptr = DEC_DIGITS_LUT.as_ptr();
 
     // SAFETY: Since `d1` and `d2` are always less than or equal to `198`, we
diff --git a/src/serde.rs b/src/serde.rs
index e365ea7..4d03232 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -687,7 +687,7 @@ impl<const N: usize> FormatBuffer<N> {
         // SAFETY: We only ever write valid UTF-8 strings to the buffer, so the
         // resulting string will always be valid.
         unsafe {
-            let buffer = slice::from_raw_parts(self.buffer[0].as_ptr(), self.offset);
+            let buffer = slice::from_raw_parts(self.buffer.as_ptr().cast(), self.offset);
             str::from_utf8_unchecked(buffer)
         }
     }
@@ -724,7 +724,7 @@ impl<const N: usize> Write for FormatBuffer<N> {
         // overlap with `buffer` because we have a mutable reference to `self`
         // and by extension `buffer`).
         unsafe {
-            let buffer = self.buffer[0].as_mut_ptr().add(self.offset);
+            let buffer = self.buffer.as_mut_ptr().cast::<u8>().add(self.offset);
             ptr::copy_nonoverlapping(s.as_ptr(), buffer, s.len());
         }
         self.offset = end;
-- 
2.43.0


From 89b70f2e67cda6e2c10bcb5ab74b289e71630faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 13/14] fix: widen the result range of the bit counting
 intrinsics

---
 intrinsics/build/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/intrinsics/build/main.rs b/intrinsics/build/main.rs
index 3df9168..a6d3d92 100644
--- a/intrinsics/build/main.rs
+++ b/intrinsics/build/main.rs
@@ -40,6 +40,7 @@ fn main() -> Result<(), Box<dyn Error>> {
         let source = template
             .replace("i128", "i256")
             .replace(" 127", " 255")
+            .replace(" 0, 129)", " 0, 257)")
             .replace("dereferenceable(16)", "dereferenceable(32)");
 
         let path = out_dir.join("intrinsics.ll");
-- 
2.43.0


From 10102d92886aab360fd4be48dd4775d0edc46dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 14/14] fix: panic when dividing I256::MIN by -1

---
 src/int.rs        |  4 ++--
 src/macros/ops.rs | 51 ++++++++++++++++++++++++++++++++++++++---------
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index e8fc7cc..67de857 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -278,7 +278,7 @@ impl I256 {
     ///
     /// # Panics
     ///
-    /// This function will panic if `rhs` is 0, and will panic on overflow iff debug assertions are enabled.
+    /// This function will panic if `rhs` is 0 or the division results in overflow.
     ///
     /// # Examples
     ///
@@ -308,7 +308,7 @@ impl I256 {
     ///
     /// # Panics
     ///
-    /// This function will panic if `rhs` is 0, and will panic on overflow iff debug assertions are enabled.
+    /// This function will panic if `rhs` is 0 or the division results in overflow.
     ///
     /// # Examples
     ///
diff --git a/src/macros/ops.rs b/src/macros/ops.rs
index 2c8b718..9c8d240 100644
--- a/src/macros/ops.rs
+++ b/src/macros/ops.rs
@@ -30,10 +30,11 @@ macro_rules! impl_ops {
             for $int | $prim
 
             impl Div {
-                / div => $div3; "divide by zero"
+                / div => $div3; "divide by zero", "divide with overflow"
             }
             impl Rem {
-                % rem => $rem3; "calculate the remainder with a divisor of zero"
+                % rem => $rem3; "calculate the remainder with a divisor of zero",
+                    "calculate the remainder with overflow"
             }
         }
 
@@ -77,20 +78,25 @@ macro_rules! impl_ops {
             impl AddAssign {
                 += add_assign => $add2, +;
             }
-            impl DivAssign {
-                /= div_assign => $div2, /;
-            }
             impl MulAssign {
                 *= mul_assign => $mul2, *;
             }
-            impl RemAssign {
-                %= rem_assign => $rem2, %;
-            }
             impl SubAssign {
                 -= sub_assign => $sub2, -;
             }
         }
 
+        __impl_ops_divmod_assign! {
+            for $int | $prim
+
+            impl DivAssign {
+                /= div_assign => /;
+            }
+            impl RemAssign {
+                %= rem_assign => %;
+            }
+        }
+
         __impl_ops_shift_assign! {
             for $int
 
@@ -224,7 +230,7 @@ macro_rules! __impl_ops_divmod {
         for $int:ident | $prim:ident
         $(
             impl $op:ident {
-                $x:tt $method:ident => $op3:path; $msg:expr
+                $x:tt $method:ident => $op3:path; $msg:expr, $overflow_msg:expr
             }
         )*
     ) => {$(
@@ -236,6 +242,11 @@ macro_rules! __impl_ops_divmod {
                 if *rhs == 0 {
                     panic!(concat!("attempt to ", $msg));
                 }
+                // Like for primitive integers, `MIN / -1` overflows regardless
+                // of whether or not debug assertions are enabled.
+                if $int::MIN != 0 && *self == $int::MIN && !*rhs == 0 {
+                    panic!(concat!("attempt to ", $overflow_msg));
+                }
 
                 let mut result = ::core::mem::MaybeUninit::uninit();
                 $op3(&mut result, self, rhs);
@@ -412,6 +423,28 @@ macro_rules! __impl_ops_binop_assign {
     )*};
 }
 
+macro_rules! __impl_ops_divmod_assign {
+    (
+        for $int:ident | $prim:ident
+        $(
+            impl $op:ident {
+                $x:tt $method:ident => $y:tt;
+            }
+        )*
+    ) => {$(
+        impl ::core::ops::$op<&'_ $int> for $int {
+            #[inline]
+            fn $method(&mut self, rhs: &'_ $int) {
+                *self = &*self $y rhs;
+            }
+        }
+
+        __impl_ops_binop_assign_extra_variants! {
+            impl $op for $int | $prim { $method = $x }
+        }
+    )*};
+}
+
 macro_rules! __impl_ops_binop_assign_extra_variants {
     (
         impl $op:ident for $int:ident | $prim:ident { $method:ident = $x:tt }
-- 
2.43.0


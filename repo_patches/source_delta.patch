From 35e8c48892c756e8d9710dd9ad212d74aceacd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:06 +0000
Subject: [PATCH 01/12] fix: subtracting a two-digit value from a decimal
 number kept too few digits

The number of digits returned by sub_assign_digit() is relative to the slice
passed in, which starts at the second digit. Also report underflow when the
number has no second digit, instead of failing on the slice.
---
 src/ubig/ops.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..1f66e33 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -863,9 +863,12 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         {
             let (high, low) = DecimalDigit::split(n);
             *self -= low;
-            match super::sub::sub_assign_digit(&mut self.digits[1..], high)
+            match super::sub::sub_assign_digit(self.digits.get_mut(1..).unwrap_or_default(), high)
             {
-                Ok(nd) => { self.digits.truncate(nd); },
+                Ok(nd) => {
+                    self.digits.truncate(1 + nd);
+                    self.drop_leading_zeros();
+                },
                 Err(err) => { panic!("Failed to subtract: {}", err); }
             }
         }
-- 
2.43.0


From 0fef427dccde9d560042b029948abe0af8384dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 02/12] fix: subtraction with borrow left leading zero digits
 in the result

---
 src/ubig/sub.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..b5a4fef 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -69,11 +69,11 @@ where T: Digit
     else if nr[0].sub_carry_assign(digit, false)
     {
         let nd = dec_assign(&mut nr[1..])?;
-        Ok(1 + nd)
+        Ok(drop_leading_zeros(nr, 1 + nd))
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
@@ -95,7 +95,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(nr0, n1 + nd))
         }
         else
         {
@@ -136,7 +136,7 @@ where T: Digit
         if carry
         {
             let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
+            Ok(drop_leading_zeros(diff, n1 + nd))
         }
         else
         {
-- 
2.43.0


From 9529be62981d5fdf5ebf9da87aabe507fd2aa78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:38 +0000
Subject: [PATCH 03/12] fix: division overflowed the estimate of a quotient
 digit

When the leading digit of the partial remainder equals that of the denominator,
the estimated quotient digit does not fit in a digit. Use the largest digit
instead, which is at most two too high as well.
---
 src/ubig/div.rs      | 8 ++++++--
 src/ubig/div/long.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..a7371a2 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -99,8 +99,12 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    let mut quot = T::MAX;
+                    if rem_high < den_high
+                    {
+                        quot = rem_low;
+                        quot.div_carry_assign(den_high, rem_high);
+                    }
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..57eb4c3 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -102,8 +102,12 @@ where T: Digit
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        q = T::MAX;
+        if num[iq+nden] < msd
+        {
+            q = num[iq+nden-1];
+            q.div_carry_assign(msd, num[iq+nden]);
+        }
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From 535781b03f45496fa151213da4370d92fa9dd69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:39 +0000
Subject: [PATCH 04/12] fix: long division stored a zero quotient digit for
 which there need not be space

---
 src/ubig/div/long.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index 57eb4c3..a26f115 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -96,7 +96,14 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
-        quot[nquot-1] = q;
+        if q.is_zero()
+        {
+            nquot -= 1;
+        }
+        else
+        {
+            quot[nquot-1] = q;
+        }
     }
 
     // Now handle the other digits
-- 
2.43.0


From 9fc9606b404e7b153925e100775c6426a71f41c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:07 +0000
Subject: [PATCH 05/12] fix: normalising the denominator of a decimal division
 could overflow

For decimal digits, the bits shifted in from the lower digits may cause the most
significant digit to overflow, and this carry was dropped. The result was a wrong
quotient for e.g. denominators with most significant digit 1.
---
 src/ubig/div.rs      | 27 +++++++++++++++++++++++----
 src/ubig/div/bz.rs   |  7 +++----
 src/ubig/div/long.rs |  2 +-
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index a7371a2..f2b47b5 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -68,6 +68,26 @@ where T: Digit
     }
 }
 
+/// Shift the number represented by the digits in `den` left such that its most significant digit
+/// is at least half the radix of the number, and return the number of bits it was shifted.
+fn normalize<T>(den: &mut [T]) -> usize
+where T: Digit
+{
+    let shift = den[den.len()-1].max_shift() as usize;
+    let carry = crate::ubig::shl::shl_carry_assign_within_digit(den, shift, T::zero());
+    if carry.is_zero()
+    {
+        shift
+    }
+    else
+    {
+        // The radix of a decimal number is not a power of two, so the bits shifted in from the less
+        // significant digits can make the number overflow.
+        crate::ubig::shr::shr_carry_assign_within_digit(den, 1, carry);
+        shift - 1
+    }
+}
+
 /// Divide the number or number part represented by the digits in `nr` by the two-digit number
 /// `fac_low + b*fac_high`, where `b` is the base of the number. Returns the numberof digits in
 /// the quotient, and the digits of the remainder.
@@ -86,13 +106,12 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
-                let (mut den_low, mut den_high) = (fac_low, fac_high);
+                let mut den = [fac_low, fac_high];
+                let shift = normalize(&mut den);
+                let [den_low, den_high] = den;
                 let mut rem_high = T::zero();
                 if shift > 0
                 {
-                    let carry = den_low.shl_carry_assign(shift, T::zero());
-                    den_high.shl_carry_assign(shift, carry);
                     rem_high = crate::ubig::shl::shl_carry_assign_within_digit(nr, shift, T::zero());
                 }
                 let mut rem_low = std::mem::replace(&mut nr[n-1], T::zero());
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..c84e67a 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,12 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = super::normalize(&mut sden);
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +57,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index a26f115..941d7c6 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -50,7 +50,7 @@ where T: Digit
         // is at least half the radix of this number. This way, estimates for the quotient digits
         // in div_big_long_scaled() are at most 2 too high.
         let mut scaled_den = den.to_vec();
-        crate::ubig::shl::shl_carry_assign_within_digit(&mut scaled_den, shift, T::zero());
+        let shift = super::normalize(&mut scaled_den);
         let num_msd = crate::ubig::shl::shl_carry_assign_within_digit(num, shift, T::zero());
         let qden = &mut work[..nden+1];
         let (nquot, nrem) = div_big_long_scaled(num, num_msd, &scaled_den, quot, qden);
-- 
2.43.0


From 35cf04721177b3d91741223146784d1107678f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 06/12] fix: failed division by zero overwrote the numerator

---
 src/ubig.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..552fc90 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -233,7 +233,11 @@ impl<T> UBig<T>
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-        if nnum < nden
+        if nden == 0
+        {
+            Err(Error::DivisionByZero)
+        }
+        else if nnum < nden
         {
             let rem = std::mem::replace(&mut self.digits, vec![]);
             Ok(Self::new(rem))
-- 
2.43.0


From 47beddba6aa6cc298c4f6441046402735effdcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:09 +0000
Subject: [PATCH 07/12] fix: shifting out all digits of a binary number
 panicked

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 1f66e33..58a4257 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -772,7 +772,7 @@ where BinaryDigit<T>: Digit
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
         if high != 0
         {
-            self.digits.drain(..high);
+            self.digits.drain(..high.min(self.nr_digits()));
         }
         if low != 0
         {
-- 
2.43.0


From b108ee91396deb6a59fd9cbaa946c8b8f9b5e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 08/12] fix: shifting a binary zero left added leading zero
 digits

---
 src/ubig/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 58a4257..6062473 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -713,7 +713,7 @@ where BinaryDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        if high != 0
+        if high != 0 && !self.is_zero()
         {
             self.digits.splice(..0, std::iter::repeat(BinaryDigit::zero()).take(high));
         }
@@ -733,7 +733,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        else
+        else if !self.is_zero()
         {
             let two = UBig::one() + UBig::one();
             let scale = two.pow(n);
-- 
2.43.0


From 06c1f81f1d23b029d95752dea6a68ad90f407e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:23 +0000
Subject: [PATCH 09/12] fix: shifting a decimal number right by many bits was
 not implemented

---
 src/ubig/ops.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 6062473..11fe2bc 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -798,10 +798,15 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.truncate(nd);
             }
         }
+        else if n / (8 * std::mem::size_of::<T>()) >= self.nr_digits()
+        {
+            self.digits.clear();
+        }
         else
         {
-            // FIXME
-            unimplemented!()
+            let two = UBig::one() + UBig::one();
+            let scale = two.pow(n);
+            *self /= scale;
         }
     }
 }
-- 
2.43.0


From 819e28f0a550d00ebc84479e85f4be44ddc9ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:25 +0000
Subject: [PATCH 10/12] fix: conversion to decimal dropped zero digits in the
 middle of a large number

---
 src/ubig.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ubig.rs b/src/ubig.rs
index 552fc90..1005514 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -336,6 +336,8 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
+                // scales[idx] is the decimal radix to the power 2^idx
+                res.digits.resize(1 << idx, DecimalDigit::zero());
                 res.digits.extend(high_dec.digits);
                 res
             }
-- 
2.43.0


From 1c53b4eccba15cda05c12b0b57ef199df8657acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 11/12] fix: text without any digits or with plus signs inside
 parsed as a number

from_str_radix(), which is called for every group of digits, accepts a plus sign
in front, and an empty string has no groups to reject.
---
 src/ubig.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 1005514..bb89d74 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -412,7 +412,7 @@ where T: DigitStorage, BinaryDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        if s.is_empty() || s == "0x" || !s.bytes().all(|c| c.is_ascii_alphanumeric())
         {
             Err(Error::InvalidNumber)
         }
@@ -449,7 +449,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        if s.is_empty() || s == "0x" || !s.bytes().all(|c| c.is_ascii_alphanumeric())
         {
             Err(Error::InvalidNumber)
         }
-- 
2.43.0


From a5096e0f13373504ccd7b1e4213784e8d78e6605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 12/12] fix: Toom-Cook squaring used stale digits in its result
 array

The evaluated polynomials are built in the result array, and shorter values are
assumed to be zero extended. When called recursively, or with a result array that
was used before, that array is not zero.
---
 src/ubig/mul/toom3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..feda549 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,6 +306,7 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
-- 
2.43.0


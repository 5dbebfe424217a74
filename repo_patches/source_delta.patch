From 0542c0a0dacac71f6f4931b3d82c8351ebf22826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 01/20] fix: stop strict magnitude comparison at the first
 differing digit

---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From 148ec9c90f5b5a29d1f91e63867999dee36028ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:48 +0000
Subject: [PATCH 02/20] fix: order two negative numbers by the reversed order
 of their magnitudes

---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From d4ff2a6ec2e4ff675d76feeecb579f80137e59c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 03/20] fix: subtract operands of opposite signs by adding
 their magnitudes

---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From 54f995684d4b0487c59bceadf527cf3ce4f0a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 04/20] fix: do not access the digits of an empty number when
 subtracting

---
 include/bignum/impl/bn_subtraction_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..211094d 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -23,6 +23,11 @@ void abs_val_sub(
         }
     #endif
 
+    // zero minus zero, there are no digits to work on
+    if (largerNum.empty()) {
+        return;
+    }
+
     typedef typename limits_t::base_single bn_single;
     typedef typename limits_t::base_double bn_double;
     
-- 
2.43.0


From f0076217bd94545d9a6eba49619a4b753bc29d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 05/20] fix: end the FFT recursion for an empty input

---
 include/bignum/impl/fourier_impl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 10ecdb3..55462a2 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -45,8 +45,7 @@ void fft_complex(cmplx_list_t<flt_t>& x) {
     const cmplx_size_t<flt_t> len = x.size();
     
     // base case
-    if (len == 1) {
-        x = cmplx_list_t<flt_t>{x[0]};
+    if (len <= 1) {
         return;
     }
 
-- 
2.43.0


From 65c025fb4d8e190f67990b990633f45d6556916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 06/20] fix: round 64-bit lengths up to a power of two

---
 include/bignum/impl/fourier_impl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 55462a2..0918f67 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -32,6 +32,7 @@ num_t nextPow2(num_t n) {
     n |= n >> 4;
     n |= n >> 8;
     n |= n >> 16;
+    n |= (n >> 16) >> 16;
     return ++n;
 }
 
-- 
2.43.0


From 3afdad98251bea63a6021d6febf7d39f6add1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 07/20] fix: double the digits of native width in double
 precision when dividing

---
 include/bignum/impl/bn_division_impl.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..943d574 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -29,10 +29,9 @@ void abs_val_div(
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_double temp = (bn_double)container[curr] * (bn_double)2 + (bn_double)carry;
+            carry = (bn_single)(temp > SINGLE_BASE_MAX ? 1 : 0);
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 8c6774d9d67c85189857819c13a5527e786cba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 08/20] fix: detect a zero divisor without digits

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..4a68530 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -657,7 +657,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (num.numData.empty() || (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN))
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
-- 
2.43.0


From 537c455c866cd5cc16c981e1ffed89ff0289afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:29 +0000
Subject: [PATCH 09/20] fix: dividing a number by an equal one gives one, not
 zero

---
 include/bignum/impl/bn_type_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 4a68530..37a5663 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -680,6 +680,10 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
+        else if (abs_val_is_eq(numData, num.numData))
+        {
+            numData = {bn_single{1}};
+        }
         else
         {
             numData = {bn_single{0}};
-- 
2.43.0


From 81fbbebe8a60b73908b8dadd4e515ff32ca2fd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 10/20] fix: store the zeros computed by addition and division
 without digits

---
 include/bignum/impl/bn_addition_impl.h | 5 +++++
 include/bignum/impl/bn_type_impl.h     | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_addition_impl.h b/include/bignum/impl/bn_addition_impl.h
index 3817928..a755832 100644
--- a/include/bignum/impl/bn_addition_impl.h
+++ b/include/bignum/impl/bn_addition_impl.h
@@ -9,6 +9,11 @@ void abs_val_add(
     container_t& outNum,
     const container_t& inNum
 ) {
+    // adding zero changes nothing, in particular no digit gets stored
+    if (inNum.empty()) {
+        return;
+    }
+
     typedef typename limits_t::base_single bn_single;
     typedef typename limits_t::base_double bn_double;
     
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 37a5663..c91dde6 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -686,7 +686,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         }
         else
         {
-            numData = {bn_single{0}};
+            numData.clear();
         }
     }
     catch(const std::exception& e) {
-- 
2.43.0


From 9641032aafdc1cc623c9288042cd38e198cb30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 11/20] fix: give zero results of arithmetic a positive sign

---
 include/bignum/impl/bn_type_impl.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c91dde6..97576ad 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -488,6 +488,9 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
+                if (numData.empty()) {
+                    descriptor = BN_POS;
+                }
                 return *this;
             }
             else {
@@ -559,6 +562,9 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
+                if (numData.empty()) {
+                    descriptor = BN_POS;
+                }
             }
             else {
                 Bignum tempNum = num;
@@ -613,6 +619,9 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
     // std::deque throws exceptions when a memory error occurs
     try {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
+        if (ret.numData.empty()) {
+            ret.descriptor = BN_POS;
+        }
         *this = std::move(ret);
     }
     catch(const std::exception& e) {
@@ -671,6 +680,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
     {
+        descriptor = BN_POS;
         return *this;
     }
 
@@ -687,6 +697,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         else
         {
             numData.clear();
+            descriptor = BN_POS;
         }
     }
     catch(const std::exception& e) {
-- 
2.43.0


From 1bd196807788fc8d5b457774b0a2ead3958f00da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 12/20] fix: construct zero without a sign and NaN or infinity
 without digits

---
 include/bignum/impl/bn_type_impl.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 97576ad..3a872cb 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -62,7 +62,8 @@ Bignum<limits_t, container_t>::Bignum(
     descriptor{desc},
     numData{}
 {
-    if (!numList.size()) {
+    // numbers which can't be computed have no digits
+    if (!isComputable(desc)) {
        return;
     }
 
@@ -91,6 +92,11 @@ Bignum<limits_t, container_t>::Bignum(
 
         numData[--outIter] = val;
     }
+
+    // there is only one zero
+    if (numData.empty()) {
+        descriptor = BN_POS;
+    }
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 7659c55e3e739c59613624e38ab7d260a869602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 13/20] fix: rethrow the caught exception instead of a sliced
 copy

---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 3a872cb..5f42c57 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -512,13 +512,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -580,13 +580,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -630,13 +630,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         }
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     return *this;
@@ -706,13 +706,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             descriptor = BN_POS;
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     return *this;
-- 
2.43.0


From 918d9bc035f44c2db77ec7af90d7654f0fb0097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 14/20] fix: print digits stored in 8-bit integers as numbers,
 not as characters

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 5f42c57..df024bb 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,7 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        ostr << (bn_u64_t)numList[iter];
     }
 
     return ostr;
-- 
2.43.0


From d72688fe3b7221bd32700495c0629aac005a84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 15/20] fix: keep NaN and infinities from turning into finite
 numbers

---
 include/bignum/impl/bn_type_impl.h | 49 +++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index df024bb..833dc9b 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -452,6 +452,24 @@ Bignum<limits_t, container_t>::operator / (const Bignum& num) const {
     return ret;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Descriptor of a sum in which at least one number isn't computable
+///////////////////////////////////////////////////////////////////////////////
+inline bn_desc_t bn_non_computable_sum(bn_desc_t a, bn_desc_t b) {
+    if (a == BN_NAN || b == BN_NAN) {
+        return BN_NAN;
+    }
+    if (a == BN_POS || a == BN_NEG) {
+        return b;
+    }
+    if (b == BN_POS || b == BN_NEG || a == b) {
+        return a;
+    }
+
+    // the two infinities cancel each other out
+    return BN_NAN;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Addition with assignment
 ///////////////////////////////////////////////////////////////////////////////
@@ -460,9 +478,9 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        descriptor = bn_non_computable_sum(descriptor, num.descriptor);
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -532,9 +550,10 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        const bn_desc_t negated = num.isInfinite() ? (num.isNegative() ? BN_POS_INF : BN_NEG_INF) : num.descriptor;
+        descriptor = bn_non_computable_sum(descriptor, negated);
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -600,9 +619,15 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        const bool anyZero = (isComputable(descriptor) && numData.empty()) || (isComputable(num.descriptor) && num.numData.empty());
+        if (isNan() || num.isNan() || anyZero) {
+            descriptor = BN_NAN;
+        }
+        else {
+            descriptor = (isNegative() != num.isNegative()) ? BN_NEG_INF : BN_POS_INF;
+        }
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
@@ -650,9 +675,17 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite())) {
+            descriptor = BN_NAN;
+        }
+        else if (isInfinite()) {
+            descriptor = (isNegative() != num.isNegative()) ? BN_NEG_INF : BN_POS_INF;
+        }
+        else {
+            descriptor = BN_POS;
+        }
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
-- 
2.43.0


From 71610119a5cb17175454454eed6a97f95485629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 16/20] fix: order infinities beyond every finite number and
 leave NaN unordered

---
 include/bignum/impl/bn_type_impl.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 833dc9b..13be06a 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -307,11 +307,22 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
     return !abs_val_is_eq<container_t>(this->numData, num.numData);
 }
         
+///////////////////////////////////////////////////////////////////////////////
+// Order of descriptors, every computable number lies between the infinities
+///////////////////////////////////////////////////////////////////////////////
+inline int bn_desc_order(bn_desc_t desc) {
+    return (desc == BN_POS_INF) ? 1 : ((desc == BN_NEG_INF) ? -1 : 0);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
  // Greater than operator
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && bn_desc_order(descriptor) > bn_desc_order(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -331,6 +342,10 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && bn_desc_order(descriptor) >= bn_desc_order(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -350,6 +365,10 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && bn_desc_order(descriptor) < bn_desc_order(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
@@ -369,6 +388,10 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && bn_desc_order(descriptor) <= bn_desc_order(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
-- 
2.43.0


From cfac728097d5a94376dda9055cdce653c52d3d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 17/20] fix: sum up the digits of a product in 64 bits

---
 include/bignum/impl/bn_multiplication_impl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..9496ddf 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,9 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr BN_UINT64 NUM_BASE = (BN_UINT64)limits_t::SINGLE_BASE_MAX+1;
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -36,9 +36,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const BN_UINT64 ci = c + (BN_UINT64)std::floor(x + 0.5);
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
         c = (ci / NUM_BASE);
-- 
2.43.0


From 917b3f44241bfec10e15e126c183349528f75f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 18/20] fix: carry in 64 bits and trim leading zeroes in the
 naive multiplication

---
 include/bignum/impl/bn_multiplication_impl.h | 23 ++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 9496ddf..30548c1 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -67,9 +67,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr BN_UINT64 NUM_BASE = (BN_UINT64)limits_t::SINGLE_BASE_MAX+1;
     
     container_t ret{};
     
@@ -81,17 +81,22 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        BN_UINT64 remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const BN_UINT64 digit = remainder + (BN_UINT64)ret[index] + (BN_UINT64)a[j] * (BN_UINT64)b[i];
+            remainder = digit / NUM_BASE;
+            ret[index] = (bn_single)(digit % NUM_BASE);
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
+    }
+    
+    // trim trailing zeroes from the most-significant digits
+    while (!ret.empty() && !ret[ret.size()-1]) {
+        ret.pop_back();
     }
     
     return ret;
-- 
2.43.0


From c00b2d24abec87ac8d5f672f4922baa475f5b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 19/20] fix: multiply digits too large for the floating-point
 transform exactly

---
 include/bignum/impl/bn_multiplication_impl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 30548c1..ac66fcb 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -20,6 +20,15 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     typedef typename container_t::size_type big_size_type;
     static constexpr BN_UINT64 NUM_BASE = (BN_UINT64)limits_t::SINGLE_BASE_MAX+1;
     
+    // Rounding to the nearest integer only recovers the digits while the sums
+    // of their products leave enough precision to the transform's error.
+    static constexpr BN_UINT64 DIGIT_MAX = (BN_UINT64)limits_t::SINGLE_BASE_MAX;
+    static constexpr BN_UINT64 MAX_FFT_DIGITS = ((BN_UINT64)1 << 41) / (DIGIT_MAX * DIGIT_MAX);
+
+    if (a.size() + b.size() > MAX_FFT_DIGITS) {
+        return mul_naive<limits_t, container_t>(a, b);
+    }
+
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
     
-- 
2.43.0


From 05351eef27b0fcf6f169a7c0737d6f0608219dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 20/20] fix: give zero divided by minus one a positive sign

---
 include/bignum/impl/bn_type_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 13be06a..f1da87f 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -737,6 +737,9 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
+        if (numData.empty()) {
+            descriptor = BN_POS;
+        }
         return *this;
     }
 
-- 
2.43.0


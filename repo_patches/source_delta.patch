From 1a08aad986e1f575c5745e79f4ad2375dd97caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 01/11] fix: compare magnitudes by value (first differing digit
 decides, leading zeroes ignored)

---
 include/bignum/bn_compare.h           | 11 +++++
 include/bignum/impl/bn_compare_impl.h | 63 +++++++++++++++++++++------
 2 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/include/bignum/bn_compare.h b/include/bignum/bn_compare.h
index 023cbfd..287645b 100644
--- a/include/bignum/bn_compare.h
+++ b/include/bignum/bn_compare.h
@@ -11,6 +11,17 @@
 
 
 
+/**
+ * Count the significant digits within a bignum's raw numerical data. Leading
+ * zeroes do not contribute to a number's value.
+ * 
+ * @param const container_type&
+ * 
+ * @return The number of digits, excluding all leading zeroes.
+ */
+template <class container_type>
+typename container_type::size_type abs_val_size(const container_type&);
+
 /**
  * Compare the raw numerical data contained within a bignum.
  * This function is not designed to compare a bignum's descriptors.
diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..9caa1a5 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -1,6 +1,20 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Number of significant digits (leading zeroes do not change a value)
+///////////////////////////////////////////////////////////////////////////////
+template <class container_type>
+typename container_type::size_type abs_val_size(const container_type& num) {
+    typename container_type::size_type i = num.size();
+
+    while (i && num[i-1] == typename container_type::value_type{0}) {
+        --i;
+    }
+
+    return i;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Equating implementation
 ///////////////////////////////////////////////////////////////////////////////
@@ -9,12 +23,15 @@ bool abs_val_is_eq(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() != num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size<container_type>(num1);
+    const typename container_type::size_type size2 = abs_val_size<container_type>(num2);
+
+    if (size1 != size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] != num2[i]) {
@@ -33,20 +50,26 @@ bool abs_val_is_gt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size<container_type>(num1);
+    const typename container_type::size_type size2 = abs_val_size<container_type>(num2);
+
+    if (size1 > size2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (size1 < size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -60,15 +83,18 @@ bool abs_val_is_ge(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size<container_type>(num1);
+    const typename container_type::size_type size2 = abs_val_size<container_type>(num2);
+
+    if (size1 > size2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (size1 < size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -90,20 +116,26 @@ bool abs_val_is_lt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size<container_type>(num1);
+    const typename container_type::size_type size2 = abs_val_size<container_type>(num2);
+
+    if (size1 < size2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (size1 > size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -117,15 +149,18 @@ bool abs_val_is_le(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size<container_type>(num1);
+    const typename container_type::size_type size2 = abs_val_size<container_type>(num2);
+
+    if (size1 < size2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (size1 > size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
-- 
2.43.0


From d09d1a7192958d2c6b9bb1269c5f092fefc2c420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 02/11] fix: order negative numbers, zeroes of either sign and
 infinities by value

---
 include/bignum/bn_type.h           | 20 +++++++++++
 include/bignum/impl/bn_type_impl.h | 56 +++++++++++++++++++++++++-----
 2 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 78cc93a..1d3e3ab 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -96,6 +96,16 @@ class Bignum final {
          */
         static bool isComputable(bn_desc_t);
     
+    /*
+     * Private helpers
+     */
+    private:
+        /**
+         * Order descriptors by infinity: -1 for a negative infinity, 1 for a
+         * positive infinity, and 0 for anything finite.
+         */
+        static int infinityOrder(bn_desc_t);
+    
     /*
      * Private member information
      */
@@ -201,6 +211,16 @@ class Bignum final {
          */
         bool isNan() const;
         
+        /**
+         * Determine if a bignum is zero, regardless of its sign and of the
+         * number of digits it is written with.
+         * 
+         * @return
+         * TRUE if the bignum is finite and has the value zero,
+         * FALSE if otherwise.
+         */
+        bool isZero() const;
+        
         /**
          * Reserve a certain amount of memory for manipulating a certain amount
          * of digits
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..8d49fa3 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -181,6 +181,14 @@ inline bool Bignum<limits_t, container_t>::isNan() const {
     return descriptor == BN_NAN;
 }
 
+///////////////////////////////////////////////////////////////////////////////
+// Determine if a bignum is zero.
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+inline bool Bignum<limits_t, container_t>::isZero() const {
+    return isComputable(descriptor) && abs_val_size<container_t>(numData) == 0;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Resize a bignum to contain a specific number of digits
 ///////////////////////////////////////////////////////////////////////////////
@@ -285,7 +293,8 @@ Bignum<limits_t, container_t>::operator[](typename container_type::size_type ite
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
     if (this->descriptor != num.descriptor) {
-        return false;
+        // positive and negative zero are the same number
+        return isZero() && num.isZero();
     }
     return abs_val_is_eq<container_t>(this->numData, num.numData);
 }
@@ -296,7 +305,8 @@ inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
     if (this->descriptor != num.descriptor) {
-        return true;
+        // positive and negative zero are the same number
+        return !(isZero() && num.isZero());
     }
     return !abs_val_is_eq<container_t>(this->numData, num.numData);
 }
@@ -306,14 +316,19 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
+    // infinities are ordered by their signs, a NaN has no order
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && infinityOrder(descriptor) > infinityOrder(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return true;
+        return !(isZero() && num.isZero());
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -325,14 +340,19 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
+    // infinities are ordered by their signs, a NaN has no order
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && infinityOrder(descriptor) >= infinityOrder(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return false;
+        return isZero() && num.isZero();
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -344,11 +364,16 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
+    // infinities are ordered by their signs, a NaN has no order
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && infinityOrder(descriptor) < infinityOrder(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return true;
+        return !(isZero() && num.isZero());
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_gt<container_t>(this->numData, num.numData);
@@ -363,14 +388,19 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
+    // infinities are ordered by their signs, a NaN has no order
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan() && infinityOrder(descriptor) <= infinityOrder(num.descriptor);
+    }
+
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return false;
+        return isZero() && num.isZero();
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -717,3 +747,11 @@ bool Bignum<limits_t, container_t>::isComputable(bn_desc_t desc) {
     
     return true;
 }
+
+///////////////////////////////////////////////////////////////////////////////
+// Relative order of infinite and finite descriptors
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+int Bignum<limits_t, container_t>::infinityOrder(bn_desc_t desc) {
+    return desc == BN_POS_INF ? 1 : (desc == BN_NEG_INF ? -1 : 0);
+}
-- 
2.43.0


From deac5534085f9d489cbaeebf78257e2e0036dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 03/11] fix: subtracting a number of the opposite sign adds the
 magnitudes

---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8d49fa3..8cd63c7 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -577,15 +577,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From 44d0039289cdb671d3ef0fee7f06ae65d75c21fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 04/11] fix: subtract magnitudes within the bounds of the
 larger number

---
 include/bignum/impl/bn_subtraction_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..48c72e2 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -35,7 +35,8 @@ void abs_val_sub(
     // borrow/carry counter
     bn_double numBorrowed = 0;
     
-    while (true) {
+    // digits of the smaller number beyond the larger one are leading zeroes
+    while (outIter < largerNum.size()) {
         // get the single digits that are to be added
         const bn_double inDigit = (inIter < smallerNum.size()) ? smallerNum[inIter] : bn_double{0};
         const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;
@@ -52,11 +53,6 @@ void abs_val_sub(
         // onto the next number
         ++outIter;
         ++inIter;
-        
-        // determine when to stop counting
-        if (outIter == largerNum.size() && inIter >= smallerNum.size()) {
-            break;
-        }
     }
     
     // pop off any remaining zeroes
-- 
2.43.0


From 89979f2ba1ff2d766cc396ee8ab245fbdf2eb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 05/11] fix: multiply exactly (no truncated or unroundable
 coefficients, zero operands)

---
 include/bignum/impl/bn_multiplication_impl.h | 47 ++++++++++++++------
 1 file changed, 33 insertions(+), 14 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..f7cd7d3 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,21 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+1;
+    
+    // the product of zero has no digits
+    if (a.empty() || b.empty()) {
+        return container_t{};
+    }
+    
+    // Coefficients beyond this limit are too large to be rounded reliably.
+    static constexpr bn_u64_t MAX_COEFFICIENT = bn_u64_t{1} << 44;
+    
+    if (a.size() + b.size() > MAX_COEFFICIENT / (NUM_BASE-1) / (NUM_BASE-1)) {
+        return mul_naive<limits_t, container_t>(a, b);
+    }
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -31,14 +43,16 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     container_t ret;
     ret.reserve(inverses.size());
 
-    for (cmplx_size_t<flt_t> i = 0, c = 0; i < inverses.size(); ++i) {
+    bn_u64_t c = 0;
+
+    for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
         // drop imaginary part of the number
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const bn_u64_t ci = c + (bn_u64_t)std::floor(x + 0.5);
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
         c = (ci / NUM_BASE);
@@ -67,9 +81,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+1;
     
     container_t ret{};
     
@@ -81,17 +95,22 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        bn_u64_t remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const bn_u64_t product = (bn_u64_t)ret[index] + remainder + (bn_u64_t)a[j] * (bn_u64_t)b[i];
+            remainder = product / NUM_BASE;
+            ret[index] = (bn_single)(product % NUM_BASE);
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
+    }
+    
+    // trim trailing zeroes from the most-significant digits
+    while (!ret.empty() && ret[ret.size()-1] == bn_single{0}) {
+        ret.pop_back();
     }
     
     return ret;
-- 
2.43.0


From 261e442a4aee513ed862f1595827db9f6a1a37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 06/11] fix: divide equal magnitudes, full-range native digits
 and by zero however it is written

---
 include/bignum/impl/bn_division_impl.h | 9 ++++-----
 include/bignum/impl/bn_type_impl.h     | 6 +++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..0e40da8 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -25,14 +25,13 @@ void abs_val_div(
         }
 
         typename container_t::size_type curr = 0;
-        typename container_t::value_type carry = 0;
+        bn_u64_t carry = 0;
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_u64_t temp = ((bn_u64_t)container[curr] * 2) + carry;
+            carry = temp > (bn_u64_t)SINGLE_BASE_MAX ? 1 : 0;
+            container[curr] = (bn_single)(temp % (bn_u64_t)SINGLE_BASE_LIMIT);
             ++curr;
         }
 
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8cd63c7..6763aae 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -687,7 +687,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (num.isZero())
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
@@ -710,6 +710,10 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
+        else if (abs_val_is_eq(numData, num.numData))
+        {
+            numData = {bn_single{1}};
+        }
         else
         {
             numData = {bn_single{0}};
-- 
2.43.0


From 1136123a04764ade0badbd36154b86c79e4b2acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 07/11] fix: arithmetic on infinite and NaN operands never
 yields a finite number

---
 include/bignum/bn_type.h           | 13 +++++
 include/bignum/impl/bn_type_impl.h | 80 +++++++++++++++++++++++++-----
 2 files changed, 81 insertions(+), 12 deletions(-)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 1d3e3ab..256c672 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -105,6 +105,19 @@ class Bignum final {
          * positive infinity, and 0 for anything finite.
          */
         static int infinityOrder(bn_desc_t);
+        
+        /**
+         * Invert the sign of a descriptor.
+         */
+        static bn_desc_t negateDescriptor(bn_desc_t);
+        
+        /**
+         * Determine the outcome of a calculation when at least one of its
+         * operands cannot be computed. The outcome is never finite.
+         */
+        static bn_desc_t sumDescriptor(bn_desc_t, bn_desc_t);
+        static bn_desc_t productDescriptor(const Bignum&, const Bignum&);
+        static bn_desc_t quotientDescriptor(const Bignum&, const Bignum&);
     
     /*
      * Private member information
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6763aae..cf8479b 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -484,9 +484,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor(sumDescriptor(descriptor, num.descriptor));
         return *this;
     }
     
@@ -553,9 +552,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor(sumDescriptor(descriptor, negateDescriptor(num.descriptor)));
         return *this;
     }
     
@@ -618,9 +616,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor(productDescriptor(*this, num));
         return *this;
     }
 
@@ -665,9 +662,8 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        setDescriptor(quotientDescriptor(*this, num));
         return *this;
     }
 
@@ -755,3 +751,63 @@ template <class limits_t, class container_t>
 int Bignum<limits_t, container_t>::infinityOrder(bn_desc_t desc) {
     return desc == BN_POS_INF ? 1 : (desc == BN_NEG_INF ? -1 : 0);
 }
+
+///////////////////////////////////////////////////////////////////////////////
+// Invert the sign of a descriptor
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+bn_desc_t Bignum<limits_t, container_t>::negateDescriptor(bn_desc_t desc) {
+    switch(desc) {
+        case BN_POS:        return BN_NEG;
+        case BN_NEG:        return BN_POS;
+        case BN_POS_INF:    return BN_NEG_INF;
+        case BN_NEG_INF:    return BN_POS_INF;
+        default:
+            break;
+    }
+    
+    return BN_NAN;
+}
+
+///////////////////////////////////////////////////////////////////////////////
+// Descriptor of a sum that has a non-computable operand
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+bn_desc_t Bignum<limits_t, container_t>::sumDescriptor(bn_desc_t a, bn_desc_t b) {
+    if (isComputable(a)) {
+        return b;
+    }
+    
+    if (isComputable(b) || a == b) {
+        return a;
+    }
+    
+    // opposing infinities, or a NaN
+    return BN_NAN;
+}
+
+///////////////////////////////////////////////////////////////////////////////
+// Descriptor of a product that has a non-computable operand
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+bn_desc_t Bignum<limits_t, container_t>::productDescriptor(const Bignum& a, const Bignum& b) {
+    if (a.isNan() || b.isNan() || a.isZero() || b.isZero()) {
+        return BN_NAN;
+    }
+    
+    return a.isNegative() == b.isNegative() ? BN_POS_INF : BN_NEG_INF;
+}
+
+///////////////////////////////////////////////////////////////////////////////
+// Descriptor of a quotient that has a non-computable operand
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+bn_desc_t Bignum<limits_t, container_t>::quotientDescriptor(const Bignum& a, const Bignum& b) {
+    // an infinity may be the result of an overflow, so nothing is known about
+    // the value of anything that gets divided by it.
+    if (a.isNan() || !isComputable(b.descriptor)) {
+        return BN_NAN;
+    }
+    
+    return a.isNegative() == b.isNegative() ? BN_POS_INF : BN_NEG_INF;
+}
-- 
2.43.0


From e7b2bc7fd4a51fc6460eb14cd1a3d198de19c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/11] fix: rethrow the original exception from compound
 assignments instead of a slice of it

---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index cf8479b..9d64ef1 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -532,13 +532,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -596,13 +596,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -642,13 +642,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     return *this;
@@ -715,13 +715,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             numData = {bn_single{0}};
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     return *this;
-- 
2.43.0


From f7e321f7ab57c8e2d3722897c1c6da2bed43aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 09/11] fix: a failed compound assignment leaves an infinity
 with the sign of its result

---
 include/bignum/impl/bn_type_impl.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 9d64ef1..7806fb4 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -533,7 +533,7 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
         }
     }
     catch(const std::exception&) {
-        // Mark the number as positive infinite as this was likely the cause of an allocation failure.
+        // Mark the number as infinite, with the sign of its result, as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
@@ -597,8 +597,8 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
     }
     catch(const std::exception&) {
-        // Mark the number as positive infinite as this was likely the cause of an allocation failure.
-        descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
+        // Mark the number as infinite, with the sign of its result, as this was likely the cause of an allocation failure.
+        descriptor = (num.descriptor == BN_POS) ? BN_NEG_INF : BN_POS_INF;
         
         numData.clear();
         
@@ -621,30 +621,32 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         return *this;
     }
 
-    Bignum ret;
+    bn_desc_t retDescriptor;
 
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        ret.descriptor = BN_NEG;
+        retDescriptor = BN_NEG;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        ret.descriptor = BN_POS;
+        retDescriptor = BN_POS;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        ret.descriptor = BN_NEG;
+        retDescriptor = BN_NEG;
     }
     else {
-        ret.descriptor = BN_POS;
+        retDescriptor = BN_POS;
     }
 
     // std::deque throws exceptions when a memory error occurs
     try {
+        Bignum ret;
+        ret.descriptor = retDescriptor;
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
     catch(const std::exception&) {
-        // Mark the number as positive infinite as this was likely the cause of an allocation failure.
-        descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
+        // Mark the number as infinite, with the sign of its result, as this was likely the cause of an allocation failure.
+        descriptor = (retDescriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
@@ -716,8 +718,8 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         }
     }
     catch(const std::exception&) {
-        // Mark the number as positive infinite as this was likely the cause of an allocation failure.
-        descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
+        // Mark the number as infinite, with the sign of its result, as this was likely the cause of an allocation failure.
+        descriptor = (descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-- 
2.43.0


From 5f9575bae5366dd21d15814e896dea929ed829d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 10/11] fix: copy assignment takes the sign only after the
 digits were copied

---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 7806fb4..d263733 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -413,8 +413,8 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
 template <class limits_t, class container_t>
 inline Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator=(const Bignum& num) {
-    descriptor = num.descriptor;
     numData = num.numData;
+    descriptor = num.descriptor;
     return *this;
 }
 
-- 
2.43.0


From ef87282c04818a5ccab7bf3f12650fcaa410ee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 11/11] fix: the BN_DEBUG underflow check rejected subtrahends
 padded with zeroes

---
 include/bignum/impl/bn_subtraction_impl.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index 48c72e2..e9646c9 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -16,9 +16,7 @@ void abs_val_sub(
     const container_t& smallerNum
 ) {
     #ifdef BN_DEBUG
-        if (largerNum.size() < smallerNum.size()
-        || abs_val_is_lt(largerNum, smallerNum)
-        ) {
+        if (abs_val_is_lt(largerNum, smallerNum)) {
             throw BNUnderflow{};
         }
     #endif
-- 
2.43.0


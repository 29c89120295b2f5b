From a0fec8d970ab5e9cf2d8a1d027152014a6e8d2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 01/26] fix: stop magnitude comparison at the first differing
 digit

abs_val_is_gt and abs_val_is_lt went on to less significant digits after a
more significant digit had already decided the order: 19 > 20 was true.
---
 include/bignum/impl/bn_compare_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index 459585e..cc45ab9 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -47,6 +47,9 @@ bool abs_val_is_gt(
         if (num1[i] > num2[i]) {
             return true;
         }
+        if (num1[i] < num2[i]) {
+            return false;
+        }
     }
     
     return false;
@@ -104,6 +107,9 @@ bool abs_val_is_lt(
         if (num1[i] < num2[i]) {
             return true;
         }
+        if (num1[i] > num2[i]) {
+            return false;
+        }
     }
     
     return false;
-- 
2.43.0


From e71ed00b93ee58556cfbcfdf6c06bc2b220e9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 02/26] fix: order two negative numbers consistently

For two negative operands > accepted equal magnitudes, and >= and <= rejected
them: -3 > -3 was true and -3 >= -3 false.
---
 include/bignum/impl/bn_type_impl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8b53407..c6cacd0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -313,7 +313,7 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_le<container_t>(this->numData, num.numData);
+        return abs_val_is_lt<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -332,7 +332,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_lt<container_t>(this->numData, num.numData);
+        return abs_val_is_le<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
@@ -370,7 +370,7 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
-        return abs_val_is_gt<container_t>(this->numData, num.numData);
+        return abs_val_is_ge<container_t>(this->numData, num.numData);
     }
     
     // compare positive vs positive
-- 
2.43.0


From ef88c3c0ac5f481168d2698b2816e3f74a1eceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 03/26] fix: subtract numbers of opposite sign by adding
 magnitudes

5 - (-3) gave 2 and -5 - 3 gave -2: the magnitudes were subtracted.
---
 include/bignum/impl/bn_type_impl.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c6cacd0..6d25a1d 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -547,15 +547,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         }
         // subtract a negative from a positive
         else if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a positive from a negative
         else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-            container_t temp = abs_val_is_gt(numData, num.numData) ? numData : num.numData;
-            abs_val_sub<limits_t, container_t>(temp, num.numData);
-            numData = std::move(temp);
+            abs_val_add<limits_t, container_t>(numData, num.numData);
         }
         // subtract a negative from a negative
         else {
-- 
2.43.0


From 1f94c9ef19315f967f33ee427c7a20eb205e059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 04/26] fix: keep magnitude subtraction inside the larger
 operand

0 - 0 read and wrote the first digit of an empty container, and a smaller
number stored with more (zero) digits sent the loop past the end.
---
 include/bignum/impl/bn_subtraction_impl.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index f29615d..415f6ea 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -35,7 +35,7 @@ void abs_val_sub(
     // borrow/carry counter
     bn_double numBorrowed = 0;
     
-    while (true) {
+    while (outIter < largerNum.size()) {
         // get the single digits that are to be added
         const bn_double inDigit = (inIter < smallerNum.size()) ? smallerNum[inIter] : bn_double{0};
         const bn_double outDigit = (largerNum[outIter]-numBorrowed)-inDigit;
@@ -52,11 +52,6 @@ void abs_val_sub(
         // onto the next number
         ++outIter;
         ++inIter;
-        
-        // determine when to stop counting
-        if (outIter == largerNum.size() && inIter >= smallerNum.size()) {
-            break;
-        }
     }
     
     // pop off any remaining zeroes
-- 
2.43.0


From 3d326cf87b4ad1a624804a82cbc95e3ab77ae56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 05/26] fix: adding zero to zero leaves no stray digit

0 + 0 was stored as one zero digit and compared unequal to zero.
---
 include/bignum/impl/bn_addition_impl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/bignum/impl/bn_addition_impl.h b/include/bignum/impl/bn_addition_impl.h
index 3817928..62ba181 100644
--- a/include/bignum/impl/bn_addition_impl.h
+++ b/include/bignum/impl/bn_addition_impl.h
@@ -12,6 +12,11 @@ void abs_val_add(
     typedef typename limits_t::base_single bn_single;
     typedef typename limits_t::base_double bn_double;
     
+    // nothing to add
+    if (inNum.empty()) {
+        return;
+    }
+    
     // numerical iterators
     typename container_t::size_type outIter = 0;
     typename container_t::size_type inIter = 0;
-- 
2.43.0


From 8c5120a670d59cd9f3250a42b4bfe558ed2d0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:23 +0000
Subject: [PATCH 06/26] fix: compare magnitudes by value when leading zero
 digits are stored

Comparisons looked at the number of stored digits first, so a number padded
with push_back(0) or resize() was greater than, and unequal to, its own value,
and dividing it went wrong.
---
 include/bignum/bn_compare.h           | 11 +++++
 include/bignum/impl/bn_compare_impl.h | 58 ++++++++++++++++++++-------
 2 files changed, 55 insertions(+), 14 deletions(-)

diff --git a/include/bignum/bn_compare.h b/include/bignum/bn_compare.h
index 023cbfd..8c7689a 100644
--- a/include/bignum/bn_compare.h
+++ b/include/bignum/bn_compare.h
@@ -11,6 +11,17 @@
 
 
 
+/**
+ * Count the digits of a bignum container without its leading zeroes.
+ * 
+ * @param const container_type&
+ * 
+ * @return The number of significant digits, 0 if the container represents the
+ * value zero.
+ */
+template <class container_type>
+typename container_type::size_type abs_val_size(const container_type&);
+
 /**
  * Compare the raw numerical data contained within a bignum.
  * This function is not designed to compare a bignum's descriptors.
diff --git a/include/bignum/impl/bn_compare_impl.h b/include/bignum/impl/bn_compare_impl.h
index cc45ab9..f57bee0 100644
--- a/include/bignum/impl/bn_compare_impl.h
+++ b/include/bignum/impl/bn_compare_impl.h
@@ -1,6 +1,21 @@
 
 
 
+///////////////////////////////////////////////////////////////////////////////
+// Number of significant digits
+///////////////////////////////////////////////////////////////////////////////
+template <class container_type>
+typename container_type::size_type abs_val_size(const container_type& num) {
+    typename container_type::size_type size = num.size();
+    
+    // digits of value zero do not count when they have the highest magnitudes
+    while (size && 0 == num[size-1]) {
+        --size;
+    }
+    
+    return size;
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 // Equating implementation
 ///////////////////////////////////////////////////////////////////////////////
@@ -9,12 +24,15 @@ bool abs_val_is_eq(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() != num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size(num1);
+    const typename container_type::size_type size2 = abs_val_size(num2);
+    
+    if (size1 != size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] != num2[i]) {
@@ -33,15 +51,18 @@ bool abs_val_is_gt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size(num1);
+    const typename container_type::size_type size2 = abs_val_size(num2);
+    
+    if (size1 > size2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (size1 < size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -63,15 +84,18 @@ bool abs_val_is_ge(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() > num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size(num1);
+    const typename container_type::size_type size2 = abs_val_size(num2);
+    
+    if (size1 > size2) {
         return true;
     }
-    if (num1.size() < num2.size()) {
+    if (size1 < size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] > num2[i]) {
@@ -93,15 +117,18 @@ bool abs_val_is_lt(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size(num1);
+    const typename container_type::size_type size2 = abs_val_size(num2);
+    
+    if (size1 < size2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (size1 > size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
@@ -123,15 +150,18 @@ bool abs_val_is_le(
     const container_type& num1,
     const container_type& num2
 ) {
-    if (num1.size() < num2.size()) {
+    const typename container_type::size_type size1 = abs_val_size(num1);
+    const typename container_type::size_type size2 = abs_val_size(num2);
+    
+    if (size1 < size2) {
         return true;
     }
-    if (num1.size() > num2.size()) {
+    if (size1 > size2) {
         return false;
     }
     
     // iterate from the numbers of greatest magnitude down to the lowest
-    typename container_type::size_type i = num1.size();
+    typename container_type::size_type i = size1;
     
     while (i--) {
         if (num1[i] < num2[i]) {
-- 
2.43.0


From 645a47d0d026a6638b9fb0fc8c44f7414d53cf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:53 +0000
Subject: [PATCH 07/26] fix: zero compares equal to zero whatever its sign

-3 + 3 is stored with a negative sign and was unequal to, and less than, 0.
---
 include/bignum/impl/bn_type_impl.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6d25a1d..6ffb964 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -285,7 +285,9 @@ Bignum<limits_t, container_t>::operator[](typename container_type::size_type ite
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
     if (this->descriptor != num.descriptor) {
-        return false;
+        // zero has no sign
+        return isComputable(descriptor) && isComputable(num.descriptor)
+            && abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0;
     }
     return abs_val_is_eq<container_t>(this->numData, num.numData);
 }
@@ -295,10 +297,7 @@ inline bool Bignum<limits_t, container_t>::operator==(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
-    if (this->descriptor != num.descriptor) {
-        return true;
-    }
-    return !abs_val_is_eq<container_t>(this->numData, num.numData);
+    return !(*this == num);
 }
         
 ///////////////////////////////////////////////////////////////////////////////
@@ -307,7 +306,7 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return true;
+        return !(abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0);
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
         return false;
@@ -329,7 +328,7 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
         return true;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return false;
+        return abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_le<container_t>(this->numData, num.numData);
@@ -348,7 +347,7 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
         return false;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
-        return true;
+        return !(abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0);
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_NEG) {
         return abs_val_is_gt<container_t>(this->numData, num.numData);
@@ -364,7 +363,7 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
-        return false;
+        return abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0;
     }
     else if (this->descriptor == BN_NEG && num.descriptor == BN_POS) {
         return true;
-- 
2.43.0


From 0a147d04253806c5ed18a8fb6a701c3945f11d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:54 +0000
Subject: [PATCH 08/26] fix: order infinities beyond every finite number

+INF was less than 5 and equal in order to -INF, because only the (empty)
digits were compared. NaN is ordered with nothing.
---
 include/bignum/bn_type.h           | 10 ++++++++++
 include/bignum/impl/bn_type_impl.h | 24 ++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/bignum/bn_type.h b/include/bignum/bn_type.h
index 78cc93a..61e3481 100644
--- a/include/bignum/bn_type.h
+++ b/include/bignum/bn_type.h
@@ -95,6 +95,16 @@ class Bignum final {
          * infinite, negative infinite, or NaN.
          */
         static bool isComputable(bn_desc_t);
+        
+        /**
+         * Order descriptors by infinity.
+         * 
+         * @param bn_desc_t
+         * 
+         * @return
+         * 1 for positive infinity, -1 for negative infinity, 0 otherwise.
+         */
+        static int infinityRank(bn_desc_t);
     
     /*
      * Private member information
diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 6ffb964..9e14d69 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -305,6 +305,10 @@ inline bool Bignum<limits_t, container_t>::operator!=(const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan()
+            && infinityRank(descriptor) > infinityRank(num.descriptor);
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return !(abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0);
     }
@@ -324,6 +328,10 @@ bool Bignum<limits_t, container_t>::operator > (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan()
+            && infinityRank(descriptor) >= infinityRank(num.descriptor);
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return true;
     }
@@ -343,6 +351,10 @@ bool Bignum<limits_t, container_t>::operator >= (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan()
+            && infinityRank(descriptor) < infinityRank(num.descriptor);
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return false;
     }
@@ -362,6 +374,10 @@ bool Bignum<limits_t, container_t>::operator < (const Bignum& num) const {
 ///////////////////////////////////////////////////////////////////////////////
 template <class limits_t, class container_t>
 bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        return !isNan() && !num.isNan()
+            && infinityRank(descriptor) <= infinityRank(num.descriptor);
+    }
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         return abs_val_size(numData) == 0 && abs_val_size(num.numData) == 0;
     }
@@ -712,3 +728,11 @@ bool Bignum<limits_t, container_t>::isComputable(bn_desc_t desc) {
     
     return true;
 }
+
+///////////////////////////////////////////////////////////////////////////////
+// Ordering of infinite numbers
+///////////////////////////////////////////////////////////////////////////////
+template <class limits_t, class container_t>
+int Bignum<limits_t, container_t>::infinityRank(bn_desc_t desc) {
+    return desc == BN_POS_INF ? 1 : (desc == BN_NEG_INF ? -1 : 0);
+}
-- 
2.43.0


From 9185f2cf18c1f26206363044ef2e64aa9f97bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 09/26] fix: a number divided by an equal one is one

7 / 7 was 0: the quotient search only ran for a strictly greater dividend.
---
 include/bignum/impl/bn_type_impl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 9e14d69..163aaa3 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -695,6 +695,10 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         {
             abs_val_div<limits_t, container_t>(numData, num.numData);
         }
+        else if (abs_val_is_eq(numData, num.numData))
+        {
+            numData = {bn_single{1}};
+        }
         else
         {
             numData = {bn_single{0}};
-- 
2.43.0


From 410b3787f44e8d25b7dd7fb34443ae7f12c4c645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 10/26] fix: a zero quotient is stored without digits

3 / 7 was stored as one zero digit, unlike every other zero.
---
 include/bignum/impl/bn_type_impl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 163aaa3..2b3dd13 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -701,7 +701,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         }
         else
         {
-            numData = {bn_single{0}};
+            numData.clear();
         }
     }
     catch(const std::exception& e) {
-- 
2.43.0


From aa1b1f2d1d8a9c7fcbd015ae07c5646c9325aa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 11/26] fix: recognise a zero divisor without digits

Zero has no digits, so x / 0 missed the check for a single zero digit and
never returned.
---
 include/bignum/impl/bn_type_impl.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 2b3dd13..dd0bfc3 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -656,8 +656,6 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    static constexpr bn_double SINGLE_BASE_MIN = bn_min_limit<bn_single>();
-    
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
@@ -672,7 +670,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == SINGLE_BASE_MIN)
+    if (abs_val_size(num.numData) == 0)
     {
         numData.clear();
         descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
@@ -684,7 +682,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (numData.empty() || (numData.size() == 1 && numData[0] == SINGLE_BASE_MIN))
+    if (abs_val_size(numData) == 0)
     {
         return *this;
     }
-- 
2.43.0


From d16abb30a6e96aec6d3e15691ff93bd0b13c8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:35 +0000
Subject: [PATCH 12/26] fix: double full-width digits in double precision
 during division

For 8, 16 and 32 bit digits the doubled digit overflowed, and the base cast to
a single digit is zero, so every division died of a division by zero.
---
 include/bignum/impl/bn_division_impl.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_division_impl.h b/include/bignum/impl/bn_division_impl.h
index ed28528..a60589d 100644
--- a/include/bignum/impl/bn_division_impl.h
+++ b/include/bignum/impl/bn_division_impl.h
@@ -29,10 +29,9 @@ void abs_val_div(
 
         while (curr < container.size())
         {
-            bn_single temp = (container[curr] * (bn_single)2) + carry;
-            container[curr] = temp;
-            carry = (bn_single)(temp > (bn_single)SINGLE_BASE_MAX ? 1 : 0);
-            container[curr] = temp % (bn_single)SINGLE_BASE_LIMIT;
+            const bn_double temp = (bn_double)((bn_double)container[curr] * (bn_double)2) + (bn_double)carry;
+            carry = (bn_single)(temp > SINGLE_BASE_MAX ? 1 : 0);
+            container[curr] = (bn_single)(temp % SINGLE_BASE_LIMIT);
             ++curr;
         }
 
-- 
2.43.0


From 40b84ea9f814c282f5035815de459f573a38ae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 13/26] fix: stop the transform of an empty list from recursing
 forever

---
 include/bignum/impl/fourier_impl.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 10ecdb3..55462a2 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -45,8 +45,7 @@ void fft_complex(cmplx_list_t<flt_t>& x) {
     const cmplx_size_t<flt_t> len = x.size();
     
     // base case
-    if (len == 1) {
-        x = cmplx_list_t<flt_t>{x[0]};
+    if (len <= 1) {
         return;
     }
 
-- 
2.43.0


From e80b9b8a68e67ae0bacc361734c93aa610f3f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 14/26] fix: round 64-bit values up to a power of two

---
 include/bignum/impl/fourier_impl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/bignum/impl/fourier_impl.h b/include/bignum/impl/fourier_impl.h
index 55462a2..f52314b 100644
--- a/include/bignum/impl/fourier_impl.h
+++ b/include/bignum/impl/fourier_impl.h
@@ -32,6 +32,12 @@ num_t nextPow2(num_t n) {
     n |= n >> 4;
     n |= n >> 8;
     n |= n >> 16;
+    
+    // types wider than 32 bits, without shifting narrower ones out of range
+    if (sizeof(num_t) > sizeof(BN_UINT32)) {
+        n |= (n >> 16) >> 16;
+    }
+    
     return ++n;
 }
 
-- 
2.43.0


From 9e12a310e9a94e4cb62a2c42ea00057fb9feb677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 15/26] fix: accumulate schoolbook products without losing
 carries

---
 include/bignum/impl/bn_multiplication_impl.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index be54d91..8488794 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -67,9 +67,9 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
 ///////////////////////////////////////////////////////////////////////////////
 template <typename limits_t, typename container_t>
 container_t mul_naive(const container_t& a, const container_t& b) {
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = (bn_double)limits_t::SINGLE_BASE_MAX+(bn_double)1;
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+(bn_u64_t)1;
     
     container_t ret{};
     
@@ -81,17 +81,18 @@ container_t mul_naive(const container_t& a, const container_t& b) {
     
     ret.resize(totalLen);
     
-    for (unsigned i = 0; i < b.size(); ++i) {
-        unsigned remainder = 0;
+    for (big_size_type i = 0; i < b.size(); ++i) {
+        bn_u64_t remainder = 0;
         
-        for (unsigned j = 0; j < a.size(); ++j) {
+        for (big_size_type j = 0; j < a.size(); ++j) {
+            // digits and their product are only as wide as they need to be, sum them up in the widest type
             const big_size_type index = i + j;
-            ret[index] += remainder + a[j] * b[i];
-            remainder = ret[index] / NUM_BASE;
-            ret[index] = ret[index] % NUM_BASE;
+            const bn_u64_t digit = (bn_u64_t)ret[index] + remainder + (bn_u64_t)a[j] * (bn_u64_t)b[i];
+            remainder = digit / NUM_BASE;
+            ret[index] = (bn_single)(digit % NUM_BASE);
         }
         
-        ret[i+a.size()] += remainder;
+        ret[i+a.size()] = (bn_single)remainder;
     }
     
     return ret;
-- 
2.43.0


From 2a235a2713b5c2bdf544762dacd4983f460c3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:54 +0000
Subject: [PATCH 16/26] fix: carry transform products in 64 bits

---
 include/bignum/impl/bn_multiplication_impl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index 8488794..cc4bd3c 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -16,9 +16,9 @@ template <typename limits_t, typename container_t>
 container_t mul_strassen(const container_t& a, const container_t& b) {
     // Default type is double. Use floats if they perform well enough.
     typedef double flt_t;
-    typedef typename limits_t::base_double bn_double;
+    typedef typename limits_t::base_single bn_single;
     typedef typename container_t::size_type big_size_type;
-    static constexpr bn_double NUM_BASE = bn_double{limits_t::SINGLE_BASE_MAX+1};
+    static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+(bn_u64_t)1;
     
 	// building a complex signal with the information of both signals.
     cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
@@ -31,17 +31,19 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     container_t ret;
     ret.reserve(inverses.size());
 
-    for (cmplx_size_t<flt_t> i = 0, c = 0; i < inverses.size(); ++i) {
+    bn_u64_t c = 0;
+
+    for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
         // drop imaginary part of the number
         const flt_t x = inverses[i].real();
         
         // round to an integer
-        const bn_double ci = (bn_double)(c + std::floor(x + 0.5));
+        const bn_u64_t ci = c + (bn_u64_t)std::floor(x + 0.5);
         
-        ret.push_back(ci % NUM_BASE);
+        ret.push_back((bn_single)(ci % NUM_BASE));
 
         // carry propagation
-        c = (ci / NUM_BASE);
+        c = ci / NUM_BASE;
     }
     
     // trim trailing zeroes from the most-significant digits
-- 
2.43.0


From b361edb188a1edf1c5979eb665b12c6663984cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 17/26] fix: multiply by hand when the transform cannot be
 exact

---
 include/bignum/impl/bn_multiplication_impl.h | 49 ++++++++++++--------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/bignum/impl/bn_multiplication_impl.h b/include/bignum/impl/bn_multiplication_impl.h
index cc4bd3c..b09c457 100644
--- a/include/bignum/impl/bn_multiplication_impl.h
+++ b/include/bignum/impl/bn_multiplication_impl.h
@@ -20,30 +20,41 @@ container_t mul_strassen(const container_t& a, const container_t& b) {
     typedef typename container_t::size_type big_size_type;
     static constexpr bn_u64_t NUM_BASE = (bn_u64_t)limits_t::SINGLE_BASE_MAX+(bn_u64_t)1;
     
-	// building a complex signal with the information of both signals.
-    cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
-    
-    convolute_fft<flt_t>(fftTable);
-    ifft_complex<flt_t>(fftTable);
-    
-    const cmplx_list_t<flt_t>& inverses = fftTable;
+    // The transform is only exact while every sum of digit products remains
+    // well within the precision of its floating-point type.
+    static constexpr bn_u64_t MAX_PRODUCT = (NUM_BASE-1) * (NUM_BASE-1);
+    static constexpr bn_u64_t MAX_SUM = (bn_u64_t)1 << 42;
     
     container_t ret;
-    ret.reserve(inverses.size());
-
-    bn_u64_t c = 0;
-
-    for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
-        // drop imaginary part of the number
-        const flt_t x = inverses[i].real();
+    
+    if (a.size() + b.size() > MAX_SUM / MAX_PRODUCT) {
+        ret = mul_naive<limits_t, container_t>(a, b);
+    }
+    else {
+        // building a complex signal with the information of both signals.
+        cmplx_list_t<flt_t> fftTable = std::move(create_fft_table<container_t, flt_t>(a, b));
+        
+        convolute_fft<flt_t>(fftTable);
+        ifft_complex<flt_t>(fftTable);
         
-        // round to an integer
-        const bn_u64_t ci = c + (bn_u64_t)std::floor(x + 0.5);
+        const cmplx_list_t<flt_t>& inverses = fftTable;
         
-        ret.push_back((bn_single)(ci % NUM_BASE));
+        ret.reserve(inverses.size());
+
+        bn_u64_t c = 0;
 
-        // carry propagation
-        c = ci / NUM_BASE;
+        for (cmplx_size_t<flt_t> i = 0; i < inverses.size(); ++i) {
+            // drop imaginary part of the number
+            const flt_t x = inverses[i].real();
+            
+            // round to an integer
+            const bn_u64_t ci = c + (bn_u64_t)std::floor(x + 0.5);
+            
+            ret.push_back((bn_single)(ci % NUM_BASE));
+
+            // carry propagation
+            c = ci / NUM_BASE;
+        }
     }
     
     // trim trailing zeroes from the most-significant digits
-- 
2.43.0


From 36e169663f980a86a2e4038954a917bc281f9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 18/26] fix: rethrow the original exception from interrupted
 arithmetic

---
 include/bignum/impl/bn_type_impl.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index dd0bfc3..c5acdf5 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -518,13 +518,13 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -583,13 +583,13 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
     
     return *this;
@@ -630,13 +630,13 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
         numData.clear();
 
-        throw e;
+        throw;
     }
 
     return *this;
@@ -702,13 +702,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             numData.clear();
         }
     }
-    catch(const std::exception& e) {
+    catch(const std::exception&) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
         numData.clear();
         
-        throw e;
+        throw;
     }
 
     return *this;
-- 
2.43.0


From 30b0919c7eb18e9f8663e7735ba4a4ddc702916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 19/26] fix: keep the old value when copy assignment fails

---
 include/bignum/impl/bn_type_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index c5acdf5..8119e96 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -398,8 +398,9 @@ bool Bignum<limits_t, container_t>::operator <= (const Bignum& num) const {
 template <class limits_t, class container_t>
 inline Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator=(const Bignum& num) {
-    descriptor = num.descriptor;
+    // the digits may fail to allocate
     numData = num.numData;
+    descriptor = num.descriptor;
     return *this;
 }
 
-- 
2.43.0


From 7b2a25cd7ce41ba5664b8aadf1ccf6dc7db70149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:20 +0000
Subject: [PATCH 20/26] fix: print the value of single-byte digits

---
 include/bignum/impl/bn_type_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 8119e96..07a0b51 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -38,7 +38,8 @@ std::ostream& operator << (std::ostream& ostr, const Bignum<limits_t, container_
     
     typename Bignum<limits_t, container_t>::container_type::size_type iter = numList.size();
     while (iter--) {
-        ostr << numList[iter];
+        // single-byte digits are not characters
+        ostr << (bn_u64_t)numList[iter];
     }
 
     return ostr;
-- 
2.43.0


From 1854f9e100bd5622c00ff89190f58e62d44c1c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:41 +0000
Subject: [PATCH 21/26] fix: a zero result is never negative

---
 include/bignum/impl/bn_type_impl.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 07a0b51..081f5b0 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -489,14 +489,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_NEG;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a positive to a negative
@@ -505,14 +503,12 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             if (abs_val_is_ge<container_t>(this->numData, num.numData)) {
                 // subtract as normal
                 abs_val_sub<limits_t, container_t>(numData, num.numData);
-                return *this;
             }
             else {
                 Bignum tempNum = num;
                 abs_val_sub<limits_t, container_t>(tempNum.numData, numData);
                 tempNum.descriptor = BN_POS;
                 *this = std::move(tempNum);
-                return *this;
             }
         }
         // add a negative to a negative
@@ -529,6 +525,11 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
         throw;
     }
     
+    // zero has no sign
+    if (abs_val_size(numData) == 0) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
@@ -594,6 +595,11 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
         throw;
     }
     
+    // zero has no sign
+    if (abs_val_size(numData) == 0) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
@@ -641,6 +647,11 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         throw;
     }
 
+    // zero has no sign
+    if (abs_val_size(numData) == 0) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
@@ -679,12 +690,13 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
-    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
+    if (abs_val_size(numData) == 0)
     {
+        descriptor = BN_POS;
         return *this;
     }
 
-    if (abs_val_size(numData) == 0)
+    if (num.numData.size() == 1 && num.numData[0] == (bn_single)1)
     {
         return *this;
     }
@@ -713,6 +725,11 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         throw;
     }
 
+    // zero has no sign
+    if (abs_val_size(numData) == 0) {
+        descriptor = BN_POS;
+    }
+    
     return *this;
 }
 
-- 
2.43.0


From 4c03df097afaff4eaad58a05436d921db4e41995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 22/26] fix: propagate infinity and NaN from either operand

---
 include/bignum/impl/bn_type_impl.h | 45 ++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 081f5b0..71179b3 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -471,9 +471,15 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isComputable(descriptor)) {
+            setDescriptor(num.descriptor);
+        }
+        else if (!isComputable(num.descriptor) && descriptor != num.descriptor) {
+            // NaN, or infinities which cancel each other out
+            setDescriptor(BN_NAN);
+        }
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -541,9 +547,15 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
     
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (num.isNan() || descriptor == num.descriptor) {
+            // NaN, or infinities which cancel each other out
+            setDescriptor(BN_NAN);
+        }
+        else if (isComputable(descriptor)) {
+            setDescriptor(num.isNegative() ? BN_POS_INF : BN_NEG_INF);
+        }
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
     
@@ -611,9 +623,16 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
-        numData.clear();
-        descriptor = num.descriptor;
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan()
+        || (isComputable(descriptor) && abs_val_size(numData) == 0)
+        || (isComputable(num.descriptor) && abs_val_size(num.numData) == 0)
+        ) {
+            setDescriptor(BN_NAN);
+        }
+        else {
+            setDescriptor(isNegative() == num.isNegative() ? BN_POS_INF : BN_NEG_INF);
+        }
         return *this;
     }
 
@@ -663,9 +682,17 @@ Bignum<limits_t, container_t>&
 Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
 
     // Make sure no unneeded calculations are performed
-    if (!isComputable(descriptor)) {
+    if (!isComputable(descriptor) || !isComputable(num.descriptor)) {
+        if (isNan() || num.isNan() || (isInfinite() && num.isInfinite())) {
+            setDescriptor(BN_NAN);
+        }
+        else if (num.isInfinite()) {
+            clear();
+        }
+        else if (num.isNegative() && abs_val_size(num.numData) != 0) {
+            setDescriptor(isNegative() ? BN_POS_INF : BN_NEG_INF);
+        }
         numData.clear();
-        descriptor = num.descriptor;
         return *this;
     }
 
-- 
2.43.0


From bdd8be60139463eecd8c536a8163d564bc4381bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:11 +0000
Subject: [PATCH 23/26] fix: the sign of a zero divisor is irrelevant

---
 include/bignum/impl/bn_type_impl.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 71179b3..7a19630 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -696,6 +696,14 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         return *this;
     }
 
+    // zero has no sign
+    if (abs_val_size(num.numData) == 0)
+    {
+        numData.clear();
+        descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
+        return *this;
+    }
+
     // subtract a negative from a positive
     if (this->descriptor == BN_POS && num.descriptor == BN_NEG) {
         descriptor = BN_NEG;
@@ -710,13 +718,6 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
         descriptor = BN_POS;
     }
 
-    if (abs_val_size(num.numData) == 0)
-    {
-        numData.clear();
-        descriptor = descriptor == BN_NEG ? BN_NEG_INF : BN_POS_INF;
-        return *this;
-    }
-
     if (abs_val_size(numData) == 0)
     {
         descriptor = BN_POS;
-- 
2.43.0


From fdb7892610a556d077e6be0f280a87d082571d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 24/26] fix: multiply narrow digit wrappers without signed
 overflow

---
 include/bignum/impl/bn_int_type_impl.h | 58 +++++++++++++-------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/include/bignum/impl/bn_int_type_impl.h b/include/bignum/impl/bn_int_type_impl.h
index a77795f..8e456f3 100644
--- a/include/bignum/impl/bn_int_type_impl.h
+++ b/include/bignum/impl/bn_int_type_impl.h
@@ -122,42 +122,44 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 
 ///////////////////////////////////////////////////////////////////////////////
 // Binary operators returning a bn_int_type type
+// 
+// Narrow types are promoted to a signed integer, in which products can overflow.
 ///////////////////////////////////////////////////////////////////////////////
-#define BN_INT_TYPE_BINARY_OP(op) \
+#define BN_INT_TYPE_BINARY_OP(op, promote) \
     template <typename numType, BN_UINT64 intId> \
     constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator op (const BNIntType<numType, intId>& bni) const { \
-        return BNIntType<numType, intId>{(numType)(num op bni.num)}; \
+        return BNIntType<numType, intId>{(numType)(promote num op bni.num)}; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator op (const numType& n) const { \
-        return BNIntType<numType, intId>{(numType)(num op n)}; \
+        return BNIntType<numType, intId>{(numType)(promote num op n)}; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator op##= (const BNIntType<numType, intId>& bni) { \
-        num op##= bni.num; \
+        num = (numType)(promote num op bni.num); \
         return *this; \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline BNIntType<numType, intId>& BNIntType<numType, intId>::operator op##= (const numType& n) { \
-        num op##= n; \
+        num = (numType)(promote num op n); \
         return *this; \
     }
     
 
     // Non-Assigned arithmetic
-    BN_INT_TYPE_BINARY_OP(+)
-    BN_INT_TYPE_BINARY_OP(-)
-    BN_INT_TYPE_BINARY_OP(*)
-    BN_INT_TYPE_BINARY_OP(/)
-    BN_INT_TYPE_BINARY_OP(%)
-    BN_INT_TYPE_BINARY_OP(&)
-    BN_INT_TYPE_BINARY_OP(|)
-    BN_INT_TYPE_BINARY_OP(^)
-    BN_INT_TYPE_BINARY_OP(>>)
-    BN_INT_TYPE_BINARY_OP(<<)
+    BN_INT_TYPE_BINARY_OP(+,)
+    BN_INT_TYPE_BINARY_OP(-,)
+    BN_INT_TYPE_BINARY_OP(*, 1u *)
+    BN_INT_TYPE_BINARY_OP(/,)
+    BN_INT_TYPE_BINARY_OP(%,)
+    BN_INT_TYPE_BINARY_OP(&,)
+    BN_INT_TYPE_BINARY_OP(|,)
+    BN_INT_TYPE_BINARY_OP(^,)
+    BN_INT_TYPE_BINARY_OP(>>,)
+    BN_INT_TYPE_BINARY_OP(<<,)
 
 #undef BN_INT_TYPE_BINARY_OP
 
@@ -187,28 +189,28 @@ constexpr BNIntType<numType, intId> BNIntType<numType, intId>::operator~() const
 ///////////////////////////////////////////////////////////////////////////////
 // R-Value Binary comparison operators
 ///////////////////////////////////////////////////////////////////////////////
-#define BN_INT_TYPE_BINARY_OP_R(op) \
+#define BN_INT_TYPE_BINARY_OP_R(op, promote) \
     template <typename numType, BN_UINT64 intId> \
     constexpr numType operator op (const numType& n, const BNIntType<numType, intId>& bni) { \
-        return n op bni.num; \
+        return (numType)(promote n op bni.num); \
     } \
     \
     template <typename numType, BN_UINT64 intId> \
     inline numType& operator op##= (numType& n, const BNIntType<numType, intId>& bni) { \
-        return n op##= bni.num; \
+        return n = (numType)(promote n op bni.num); \
     }
 
     // Non-Assigned arithmetic
-    BN_INT_TYPE_BINARY_OP_R(+)
-    BN_INT_TYPE_BINARY_OP_R(-)
-    BN_INT_TYPE_BINARY_OP_R(*)
-    BN_INT_TYPE_BINARY_OP_R(/)
-    BN_INT_TYPE_BINARY_OP_R(%)
-    BN_INT_TYPE_BINARY_OP_R(&)
-    BN_INT_TYPE_BINARY_OP_R(|)
-    BN_INT_TYPE_BINARY_OP_R(^)
-    BN_INT_TYPE_BINARY_OP_R(>>)
-    BN_INT_TYPE_BINARY_OP_R(<<)
+    BN_INT_TYPE_BINARY_OP_R(+,)
+    BN_INT_TYPE_BINARY_OP_R(-,)
+    BN_INT_TYPE_BINARY_OP_R(*, 1u *)
+    BN_INT_TYPE_BINARY_OP_R(/,)
+    BN_INT_TYPE_BINARY_OP_R(%,)
+    BN_INT_TYPE_BINARY_OP_R(&,)
+    BN_INT_TYPE_BINARY_OP_R(|,)
+    BN_INT_TYPE_BINARY_OP_R(^,)
+    BN_INT_TYPE_BINARY_OP_R(>>,)
+    BN_INT_TYPE_BINARY_OP_R(<<,)
 
 #undef BN_INT_TYPE_BINARY_OP_R
 
-- 
2.43.0


From 11bebc9d46e534ad4db2b59ac6a0ac51976d5665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 25/26] fix: debug checks accept subtrahends with leading zeros

---
 include/bignum/impl/bn_subtraction_impl.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bignum/impl/bn_subtraction_impl.h b/include/bignum/impl/bn_subtraction_impl.h
index 415f6ea..843a321 100644
--- a/include/bignum/impl/bn_subtraction_impl.h
+++ b/include/bignum/impl/bn_subtraction_impl.h
@@ -16,9 +16,7 @@ void abs_val_sub(
     const container_t& smallerNum
 ) {
     #ifdef BN_DEBUG
-        if (largerNum.size() < smallerNum.size()
-        || abs_val_is_lt(largerNum, smallerNum)
-        ) {
+        if (abs_val_is_lt(largerNum, smallerNum)) {
             throw BNUnderflow{};
         }
     #endif
-- 
2.43.0


From c1b3bd6979c63579fed4a9232ced9c7eec34035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:52 +0000
Subject: [PATCH 26/26] fix: contain every exception an allocator throws during
 arithmetic

The operators turn an allocation failure into an infinity, but only when
the exception derives from std::exception; anything else escaped with the
left operand half-way through the operation.
---
 include/bignum/impl/bn_type_impl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bignum/impl/bn_type_impl.h b/include/bignum/impl/bn_type_impl.h
index 7a19630..bfb37e4 100644
--- a/include/bignum/impl/bn_type_impl.h
+++ b/include/bignum/impl/bn_type_impl.h
@@ -522,7 +522,7 @@ Bignum<limits_t, container_t>::operator +=(const Bignum& num) {
             abs_val_add<limits_t, container_t>(numData, num.numData);
         }
     }
-    catch(const std::exception&) {
+    catch(...) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
@@ -598,7 +598,7 @@ Bignum<limits_t, container_t>::operator -=(const Bignum& num) {
             }
         }
     }
-    catch(const std::exception&) {
+    catch(...) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
@@ -657,7 +657,7 @@ Bignum<limits_t, container_t>::operator *=(const Bignum& num) {
         ret.numData = std::move(mul_strassen<limits_t, container_t>(numData, num.numData));
         *this = std::move(ret);
     }
-    catch(const std::exception&) {
+    catch(...) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
 
@@ -744,7 +744,7 @@ Bignum<limits_t, container_t>::operator /=(const Bignum& num) {
             numData.clear();
         }
     }
-    catch(const std::exception&) {
+    catch(...) {
         // Mark the number as positive infinite as this was likely the cause of an allocation failure.
         descriptor = (num.descriptor == BN_POS) ? BN_POS_INF : BN_NEG_INF;
         
-- 
2.43.0


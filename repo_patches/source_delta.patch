From 794fa026f596ff44103b1d60bb26ae683faa358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 01/35] fix: HalfSpace2SidelessCompare flips by the y signs for
 horizontal normals

---
 include/walnut/half_space2_sideless_compare.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/half_space2_sideless_compare.h b/include/walnut/half_space2_sideless_compare.h
index b3f35b9..55a602f 100644
--- a/include/walnut/half_space2_sideless_compare.h
+++ b/include/walnut/half_space2_sideless_compare.h
@@ -26,7 +26,7 @@ struct HalfSpace2SidelessCompare {
           /*flip=*/h1.x().HasDifferentSign(h2.x()), h2.d() * h1.x());
     } else {
       return (h1.d() * h2.y()).LessThan(
-          /*flip=*/h1.y().HasDifferentSign(h2.x()), h2.d() * h1.y());
+          /*flip=*/h1.y().HasDifferentSign(h2.y()), h2.d() * h1.y());
     }
   }
 };
-- 
2.43.0


From 3b4450d8602983c7425b678ef57dd0be6695ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 02/35] fix: HalfSpace3Compare scales by a norm that is never
 zero for valid planes

---
 include/walnut/half_space3.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/walnut/half_space3.h b/include/walnut/half_space3.h
index 23e75fa..9d499e7 100644
--- a/include/walnut/half_space3.h
+++ b/include/walnut/half_space3.h
@@ -278,8 +278,10 @@ std::ostream& operator<<(std::ostream& out, const HalfSpace3& p);
 // This is useful for putting `HalfSpace3`s in a std::map or std::set.
 struct HalfSpace3Compare {
   bool operator()(const HalfSpace3& a, const HalfSpace3& b) const {
-    BigInt scale_a = (b.x() + b.y() + b.z()).abs();
-    BigInt scale_b = (a.x() + a.y() + a.z()).abs();
+    // Normalize by the L1 norm, because unlike the sum of the components, it is
+    // nonzero for every valid half-space.
+    BigInt scale_a = b.x().abs() + b.y().abs() + b.z().abs();
+    BigInt scale_b = a.x().abs() + a.y().abs() + a.z().abs();
 
     return std::make_tuple(a.x().Multiply(scale_a),
                            a.y().Multiply(scale_a),
-- 
2.43.0


From 5b2e937af0465ab26314fcbb32ee5597d1752909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 03/35] fix: HomoPoint3::Get2DTwistDir with negative
 denominators

---
 src/walnut/homo_point3.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/walnut/homo_point3.cpp b/src/walnut/homo_point3.cpp
index 165ef3a..acc3fa9 100644
--- a/src/walnut/homo_point3.cpp
+++ b/src/walnut/homo_point3.cpp
@@ -99,9 +99,14 @@ BigIntWord HomoPoint3::Get2DTwistDir(int drop_dimension, const HomoPoint3& p1,
     vector_from_origin().DropDimension(drop_dimension) * p3.dist_denom();
   Vector2 p3_from_origin =
     p3.vector_from_origin().DropDimension(drop_dimension) * dist_denom();
-  return (p1_from_origin - p2_from_origin1).Cross(
-      p3_from_origin - p2_from_origin3).GetSign() ^
-    p1.dist_denom().SignExtension() ^ p3.dist_denom().SignExtension();
+  BigInt twist = (p1_from_origin - p2_from_origin1).Cross(
+      p3_from_origin - p2_from_origin3);
+  // Use negation instead of xor, because xor turns a zero twist into a nonzero
+  // one.
+  if (p1.dist_denom().HasDifferentSign(p3.dist_denom())) {
+    twist.Negate();
+  }
+  return twist.GetSign();
 }
 
 void HomoPoint3::Reduce() {
-- 
2.43.0


From 61274855b66b2a25a802b1ff691df755569e845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 04/35] fix: HomoPoint2::LexicographicallyLt with negative
 denominators

---
 include/walnut/homo_point2.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/walnut/homo_point2.h b/include/walnut/homo_point2.h
index 0928a7b..85f0616 100644
--- a/include/walnut/homo_point2.h
+++ b/include/walnut/homo_point2.h
@@ -69,8 +69,11 @@ class HomoPoint2 {
     vector_from_origin_(v), dist_denom_(w) { }
 
   static bool LexicographicallyLt(const HomoPoint2& a, const HomoPoint2& b) {
-    auto a_scaled = a.vector_from_origin() * b.dist_denom();
-    auto b_scaled = b.vector_from_origin() * a.dist_denom();
+    // a.v / a.w <?> b.v / b.w
+    // a.v * b.w <?> b.v * a.w (maybe flip sign)
+    int sign_flip = b.dist_denom().GetAbsMult(a.dist_denom());
+    auto a_scaled = a.vector_from_origin() * (b.dist_denom() * sign_flip);
+    auto b_scaled = b.vector_from_origin() * (a.dist_denom() * sign_flip);
     return std::lexicographical_compare(a_scaled.coords().begin(),
                                         a_scaled.coords().end(),
                                         b_scaled.coords().begin(),
-- 
2.43.0


From ebd5f5570bdf8f8548676a52facc3efbae318ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 05/35] fix: ConvexPolygon::operator== compares the edge data
 of vertex 0 and handles empty polygons

---
 include/walnut/convex_polygon.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/walnut/convex_polygon.h b/include/walnut/convex_polygon.h
index b6dbe36..c39215d 100644
--- a/include/walnut/convex_polygon.h
+++ b/include/walnut/convex_polygon.h
@@ -842,6 +842,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
   if (vertex_count() != other.vertex_count()) {
     return false;
   }
+  if (vertex_count() == 0) {
+    return true;
+  }
   size_t match_offset = 0;
   while (true) {
     if (match_offset == vertex_count()) {
@@ -853,7 +856,9 @@ bool ConvexPolygon<EdgeParent>::operator==(
     }
     ++match_offset;
   }
-  for (size_t i = 1, j = match_offset + 1; i < vertex_count(); ++i, ++j) {
+  // Vertex 0 is already known to match, but its edge data still has to be
+  // compared.
+  for (size_t i = 0, j = match_offset; i < vertex_count(); ++i, ++j) {
     if (vertex(i).DropDimension(drop_dimension()) !=
         other.vertex(j % vertex_count()).DropDimension(drop_dimension())) {
       return false;
-- 
2.43.0


From 39077bb3884c5559ae9e9e5e1f00825ec38e0351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:45 +0000
Subject: [PATCH 06/35] fix: AABB::GetDiagonalLength divides the length, not
 its square, by the denominator

---
 include/walnut/aabb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/aabb.h b/include/walnut/aabb.h
index 72b6535..e8d2577 100644
--- a/include/walnut/aabb.h
+++ b/include/walnut/aabb.h
@@ -166,7 +166,7 @@ class AABB {
   }
 
   double GetDiagonalLength() const {
-    return sqrt((double)GetSquaredDiagonalLengthNumerator() / (double)denom());
+    return sqrt((double)GetSquaredDiagonalLengthNumerator()) / (double)denom();
   }
 
  private:
-- 
2.43.0


From ccc2fe74986e6220ca3ba6a1165403152c56c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 07/35] fix: BigInt += and -= with the object itself as the
 operand

---
 include/walnut/big_int.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index b269f9d..4431f31 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -275,14 +275,16 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // Save this in case `other` is an alias of `this`.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Add(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Add(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Add(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Add(other_extension, carry, &carry);
@@ -347,14 +349,16 @@ class BigInt {
     BigUIntWord this_extension(SignExtension());
     BigUIntWord other_extension(other.SignExtension());
     size_t old_used_words = used_words();
-    words_.resize(std::max(old_used_words, other.used_words()) + 1);
+    // Save this in case `other` is an alias of `this`.
+    const size_t other_used_words = other.used_words();
+    words_.resize(std::max(old_used_words, other_used_words) + 1);
     for (; i < common_words; i++) {
       words_[i] = words_[i].Subtract(other.words_[i], carry, &carry);
     }
     for (; i < old_used_words; i++) {
       words_[i] = words_[i].Subtract(other_extension, carry, &carry);
     }
-    for (; i < other.used_words(); i++) {
+    for (; i < other_used_words; i++) {
       words_[i] = this_extension.Subtract(other.words_[i], carry, &carry);
     }
     words_[i] = this_extension.Subtract(other_extension, carry, &carry);
-- 
2.43.0


From f384e66fc07492758cf89dbe50f1adf965f52ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 08/35] fix: BigInt ++ and -- when the number of words changes

---
 include/walnut/big_int.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 4431f31..ea6e9e6 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -319,13 +319,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       ++words_[i];
       if (words_[i] != 0) {
+        Trim();
         return *this;
       }
     }
     ++words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::min()) {
-      ++i;
-      ++words_[i] = 0;
+      words_.push_back(BigUIntWord{0});
     } else {
       Trim();
     }
@@ -394,14 +394,13 @@ class BigInt {
     for (; i < used_words() - 1; i++) {
       --words_[i];
       if ((BigIntWord)words_[i] != -1) {
+        Trim();
         return *this;
       }
     }
     --words_[i];
     if ((BigIntWord)words_[i] == std::numeric_limits<BigIntWord>::max()) {
-      words_.resize(used_words() + 1);
-      ++i;
-      ++words_[i] = (BigIntWord)-1;
+      words_.push_back(BigUIntWord{-1});
     } else {
       Trim();
     }
-- 
2.43.0


From 4c80be426cf0a566ad1e32a6b509e72e3939d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 09/35] fix: BigInt::abs of the smallest single word value

---
 include/walnut/big_int.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index ea6e9e6..189e795 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -732,7 +732,7 @@ class BigInt {
   }
 
   BigInt abs() const {
-    if (used_words() == 1) {
+    if (IsHalfWord()) {
       return BigInt(BigIntWord{words_[0].SignedAbs()});
     }
     if (BigIntWord{words_[used_words() - 1]} >= 0) {
-- 
2.43.0


From 5fb8d24248ae54b636a209fc6aef37f3a9eaf953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 10/35] fix: BigUInt division reads past the end of a trimmed
 remainder

---
 include/walnut/big_uint.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index b38162b..f351b50 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -268,6 +268,9 @@ class BigUInt {
     BigUIntWord next{0};
     if (word_index + 1 < words_.size()) {
       next = words_[word_index+1];
+    } else if (word_index >= words_.size()) {
+      // The upper words are all 0 and were trimmed.
+      return BigUIntWord{0};
     }
     return words_[word_index].ShiftRight(next, word_offset);
   }
-- 
2.43.0


From 26e8d16409083e3b9a2428a74d50a2dc73f20815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 11/35] fix: BigUInt::AddLeftShifted carries into an
 uninitialized word

---
 include/walnut/big_uint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index f351b50..3a5b66d 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -179,7 +179,7 @@ class BigUInt {
       pos++;
     }
     for (; carry; pos++) {
-      words_.resize(std::max(used_words(), (pos + 1)));
+      words_.resize(std::max(used_words(), (pos + 1)), BigUIntWord{0});
       words_[pos] = words_[pos].Add(carry, &carry);
     }
     assert(used_words() == std::max(old_used, pos));
-- 
2.43.0


From 0774610095eca555189f018658453ab90e28b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 12/35] fix: dividing the smallest single word BigInt by -1

---
 include/walnut/big_int.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/walnut/big_int.h b/include/walnut/big_int.h
index 189e795..39a00c5 100644
--- a/include/walnut/big_int.h
+++ b/include/walnut/big_int.h
@@ -656,7 +656,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the quotient.
   BigInt operator/(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWord(other)) {
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
     }
     BigInt unused;
@@ -680,7 +680,7 @@ class BigInt {
   //
   // The quotient is rounded towards 0.
   BigInt DivideRemainder(const BigInt& other, BigInt* remainder_out) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWord(other)) {
       *remainder_out = BigInt(BigIntWord{words_[0]} %
                                   BigIntWord{other.words_[0]});
       return BigInt{BigIntWord{words_[0]} / BigIntWord{other.words_[0]}};
@@ -690,7 +690,7 @@ class BigInt {
 
   // Divide `this` by `other`. Return the remainder.
   BigInt operator%(const BigInt& other) const {
-    if (used_words() == 1 && other.used_words() == 1) {
+    if (CanDivideAsWord(other)) {
       return BigInt(BigIntWord{words_[0]} %
                         BigIntWord{other.words_[0]});
     }
@@ -844,6 +844,14 @@ class BigInt {
     return static_cast<BigIntHalfWord>(BigIntWord{last}) == BigIntWord{last};
   }
 
+  // Returns true if `this` and `other` use a single word, and the quotient of
+  // this / other also fits in a single word.
+  constexpr bool CanDivideAsWord(const BigInt& other) const {
+    return used_words() == 1 && other.used_words() == 1 &&
+           (BigIntWord{other.words_[0]} != -1 ||
+            BigIntWord{words_[0]} != std::numeric_limits<BigIntWord>::min());
+  }
+
   constexpr void Trim() {
     size_t i = used_words() - 1;
     if (i > 0) {
-- 
2.43.0


From 3304ce8acc7f18145f60613147ba50afac001ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:58 +0000
Subject: [PATCH 13/35] fix: BigUInt << leaves the shifted in words
 uninitialized

---
 include/walnut/big_uint.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/walnut/big_uint.h b/include/walnut/big_uint.h
index 3a5b66d..77c59a3 100644
--- a/include/walnut/big_uint.h
+++ b/include/walnut/big_uint.h
@@ -76,6 +76,9 @@ class BigUInt {
       result.words_.resize(allocate);
       BigUIntWord prev(0);
       const int prev_right_shift = bits_per_word - word_left_shift;
+      for (size_t i = 0; i < out; ++i) {
+        result.words_[i] = 0;
+      }
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in] << word_left_shift |
                                prev >> prev_right_shift;
@@ -86,6 +89,9 @@ class BigUInt {
     } else {
       size_t copy = used_words();
       result.words_.resize(copy + out);
+      for (size_t i = 0; i < out; ++i) {
+        result.words_[i] = 0;
+      }
       for (; in < copy; in++, out++) {
         result.words_[out] = words_[in];
       }
-- 
2.43.0


From 956fb9400d54310372931671c2237db068eb2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 14/35] fix: ConcatRange::Prepend of iterators put the range at
 the wrong place

---
 include/walnut/concat_range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 3e025e1..1350500 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -73,7 +73,7 @@ class ConcatRange {
     Append(start, end);
 
     std::rotate(/*first=*/ranges_.begin(),
-        /*n_first=*/ranges_.begin() + ranges_.size() - original_ranges_size,
+        /*n_first=*/ranges_.begin() + original_ranges_size - 1,
         /*last=*/ranges_.end() - 1);
   }
 
-- 
2.43.0


From ab9574906f06d5fb9fb4fe4d65f6e3b2b6f1cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 15/35] fix: ConcatRange iterator + and [] ignored the offset
 within the range

---
 include/walnut/concat_range.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/walnut/concat_range.h b/include/walnut/concat_range.h
index 1350500..808d851 100644
--- a/include/walnut/concat_range.h
+++ b/include/walnut/concat_range.h
@@ -221,9 +221,12 @@ class ConcatRangeIteratorHelper {
 
   ConcatRangeIteratorHelper operator+(size_t index) const {
     ConcatRangeIteratorHelper copy(*this);
-    while (true) {
+    while (index > 0) {
       size_t range_size = copy.range_end() - copy.input_pos();
-      if (index < range_size) break;
+      if (index < range_size) {
+        copy.pos_ += index;
+        break;
+      }
       copy.AdvanceRange();
       index -= range_size;
     }
-- 
2.43.0


From 96048a8acecaf6e9774bba8e5b5f9e25728f54a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 16/35] fix: TransformIterator lost its transformer in postfix
 ++/--, + and -

---
 include/walnut/transform_iterator.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/walnut/transform_iterator.h b/include/walnut/transform_iterator.h
index be94507..a6db800 100644
--- a/include/walnut/transform_iterator.h
+++ b/include/walnut/transform_iterator.h
@@ -71,7 +71,7 @@ class TransformIterator {
   }
 
   TransformIterator operator++(int) {
-    return TransformIterator(input_iterator_++);
+    return TransformIterator(input_iterator_++, transform_);
   }
 
   auto& operator--() {
@@ -80,15 +80,15 @@ class TransformIterator {
   }
 
   auto operator--(int) {
-    return TransformIterator(input_iterator_--);
+    return TransformIterator(input_iterator_--, transform_);
   }
 
   auto operator+(difference_type offset) const {
-    return TransformIterator(input_iterator_ + offset);
+    return TransformIterator(input_iterator_ + offset, transform_);
   }
 
   auto operator-(difference_type offset) const {
-    return TransformIterator(input_iterator_ - offset);
+    return TransformIterator(input_iterator_ - offset, transform_);
   }
 
   template <typename OtherInputIterator>
-- 
2.43.0


From 8500d3595d6e4adcfa8692e842ae0a90bae324cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 17/35] fix: constructing a GenericDeed for nullptr
 dereferenced it

---
 include/walnut/deed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index a324337..1b81634 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -59,7 +59,9 @@ class GenericDeed {
       lender_ = object->owner_;
       lender_->MarkLent();
     }
-    object->owner_ = this;
+    if (object != nullptr) {
+      object->owner_ = this;
+    }
   }
 
   GenericDeed(const GenericDeed&) = delete;
-- 
2.43.0


From 3b970b4236d682ef3169a6364d28b2b97f453884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 18/35] fix: GenericDeed::Lend left the object pointing at the
 lender

---
 include/walnut/deed.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/walnut/deed.h b/include/walnut/deed.h
index 1b81634..3ddf853 100644
--- a/include/walnut/deed.h
+++ b/include/walnut/deed.h
@@ -152,6 +152,9 @@ class GenericDeed {
   GenericDeed(DeedTarget* object, GenericDeed* borrowed_from) :
       object_(object), lender_(borrowed_from) {
     lender_->MarkLent();
+    if (object_) {
+      object_->owner_ = this;
+    }
   }
 
   void MarkLent() {
-- 
2.43.0


From 7cad5ea27114ac0917dd6bd41bb71555bd0e4478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:21 +0000
Subject: [PATCH 19/35] fix: RedirectableValue::Redirect split an already
 redirected group

---
 include/walnut/redirectable_value.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/walnut/redirectable_value.h b/include/walnut/redirectable_value.h
index 100c1e8..8675125 100644
--- a/include/walnut/redirectable_value.h
+++ b/include/walnut/redirectable_value.h
@@ -79,12 +79,13 @@ class RedirectableValue {
   // accessed instead.
   void Redirect(RedirectableValue& to) {
     RedirectableValue& final_to = to.primary();
-    if (&final_to == redirect_) return;
+    // This entry may already be redirected. So redirect the whole group it is
+    // part of, instead of only moving this entry to the group of `to`.
+    RedirectableValue& final_this = primary();
+    if (&final_to == &final_this) return;
 
-    if (redirect_ == this) {
-      reinterpret_cast<Value *>(&value_)->~Value();
-    }
-    redirect_ = &to.primary();
+    reinterpret_cast<Value *>(&final_this.value_)->~Value();
+    final_this.redirect_ = &final_to;
   }
 
  private:
-- 
2.43.0


From a30ffc5ae4416af30ae3ebbf122594068d2ea87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 20/35] fix: SubtractIdsFilter always subtracted from id 0

---
 include/walnut/boolean_operation_filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 13eda01..5240b84 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -118,8 +118,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       return std::make_pair(false, false);
     } 
 
-    std::pair<bool, bool> total(content_info_by_id[0].pwn > 0,
-                                content_info_by_id[0].has_polygons());
+    std::pair<bool, bool> total(content_info_by_id[ids_[0]].pwn > 0,
+                                content_info_by_id[ids_[0]].has_polygons());
 
     for (size_t i = 1; i < ids_.size(); ++i) {
       BSPContentId id = ids_[i];
-- 
2.43.0


From caea7853c2282c770e8afd9c94d3993c4c8e60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 21/35] fix: SubtractIdsFilter returned nothing when the
 subtrahend is absent

---
 include/walnut/boolean_operation_filter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/boolean_operation_filter.h b/include/walnut/boolean_operation_filter.h
index 5240b84..b12ea4a 100644
--- a/include/walnut/boolean_operation_filter.h
+++ b/include/walnut/boolean_operation_filter.h
@@ -127,7 +127,8 @@ class SubtractIdsFilter : public BooleanOperationFilter {
       std::pair<bool, bool> id_result;
 
       if (id >= content_info_by_id.size()) {
-        id_result = std::make_pair(false, false);
+        // There is nothing to subtract; the pwn is 0 everywhere.
+        id_result = std::make_pair(true, false);
       } else {
         id_result =  std::make_pair(content_info_by_id[id].pwn >= 0,
                                     content_info_by_id[id].has_polygons());
-- 
2.43.0


From 9b53d20a6bf495ee4ec6cb4b4ba4de068694ba7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:28 +0000
Subject: [PATCH 22/35] fix: InvertedPolygonFilter returned nothing for an
 absent polyhedron

---
 include/walnut/bsp_visitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/walnut/bsp_visitor.h b/include/walnut/bsp_visitor.h
index 52e0134..efb0755 100644
--- a/include/walnut/bsp_visitor.h
+++ b/include/walnut/bsp_visitor.h
@@ -53,7 +53,8 @@ class InvertedPolygonFilter {
   std::pair<bool, bool> operator()(
       const std::vector<BSPContentInfo>& content_info_by_id) {
     if (accept_id_ >= content_info_by_id.size()) {
-      return std::make_pair(false, false);
+      // The pwn of an absent polyhedron is 0 everywhere.
+      return std::make_pair(true, false);
     } else {
       return std::make_pair(content_info_by_id[accept_id_].pwn >= 0,
                             content_info_by_id[accept_id_].has_polygons());
-- 
2.43.0


From 54bec982adbf39fe57befdc171dc9f34541a46ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:02 +0000
Subject: [PATCH 23/35] fix: count polygons that start on a split plane in any
 event order

At one location the event points of a polygon that starts there may come
before those of a border polygon, after an earlier partition.  Such a
polygon was counted as a border polygon, so the child polygon counts were
wrong.
---
 include/walnut/polygon_event_point.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index beca202..64e8640 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -468,9 +468,9 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     assert(split_location_begin > 0);
     --split_location_begin;
     if (event_points[split_location_begin].start) {
-      // This event points to a border polygon, not a neg polygon.
+      // This event points to a border polygon or a polygon that starts on the
+      // split plane and continues on the positive side, not a neg polygon.
       --neg_poly_count;
-      ++border_poly_count;
     }
   }
   split_location_end = split_index + 1;
@@ -481,7 +481,7 @@ inline void PolygonEventPointPartition::DiscountBorderPolygons(
     }
     ++split_location_end;
   }
-  for (size_t i = split_index; i < split_location_end; ++i) {
+  for (size_t i = split_location_begin; i < split_location_end; ++i) {
     if (event_points[i].start &&
         event_points[i].index.partner < split_location_end) {
       ++border_poly_count;
-- 
2.43.0


From 0420f9b574edea7514f580ff761bfbfb10315ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:41 +0000
Subject: [PATCH 24/35] fix: allow skipped border polygons before heap events
 in ApplySecondary

The assertion that the main events are at a new location failed when the
first events at a location were skipped because they belong to border
polygons, and merged events at an earlier location were processed next.
---
 include/walnut/polygon_event_point.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/walnut/polygon_event_point.h b/include/walnut/polygon_event_point.h
index 64e8640..9da4546 100644
--- a/include/walnut/polygon_event_point.h
+++ b/include/walnut/polygon_event_point.h
@@ -819,8 +819,12 @@ void PolygonEventPointPartition::ApplySecondary(
                                                        pos_polygons);
   size_t neg_used = 0;
   size_t pos_used = 0;
+  // True if the main events before `event_points_pos` were skipped, in which
+  // case it may not point to the first event of its location.
+  bool skipped_border = false;
+  (void)skipped_border;  // Only used by the assertion.
   while (event_points_pos < event_points_end) {
-    assert(event_points_pos->new_location);
+    assert(skipped_border || event_points_pos->new_location);
     // Skip main events for border polygons
     while (event_points_pos < event_points_end) {
       if (event_points_pos->start) {
@@ -831,6 +835,7 @@ void PolygonEventPointPartition::ApplySecondary(
           event_points[end_event_index].index.partner =
               static_cast<size_t>(-2);
           ++event_points_pos;
+          skipped_border = true;
         } else {
           break;
         }
@@ -838,6 +843,7 @@ void PolygonEventPointPartition::ApplySecondary(
         size_t child_start_event_index = event_points_pos->index.partner;
         if (child_start_event_index == static_cast<size_t>(-2)) {
           ++event_points_pos;
+          skipped_border = true;
         } else {
           break;
         }
@@ -868,6 +874,7 @@ void PolygonEventPointPartition::ApplySecondary(
       process_heap_events = false;
       process_main_events = true;
     }
+    if (process_main_events) skipped_border = false;
     // Process all points events at the location.
     while (process_heap_events || process_main_events) {
       // Process the merge end events up to and at the main event location.
-- 
2.43.0


From efff659d8bf873585f90ed04d3728c77c1094a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:13 +0000
Subject: [PATCH 25/35] fix: make room for new content ids in the children of a
 split node

---
 include/walnut/bsp_node.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index bf0ab25..42261b0 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -500,6 +500,13 @@ std::pair<int, bool> BSPNode<OutputPolygonParent>::GetPWNEffectAtVertex(
 template <typename OutputPolygonParent>
 void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
   assert(split_.IsValid());
+  // The children were created before any ids that were added to this node
+  // afterwards.
+  for (BSPNode* child : {negative_child(), positive_child()}) {
+    if (child->content_info_by_id_.size() < content_info_by_id_.size()) {
+      child->content_info_by_id_.resize(content_info_by_id_.size());
+    }
+  }
   for (PolygonRep& polygon : contents_) {
     for (size_t i = 0; i < polygon.vertex_count(); ++i) {
       const EdgeRep& current_edge = polygon.const_edge(i);
@@ -517,7 +524,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
+        assert(push_to_child->content_info_by_id_.size() > polygon.id);
         push_to_child->content_info_by_id_[polygon.id].pwn +=
           push_info.first;
       }
@@ -529,7 +536,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() >= polygon.id);
+        assert(push_to_child->content_info_by_id_.size() > polygon.id);
         push_to_child->content_info_by_id_[polygon.id].pwn +=
           -push_info.first;
       }
-- 
2.43.0


From 209833950192927e6f96dc10f54b67f40ed06bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:13 +0000
Subject: [PATCH 26/35] fix: winding number changes reach all descendants of a
 split node

---
 include/walnut/bsp_node.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/walnut/bsp_node.h b/include/walnut/bsp_node.h
index 42261b0..4e60290 100644
--- a/include/walnut/bsp_node.h
+++ b/include/walnut/bsp_node.h
@@ -277,6 +277,18 @@ class BSPNode {
     }
   }
 
+  // Adds `change` to the PWN of this node and all of its descendants.
+  void AddPWN(BSPContentId id, int change) {
+    if (id >= content_info_by_id_.size()) {
+      content_info_by_id_.resize(id + 1);
+    }
+    content_info_by_id_[id].pwn += change;
+    if (!IsLeaf()) {
+      negative_child_->AddPWN(id, change);
+      positive_child_->AddPWN(id, change);
+    }
+  }
+
   // Update the children's PWN based on this node's contents.
   //
   // This may only be called on an interior node.
@@ -524,9 +536,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() > polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          push_info.first;
+        push_to_child->AddPWN(polygon.id, push_info.first);
       }
 
       const EdgeRep& next_edge =
@@ -536,9 +546,7 @@ void BSPNode<OutputPolygonParent>::PushContentPWNToChildren() {
       if (push_info.first != 0) {
         BSPNode<OutputPolygonParent>* push_to_child =
           push_info.second ? positive_child() : negative_child();
-        assert(push_to_child->content_info_by_id_.size() > polygon.id);
-        push_to_child->content_info_by_id_[polygon.id].pwn +=
-          -push_info.first;
+        push_to_child->AddPWN(polygon.id, -push_info.first);
       }
     }
   }
-- 
2.43.0


From 87ca834702695cb56a55283030c4ea5affa63fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:17 +0000
Subject: [PATCH 27/35] fix: split an edge only once at a location when the
 polyhedron is open

---
 include/walnut/edge_line_connector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/walnut/edge_line_connector.h b/include/walnut/edge_line_connector.h
index c92025a..1afa0f4 100644
--- a/include/walnut/edge_line_connector.h
+++ b/include/walnut/edge_line_connector.h
@@ -418,7 +418,6 @@ class EdgeLineConnector {
       if (remove->second.partner != active_edges.end()) {
         ActiveEdge partner = remove->second.partner;
         assert(partner->second.partner == remove);
-        need_partners_.push_back(partner);
         partner->second.partner = active_edges.end();
         need_partners_.push_back(partner);
       }
@@ -519,6 +518,12 @@ class EdgeLineConnector {
     if (active_edge->second.current_endpoint) return;
 
     EdgeRep& old_edge = *active_edge->second.edge;
+    // For an open polyhedron, the same edge can need a partner multiple times
+    // at one location. Only split it the first time.
+    if (location == (active_edge->first.pos_edge ? old_edge.vertex() :
+                                                   old_edge.next_vertex())) {
+      return;
+    }
     PolygonRep& polygon = old_edge.polygon();
     size_t edge_index = old_edge.edge_index();
     polygon.SplitEdge(edge_index, location);
-- 
2.43.0


From e1907b8200fd5baece1dd1f05d9d6e6863824729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:36 +0000
Subject: [PATCH 28/35] fix: multiply the orientation with the reduced twist
 direction in MonotoneDecomposer

---
 include/walnut/monotone_decomposer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 408250c..8e900d0 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -120,9 +120,9 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
           convex_top_.end()[-2] : convex_bottom_.front();
         const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
           convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDir(drop_dimension_, prev_top, p3) *
+        if (p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
               orientation_ <= 0 &&
-            p2.Get2DTwistDir(drop_dimension_, prev_bottom, p3) *
+            p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) *
               orientation_ >= 0) {
           if (p3_is_top_chain) {
             if (p1 != p3) {
-- 
2.43.0


From 2fda0c54e460eef9499784d1eed927f5cef37a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:36 +0000
Subject: [PATCH 29/35] fix: only merge triangles in MonotoneDecomposer if the
 result is convex at every vertex

---
 include/walnut/monotone_decomposer.h | 112 ++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 30 deletions(-)

diff --git a/include/walnut/monotone_decomposer.h b/include/walnut/monotone_decomposer.h
index 8e900d0..45cd1c3 100644
--- a/include/walnut/monotone_decomposer.h
+++ b/include/walnut/monotone_decomposer.h
@@ -77,10 +77,12 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
     drop_dimension_ = drop_dimension;
     Parent::Build(drop_dimension, monotone_dimension,
                   top_begin, top_end, bottom_begin, bottom_end);
-    EmitRange(orientation_, convex_top_.rbegin(), convex_top_.rend(),
-              convex_bottom_.begin(), convex_bottom_.end());
-    convex_top_.clear();
-    convex_bottom_.clear();
+    if (!convex_top_.empty()) {
+      EmitRange(orientation_, convex_top_.rbegin(), convex_top_.rend(),
+                convex_bottom_.begin(), convex_bottom_.end());
+      convex_top_.clear();
+      convex_bottom_.clear();
+    }
   }
 
  protected:
@@ -105,40 +107,47 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
 
   void EmitTriangle(bool p3_is_top_chain, const Point3Rep& p1,
                     const Point3Rep& p2, const Point3Rep& p3) override {
+    if (p1 == p2 || p3 == (p3_is_top_chain ? p2 : p1) ||
+        (p3 == (p3_is_top_chain ? p1 : p2) && !convex_top_.empty())) {
+      // The input contains the same vertex more than once. Nothing is lost by
+      // skipping the triangle, because it is empty.
+      return;
+    }
+    const int triangle_orientation =
+      p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
     if (!convex_top_.empty()) {
       assert(!convex_bottom_.empty());
       if (convex_top_.back() == p1 && convex_bottom_.back() == p2) {
-        bool set_orientation = false;
-        if (orientation_ == 0) {
-          set_orientation = true;
-          orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+        // For non-self-intersecting polygons, the orientation will always be 0
+        // or -1. However for self-intersecting polygons, the triangulator can
+        // produce flipped triangles, in which case it will be 1.
+        const int merged_orientation =
+          orientation_ != 0 ? orientation_ : triangle_orientation;
+        const bool convex_top = IsConvexCorner(
+            merged_orientation, GetPrevious(convex_top_, convex_bottom_), p1,
+            p3);
+        const bool convex_bottom = IsConvexCorner(
+            merged_orientation, p3, p2,
+            GetPrevious(convex_bottom_, convex_top_));
+        bool merge;
+        if (merged_orientation == 0) {
+          // A collinear polygon always turns back at both ends of the edge
+          // that is still open.
+          turns_back_ |= !(p3_is_top_chain ? convex_top : convex_bottom);
+          merge = true;
+        } else {
+          merge = !turns_back_ && convex_top && convex_bottom &&
+                  IsConvexCorner(merged_orientation, p1, p3, p2);
         }
-        // For non-self-intersecting polygons, orientation_ will always be 0 or
-        // -1. However for self-intersecting polygons, the triangulator can
-        // produce flipped triangles, in which case orientation_ will be 1.
-        const Point3Rep& prev_top = convex_top_.size() > 1 ?
-          convex_top_.end()[-2] : convex_bottom_.front();
-        const Point3Rep& prev_bottom = convex_bottom_.size() > 1 ?
-          convex_bottom_.end()[-2] : convex_top_.front();
-        if (p1.Get2DTwistDirReduced(drop_dimension_, prev_top, p3) *
-              orientation_ <= 0 &&
-            p2.Get2DTwistDirReduced(drop_dimension_, prev_bottom, p3) *
-              orientation_ >= 0) {
+        if (merge) {
+          orientation_ = merged_orientation;
           if (p3_is_top_chain) {
-            if (p1 != p3) {
-              convex_top_.push_back(p3);
-            }
+            convex_top_.push_back(p3);
           } else {
-            if (p2 != p3) {
-              convex_bottom_.push_back(p3);
-            }
+            convex_bottom_.push_back(p3);
           }
           return;
         }
-        if (set_orientation) {
-          // If the triangle isn't merged, restore the old orientation.
-          orientation_ = 0;
-        }
       }
       EmitRange(orientation_, convex_top_.rbegin(), convex_top_.rend(),
                 convex_bottom_.begin(), convex_bottom_.end());
@@ -152,14 +161,57 @@ class MonotoneDecomposer : public MonotoneTriangulator<Point3RepTemplate> {
     } else {
       convex_bottom_.push_back(p3);
     }
-    orientation_ = p2.Get2DTwistDirReduced(drop_dimension_, p1, p3);
+    orientation_ = triangle_orientation;
+    turns_back_ = orientation_ == 0 &&
+      !(p3_is_top_chain ? IsConvexCorner(orientation_, p3, p1, p2) :
+                          IsConvexCorner(orientation_, p1, p2, p3));
   }
 
  private:
+  // Returns the vertex before `chain.back()` that is different from it.
+  // `other` is the other chain, and it starts with the neighbor of
+  // `chain.front()`.
+  static const Point3Rep& GetPrevious(const std::vector<Point3Rep>& chain,
+                                      const std::vector<Point3Rep>& other) {
+    for (size_t i = chain.size() - 1; i > 0; --i) {
+      if (chain[i - 1] != chain.back()) {
+        return chain[i - 1];
+      }
+    }
+    return other.front();
+  }
+
+  // Returns true if a polygon with `orientation` that goes from `prev` to
+  // `corner` to `next` is convex at `corner`.
+  //
+  // If the 3 vertices are collinear, `corner` must be between the other two,
+  // because otherwise the polygon turns back on itself.
+  bool IsConvexCorner(int orientation, const Point3Rep& prev,
+                      const Point3Rep& corner, const Point3Rep& next) const {
+    const int twist = corner.Get2DTwistDirReduced(drop_dimension_, prev, next);
+    if (twist != 0) {
+      return twist * orientation <= 0;
+    }
+    for (int i = 0; i < 3; ++i) {
+      const int prev_compare = prev.CompareComponent(i, corner);
+      const int next_compare = next.CompareComponent(i, corner);
+      if ((prev_compare < 0 && next_compare < 0) ||
+          (prev_compare > 0 && next_compare > 0)) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   // The orientation of the polygon being built. -1 for counter-clockwise, 1
   // for clockwise, or 0 for collinear.
   int orientation_;
 
+  // Set to true if the polygon being built is collinear, and it turns back on
+  // itself at a vertex that is not part of the edge that is still open. Such a
+  // polygon cannot become part of a convex polygon.
+  bool turns_back_ = false;
+
   int drop_dimension_;
 };
 
-- 
2.43.0


From c30d951830c03df3006892333fdbe7d6040997fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:36 +0000
Subject: [PATCH 30/35] fix: find the plane of a polygon whose first vertices
 are repeated

---
 include/walnut/planar_range.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/walnut/planar_range.h b/include/walnut/planar_range.h
index 4b440d5..d897d0c 100644
--- a/include/walnut/planar_range.h
+++ b/include/walnut/planar_range.h
@@ -102,12 +102,13 @@ inline void PlanarRange<Point3Iterator>::Build(
     return;
   }
 
-  const Point3Rep& p2 = *remaining_begin;
+  const Point3Rep* p2 = &*remaining_begin;
   size_ = 2;
   ++remaining_begin;
 
-  // Keep p1 and p2 pointing to where they are. Use the next soonest point for
-  // p3 such that p1, p2, and p3 are not coincident.
+  // Keep p1 pointing to where it is, and keep p2 pointing to the first vertex
+  // that is different from p1. Use the next soonest point for p3 such that p1,
+  // p2, and p3 are not coincident.
   //
   // After the loop ends, `plane_` holds the plane formed from p1, p2, and p3.
   do {
@@ -117,7 +118,10 @@ inline void PlanarRange<Point3Iterator>::Build(
       return;
     }
     const Point3Rep& p3 = *remaining_begin;
-    plane_ = HalfSpace3(p1, p2, p3);
+    if (*p2 == p1) {
+      p2 = &p3;
+    }
+    plane_ = HalfSpace3(p1, *p2, p3);
     ++size_;
     ++remaining_begin;
   } while (!plane_.IsValid());
-- 
2.43.0


From 5c1da43dac181e48ef7c444b07d819fba754a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:36 +0000
Subject: [PATCH 31/35] fix: always shrink the remaining range in MonotoneRange

---
 include/walnut/monotone_range.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/walnut/monotone_range.h b/include/walnut/monotone_range.h
index 884996e..2c0006d 100644
--- a/include/walnut/monotone_range.h
+++ b/include/walnut/monotone_range.h
@@ -248,6 +248,8 @@ inline void MonotoneRange<Point3Iterator>::Build(
     chain_dir_ = 0;
     return;
   }
+  const Point3Iterator input_begin = remaining_begin;
+  const Point3Iterator input_end = remaining_end;
   Point3Iterator range_end = remaining_end;
   --remaining_end;
 
@@ -368,8 +370,25 @@ inline void MonotoneRange<Point3Iterator>::Build(
   chain2_.Append(remaining_end, range_end);
 
   if (remaining_begin != remaining_end) {
+    Point3Iterator chain_first = remaining_end;
     --remaining_begin;
     ++remaining_end;
+    if (remaining_begin == input_begin && remaining_end == input_end) {
+      // Both chains only contain the first and last vertex of the input range.
+      // The vertex after the first vertex is beyond the last vertex in the
+      // monotone dimension. Removing those 3 vertices as a triangle (which is
+      // always monotone) ensures that the remaining range shrinks.
+      Point3Iterator first = remaining_begin;
+      ++remaining_begin;
+      Point3Iterator second_end = remaining_begin;
+      ++second_end;
+      chain1_.Clear();
+      chain1_.Append(remaining_begin, second_end);
+      chain1_.Append(chain_first, input_end);
+      chain1_.Append(first, remaining_begin);
+      chain2_.Clear();
+      chain2_.Append(first, second_end);
+    }
   }
 }
 
-- 
2.43.0


From c75f5cd47fc076e96e0180982f097881d841ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:36 +0000
Subject: [PATCH 32/35] fix: continue through the second chain when detecting
 the orientation

---
 include/walnut/orienting_monotone_decomposer.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/walnut/orienting_monotone_decomposer.h b/include/walnut/orienting_monotone_decomposer.h
index a718476..a87d243 100644
--- a/include/walnut/orienting_monotone_decomposer.h
+++ b/include/walnut/orienting_monotone_decomposer.h
@@ -220,18 +220,15 @@ bool OrientingMonotoneDecomposer<Point3RepTemplate>::DetectOrientation(
   while (true) {
     // Entries are preferentially taken from chain1, and both chains contain
     // the max element. So as long as chain1 is not completely consumed,
-    // chain2 still contains at least the max element.
-    if (chain1_pos == chain1_end) {
-      // Chain1 was completely consumed, which means only the maximum vertex
-      // remains in chain2. All of the vertices were collinear.
-#ifndef NDEBUG
-      ++chain2_pos;
-      assert(chain2_pos == chain2_end);
-#endif
+    // chain2 still contains at least the max element. After chain1 is
+    // completely consumed, chain2 may still contain several vertices that are
+    // equal to the maximum in the monotone dimension.
+    if (chain1_pos == chain1_end && chain2_pos == chain2_end) {
+      // All of the vertices were collinear.
       return false;
     }
     assert(chain2_pos != chain2_end);
-    const bool chain1_is_current =
+    const bool chain1_is_current = chain1_pos != chain1_end &&
       chain1_pos->CompareComponent(monotone_dimension, *chain2_pos) <= 0;
     const Point3Rep& current = chain1_is_current ? *chain1_pos : *chain2_pos;
     const BigIntWord twist =
-- 
2.43.0


From 519b3026a2697f95e77b5729ab270b2283c086a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:40 +0000
Subject: [PATCH 33/35] fix: do not keep a plane from before a constrained
 vertex in NudgingPlaneBuilder

---
 include/walnut/nudging_plane_builder.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index a5f7448..19b9ca8 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -81,6 +81,10 @@ inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
     if (constrained_count_ == 3) {
       plane_ = BuildFromPlaneInfo();
       plane_set_ = true;
+    } else {
+      // `HasLargePlane` may have stored a plane that does not contain the new
+      // vertex.
+      plane_set_ = false;
     }
     return true;
   } else {
-- 
2.43.0


From 734ba856bc8424ee206c8b6a07a38833958b9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:40 +0000
Subject: [PATCH 34/35] fix: keep the order of the vertices when
 MeshPlaneRepairer splits a facet

---
 include/walnut/mesh_plane_repairer.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/walnut/mesh_plane_repairer.h b/include/walnut/mesh_plane_repairer.h
index 9a1ebd8..d9f395d 100644
--- a/include/walnut/mesh_plane_repairer.h
+++ b/include/walnut/mesh_plane_repairer.h
@@ -230,10 +230,9 @@ inline void MeshPlaneRepairer<PolygonData>::FinishFacet(PolygonData data) {
       polygon_vertices_.push_back(*it);
     }
 
-    // Copy the end portion of the accepted range in reverse order.
-    for (ActiveVertexIterator it = accepted_from_end_end;
-         it != remaining_end;) {
-      --it;
+    // Copy the end portion of the accepted range.
+    for (ActiveVertexIterator it = remaining_end;
+         it != accepted_from_end_end; ++it) {
       (*it)->TryAddAdjacent(&polygon.plane);
       polygon_vertices_.push_back(*it);
     }
-- 
2.43.0


From 8ede2b339903405ba503ee634139391f2fe0b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:13 +0000
Subject: [PATCH 35/35] fix: fit planes to facets that start with collinear
 vertices

---
 include/walnut/nudging_plane_builder.h | 19 +++++++++-
 src/walnut/mesh_plane_repairer.cpp     |  3 ++
 src/walnut/nudging_plane_builder.cpp   | 51 +++++++++++++++-----------
 3 files changed, 51 insertions(+), 22 deletions(-)

diff --git a/include/walnut/nudging_plane_builder.h b/include/walnut/nudging_plane_builder.h
index 19b9ca8..1ed390f 100644
--- a/include/walnut/nudging_plane_builder.h
+++ b/include/walnut/nudging_plane_builder.h
@@ -49,12 +49,22 @@ class NudgingPlaneBuilder {
 
  private:
   // This may only be called if `plane_info_used_` >= 3.
+  //
+  // The returned plane is only invalid if all of the vertices are collinear.
   HalfSpace3 BuildFromPlaneInfo() const;
 
+  // Returns true if `vertex` is collinear with the accepted vertices that are
+  // constrained, or with the ones that are unconstrained.
+  //
+  // This may only be called if fewer than 3 of such vertices were accepted.
+  bool IsCollinear(bool constrained, const HomoPoint3& vertex) const;
+
   struct VertexInfo {
     bool constrained;
     const HomoPoint3* vertex;
   };
+  // This contains up to 3 constrained vertices and up to 3 unconstrained
+  // vertices. Each of the two sets is not collinear once it has 3 vertices.
   std::array<VertexInfo, 6> plane_info_;
   size_t plane_info_used_ = 0;
   size_t constrained_count_ = 0;
@@ -64,7 +74,8 @@ class NudgingPlaneBuilder {
 };
 
 inline void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
-  if (plane_info_used_ < 3) {
+  if (plane_info_used_ - constrained_count_ < 3 &&
+      !IsCollinear(/*constrained=*/false, *vertex)) {
     plane_info_[plane_info_used_].constrained = false;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
@@ -73,6 +84,11 @@ inline void NudgingPlaneBuilder::AddUnconstrained(const HomoPoint3* vertex) {
 
 inline bool NudgingPlaneBuilder::TryAddConstrained(const HomoPoint3* vertex) {
   if (constrained_count_ < 3) {
+    if (IsCollinear(/*constrained=*/true, *vertex)) {
+      // Every plane through the existing constrained vertices also goes
+      // through the new one.
+      return true;
+    }
     plane_info_[plane_info_used_].constrained = true;
     plane_info_[plane_info_used_].vertex = vertex;
     ++plane_info_used_;
@@ -97,6 +113,7 @@ inline bool NudgingPlaneBuilder::HasLargePlane() {
 
   if (!plane_set_) {
     plane_ = BuildFromPlaneInfo();
+    if (!plane_.IsValid()) return false;
     plane_set_ = true;
   }
   return !BigInt::AllHalfWords(plane_.x(), plane_.y(), plane_.z()) ||
diff --git a/src/walnut/mesh_plane_repairer.cpp b/src/walnut/mesh_plane_repairer.cpp
index a428307..5e72922 100644
--- a/src/walnut/mesh_plane_repairer.cpp
+++ b/src/walnut/mesh_plane_repairer.cpp
@@ -7,6 +7,9 @@ namespace walnut {
 
 void MeshPlaneRepairerBase::VertexInfo::TryAddAdjacent(
     const HalfSpace3* polygon) {
+  // Collinear polygons do not constrain their vertices.
+  if (!polygon->IsValid()) return;
+
   if (plane_count < 3) {
     // Don't allow duplicate planes
     for (size_t i = 0; i < plane_count; ++i) {
diff --git a/src/walnut/nudging_plane_builder.cpp b/src/walnut/nudging_plane_builder.cpp
index 30ab83e..f5345be 100644
--- a/src/walnut/nudging_plane_builder.cpp
+++ b/src/walnut/nudging_plane_builder.cpp
@@ -3,30 +3,39 @@
 namespace walnut {
 
 HalfSpace3 NudgingPlaneBuilder::BuildFromPlaneInfo() const {
-  std::array<const HomoPoint3*, 3> filtered_vertices;
-  // The number of remaining unconstrained vertices to accept.
-  size_t accept_unconstrained = 3 - constrained_count_;
-
-  for (size_t i = 0, accepted = 0; accepted < 3; ++i) {
-    const VertexInfo& info = plane_info_[i];
-    bool accept;
-    if (info.constrained) {
-      accept = true;
-    } else if (accept_unconstrained > 0) {
-      accept = true;
-      --accept_unconstrained;
-    } else {
-      accept = false;
-    }
-    if (accept) {
-      filtered_vertices[accepted] = info.vertex;
-      ++accepted;
+  HalfSpace3 result(/*x=*/0, /*y=*/0, /*z=*/0, /*dist=*/0);
+  // Use the first 3 vertices that are not collinear, out of the combinations
+  // that include all of the constrained vertices.
+  for (size_t i = 0; i < plane_info_used_; ++i) {
+    for (size_t j = i + 1; j < plane_info_used_; ++j) {
+      for (size_t k = j + 1; k < plane_info_used_; ++k) {
+        const size_t constrained = plane_info_[i].constrained +
+                                   plane_info_[j].constrained +
+                                   plane_info_[k].constrained;
+        if (constrained != constrained_count_) continue;
+        result = HalfSpace3(*plane_info_[i].vertex, *plane_info_[j].vertex,
+                            *plane_info_[k].vertex);
+        if (result.IsValid()) {
+          result.Reduce();
+          return result;
+        }
+      }
     }
   }
-  HalfSpace3 result(*filtered_vertices[0], *filtered_vertices[1],
-                    *filtered_vertices[2]);
-  result.Reduce();
   return result;
 }
 
+bool NudgingPlaneBuilder::IsCollinear(bool constrained,
+                                      const HomoPoint3& vertex) const {
+  const HomoPoint3* accepted = nullptr;
+  for (size_t i = 0; i < plane_info_used_; ++i) {
+    if (plane_info_[i].constrained != constrained) continue;
+    if (accepted != nullptr) {
+      return !HalfSpace3(*accepted, *plane_info_[i].vertex, vertex).IsValid();
+    }
+    accepted = plane_info_[i].vertex;
+  }
+  return accepted != nullptr && *accepted == vertex;
+}
+
 }  // walnut
-- 
2.43.0


From 70b3343cfcc589e90997da9c73f77dec71ba8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 01/38] fix: remove_row/remove_col honour the offset of last

---
 strictpp/array_base2D.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 8fa29be..16af20e 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -363,8 +363,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Pos row_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row([[maybe_unused]] Last lst) {
-   return this->remove_row(this->rows() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_row(Last lst) {
+   return this->remove_row(this->rows() - 1_sl - lst.get());
 }
 
 
@@ -381,8 +381,8 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Pos col_pos) {
 
 
 template <Builtin T, AlignmentFlag AF>
-STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col([[maybe_unused]] Last lst) {
-   return this->remove_col(this->cols() - 1_sl);
+STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_col(Last lst) {
+   return this->remove_col(this->cols() - 1_sl - lst.get());
 }
 
 
-- 
2.43.0


From 62a872e6e75dbfc8a318ce0f38d709bd2d716e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 02/38] fix: exclude honours the offset of last

---
 strictpp/Expr/special.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 68f8919..0acc037 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -76,7 +76,7 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count = Count{1});
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst);
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
@@ -410,8 +410,8 @@ STRICT_CONSTEXPR auto exclude(const Base& A, Pos pos, Count count) {
 
 
 template <OneDimBaseType Base>
-STRICT_CONSTEXPR auto exclude(const Base& A, [[maybe_unused]] Last lst) {
-   return exclude(A, A.size_m1());
+STRICT_CONSTEXPR auto exclude(const Base& A, Last lst) {
+   return exclude(A, A.size_m1() - lst.get());
 }
 
 
-- 
2.43.0


From 7c33e50b96dc049ef9d037007b0b82e836cc41b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 03/38] fix: self-move-assignment of a 2D array keeps its shape

---
 strictpp/array_base2D.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 16af20e..f00ebe7 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -219,9 +219,11 @@ STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(const ArrayBa
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR ArrayBase2D<T, AF>& ArrayBase2D<T, AF>::operator=(ArrayBase2D&& A) noexcept {
-   NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
-   A.dims_ = 0_sl;
-   data1D_ = std::move(A.data1D_);
+   if(this != &A) {
+      NORMAL_ASSERT_STRICT_DEBUG(same_size(*this, A));
+      A.dims_ = 0_sl;
+      data1D_ = std::move(A.data1D_);
+   }
    return *this;
 }
 
-- 
2.43.0


From 2ece1a2003757087e0f390d8722b31575ff7f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 04/38] fix: resize_and_assign from the array itself keeps its
 content

---
 strictpp/array_base1D.hpp | 6 ++++--
 strictpp/array_base2D.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 1e44c11..94bea1f 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -311,8 +311,10 @@ STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::resize_and_assign(OneDimBaseType auto
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::resize_and_assign(StrictArray1D<ArrayBase1D>&& A) {
-   this->swap(A);
-   A.swap(ArrayBase1D{});
+   if(this != &A) {
+      this->swap(A);
+      A.swap(ArrayBase1D{});
+   }
    return static_cast<StrictArray1D<ArrayBase1D>&>(*this);
 }
 
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index f00ebe7..a9ac94f 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -295,8 +295,10 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize_and_assign(TwoDimBaseType auto
 
 template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize_and_assign(StrictArray2D<ArrayBase2D>&& A) {
-   this->swap(A);
-   A.swap(ArrayBase2D{});
+   if(this != &A) {
+      this->swap(A);
+      A.swap(ArrayBase2D{});
+   }
    return static_cast<StrictArray2D<ArrayBase2D>&>(*this);
 }
 
-- 
2.43.0


From 43760031484567f4f58164634fda2bde711737bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 05/38] fix: arrays can be constructed from reverse iterators

---
 strictpp/array_base1D.hpp       | 2 +-
 strictpp/fixed_array_base1D.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 94bea1f..8ce25ce 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -188,7 +188,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR ArrayBase1D<T, AF>::ArrayBase1D(L b, L e)
    : ArrayBase1D(abss(Strict{e - b})) {
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
diff --git a/strictpp/fixed_array_base1D.hpp b/strictpp/fixed_array_base1D.hpp
index f7992d5..9e7ad0a 100644
--- a/strictpp/fixed_array_base1D.hpp
+++ b/strictpp/fixed_array_base1D.hpp
@@ -106,7 +106,7 @@ template <LinearIteratorType L>
 STRICT_NODISCARD_CONSTEXPR FixedArrayBase1D<T, N, AF>::FixedArrayBase1D(L b, L e) {
    ASSERT_STRICT_DEBUG(index_t{e - b} == N.get());
    ASSERT_STRICT_DEBUG(e >= b);
-   copy(b, e, *this);
+   detail::copy(b, e, *this);
 }
 
 
-- 
2.43.0


From 47bf8db0f3ef4705771156f342b6786ea5780243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 06/38] fix: linspace of a single point is start, not NaN

---
 strictpp/Expr/special.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 0acc037..39b6cb2 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -433,8 +433,9 @@ template <Floating T>
 STRICT_CONSTEXPR auto linspace(ImplicitInt size, Strict<T> start, Strict<T> end) {
    ASSERT_STRICT_DEBUG(size.get() > 0_sl);
    auto sz = size.get();
-   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{
-      start, sz, (end - start) / strict_cast<T>(sz - 1_sl)};
+   // A single point is start; avoid division by 0.
+   auto incr = sz == 1_sl ? Zero<T> : (end - start) / strict_cast<T>(sz - 1_sl);
+   return StrictArrayBase1D<detail::SequenceExpr1D<T>>{start, sz, incr};
 }
 
 
-- 
2.43.0


From a4200b861059e305e0ecb522560d3bd57fa0dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:32 +0000
Subject: [PATCH 07/38] fix: transpose keeps slice and expression operands by
 value

---
 strictpp/Expr/special.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 39b6cb2..4b31ba4 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -513,7 +513,8 @@ STRICT_CONSTEXPR auto identity(ImplicitInt n) {
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto transpose(const Base& A) {
-   auto op = [&A](index_t i, index_t j) { return A.un(j, i); };
+   auto AE = generate(A, [](auto x) { return x; });
+   auto op = [AE](index_t i, index_t j) { return AE.un(j, i); };
    using E = detail::IndexExpr2D<BuiltinTypeOf<Base>, decltype(op)>;
    return StrictArrayBase2D<E>{A.cols(), A.rows(), op};
 }
-- 
2.43.0


From 80c765e1742dee2f450e041eafd0fb1910de1682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 08/38] fix: slicing an owning 1D temporary with an index list
 is deleted

---
 strictpp/derived1D.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/derived1D.hpp b/strictpp/derived1D.hpp
index 6544494..01fcbba 100644
--- a/strictpp/derived1D.hpp
+++ b/strictpp/derived1D.hpp
@@ -230,7 +230,9 @@ public:
       return operator()(std::move(slice));
    }
 
-   STRICT_CONSTEXPR auto operator()(use::IndexList list) && {
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) &&
+      requires(!detail::ArrayOneDimType<StrictArrayBase1D>)
+   {
       return operator()(std::move(list));
    }
 
@@ -251,6 +253,10 @@ public:
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
 
+   STRICT_CONSTEXPR auto operator()(use::IndexList list) const&&
+      requires detail::ArrayOneDimType<StrictArrayBase1D>
+   = delete;
+
    STRICT_CONSTEXPR auto view1D() const&&
       requires detail::ArrayOneDimType<StrictArrayBase1D>
    = delete;
-- 
2.43.0


From c81ccf0364269647e096a483cc43303aa26f1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:00 +0000
Subject: [PATCH 09/38] fix: matvec_prod keeps its vector operand by value
 unless it owns data

---
 strictpp/Expr/binary.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index d435432..a9cba07 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -724,7 +724,8 @@ STRICT_CONSTEXPR auto matvec_prod(const Base1& A, const Base2& x) {
       }
       return s;
    };
-   return row_reduce(A, [&x, &dot](auto row) { return dot(row, x); });
+   auto xE = generate(x, [](auto e) { return e; });
+   return row_reduce(A, [xE, dot](auto row) { return dot(row, xE); });
 }
 
 
-- 
2.43.0


From f0360abdb3ca69bfed474c02ea7a460a9ca61ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 10/38] fix: tensor_prod of an owning temporary is deleted

---
 strictpp/Expr/binary.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index a9cba07..633d067 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -426,8 +426,9 @@ template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
 STRICT_CONSTEXPR auto tensor_prod(const Base1& A1, const Base2& A2);
 
 
-template <OneDimRealBaseType Base1, OneDimRealBaseType Base2>
-   requires(detail::RealExprDeleted<Base1, Base2>)
+template <typename Base1, typename Base2>
+   requires OneDimRealBaseType<RemoveRef<Base1>> && OneDimRealBaseType<RemoveRef<Base2>>
+            && (detail::ArrayRealTypeRvalue<Base1> || detail::ArrayRealTypeRvalue<Base2>)
 STRICT_CONSTEXPR auto tensor_prod(Base1&& A1, Base2&& A2) = delete;
 
 
-- 
2.43.0


From bf8c4bc7d6d6893cfb2270b717014e0b42ea1c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 11/38] fix: two-dimensional sizes whose product overflows are
 rejected

---
 strictpp/ArrayCommon/valid.hpp | 21 +++++++++++++++++++++
 strictpp/Expr/types.hpp        |  3 +++
 strictpp/array_base2D.hpp      |  3 ++-
 strictpp/attach2D.hpp          |  8 ++++----
 strictpp/slicearray_base2D.hpp |  2 ++
 5 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 10b6e54..8f59f29 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -14,6 +14,7 @@
 #include "use.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <utility>
 #include <vector>
 
@@ -46,6 +47,26 @@ STRICT_CONSTEXPR StrictBool semi_valid_row_col_sizes(index_t m, index_t n) {
 }
 
 
+// Number of elements must be representable; negative sizes are checked separately.
+STRICT_CONSTEXPR StrictBool valid_row_col_product(index_t m, index_t n) {
+   return n > 0_sl ? m <= index_t{std::numeric_limits<long int>::max()} / n : true_sb;
+}
+
+
+STRICT_CONSTEXPR index_t row_col_product(index_t m, index_t n) {
+   ASSERT_STRICT_DEBUG(valid_row_col_product(m, n));
+   return m * n;
+}
+
+
+STRICT_CONSTEXPR StrictBool valid_reshape(BaseType auto const& A, index_t m, index_t n) {
+   if(m < 0_sl || n < 0_sl || !valid_row_col_product(m, n)) {
+      return false_sb;
+   }
+   return m * n == A.size();
+}
+
+
 template <Builtin T>
 STRICT_CONSTEXPR StrictBool valid_list2D(use::List2D<Strict<T>> list) {
    if(list.size() != 0) {
diff --git a/strictpp/Expr/types.hpp b/strictpp/Expr/types.hpp
index b176652..fcc5b8c 100644
--- a/strictpp/Expr/types.hpp
+++ b/strictpp/Expr/types.hpp
@@ -233,6 +233,7 @@ public:
         op_{op} {
       ASSERT_STRICT_DEBUG(rows_ > -1_sl);
       ASSERT_STRICT_DEBUG(cols_ > -1_sl);
+      ASSERT_STRICT_DEBUG(valid_row_col_product(rows_, cols_));
    }
 
    STRICT_NODISCARD_CONSTEXPR IndexExpr2D(const IndexExpr2D&) = default;
@@ -315,6 +316,7 @@ public:
    using builtin_type = value_type::value_type;
 
    STRICT_NODISCARD_CONSTEXPR explicit BroadCastExpr(const Base& A) : A_{A} {
+      ASSERT_STRICT_DEBUG(valid_row_col_product(A_.size(), A_.size()));
    }
 
    STRICT_NODISCARD_CONSTEXPR BroadCastExpr(const BroadCastExpr& E) = default;
@@ -361,6 +363,7 @@ public:
    STRICT_NODISCARD_CONSTEXPR explicit TensorExpr(const Base1& A1, const Base2& A2)
       : A1_{A1},
         A2_{A2} {
+      ASSERT_STRICT_DEBUG(valid_row_col_product(A1_.size(), A2_.size()));
    }
 
    STRICT_NODISCARD_CONSTEXPR TensorExpr(const TensorExpr& E) = default;
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index a9ac94f..1bd8933 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -152,7 +152,7 @@ private:
 template <Builtin T, AlignmentFlag AF>
 STRICT_NODISCARD_CONSTEXPR ArrayBase2D<T, AF>::ArrayBase2D(ImplicitInt m, ImplicitInt n)
    : dims_{m.get(), n.get()},
-     data1D_(m.get() * n.get()) {
+     data1D_(row_col_product(m.get(), n.get())) {
    ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
@@ -255,6 +255,7 @@ STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::resize(ImplicitInt m, ImplicitInt n,
    ASSERT_STRICT_DEBUG(m.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(n.get() >= 0_sl);
    ASSERT_STRICT_DEBUG(semi_valid_row_col_sizes(m.get(), n.get()));
+   ASSERT_STRICT_DEBUG(valid_row_col_product(m.get(), n.get()));
 
    const auto d0_new = m.get();
    const auto d1_new = n.get();
diff --git a/strictpp/attach2D.hpp b/strictpp/attach2D.hpp
index 9ffffa6..6e443b2 100644
--- a/strictpp/attach2D.hpp
+++ b/strictpp/attach2D.hpp
@@ -238,7 +238,7 @@ STRICT_NODISCARD_CONSTEXPR auto const_convert2D(const Base& A, ImplicitInt m, Im
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(*this, nrows.get(), ncols.get()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase1D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -249,7 +249,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(*this, nrows.get(), ncols.get()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
@@ -265,7 +265,7 @@ STRICT_CONSTEXPR auto StrictArrayBase1D<Base>::view2D(ImplicitInt nrows, Implici
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) & {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(*this, nrows.get(), ncols.get()));
    if constexpr(detail::NonConstBaseType<StrictArrayBase2D>) {
       return detail::convert2D(*this, nrows, ncols);
    } else {
@@ -276,7 +276,7 @@ STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, Implici
 
 template <TwoDimBaseType Base>
 STRICT_CONSTEXPR auto StrictArrayBase2D<Base>::view2D(ImplicitInt nrows, ImplicitInt ncols) const& {
-   ASSERT_STRICT_ALWAYS(nrows.get() * ncols.get() == Base::size());
+   ASSERT_STRICT_ALWAYS(detail::valid_reshape(*this, nrows.get(), ncols.get()));
    return detail::const_convert2D(*this, nrows, ncols);
 }
 
diff --git a/strictpp/slicearray_base2D.hpp b/strictpp/slicearray_base2D.hpp
index 2df1912..104db94 100644
--- a/strictpp/slicearray_base2D.hpp
+++ b/strictpp/slicearray_base2D.hpp
@@ -57,6 +57,7 @@ STRICT_NODISCARD_CONSTEXPR SliceArrayBase2D<Base, Sl1, Sl2>::SliceArrayBase2D(Ba
      slw2_{std::move(sl2)} {
    ASSERT_STRICT_DEBUG(slw1_.valid_first(A_));
    ASSERT_STRICT_DEBUG(slw2_.valid_second(A_));
+   ASSERT_STRICT_DEBUG(valid_row_col_product(slw1_.size(), slw2_.size()));
    if(slw1_.size() == 0_sl) {
       slw2_ = default_wrapper<Sl2>();
    } else if(slw2_.size() == 0_sl) {
@@ -209,6 +210,7 @@ ConstSliceArrayBase2D<Base, Sl1, Sl2>::ConstSliceArrayBase2D(const Base& A, Sl1
      slw2_{std::move(sl2)} {
    ASSERT_STRICT_DEBUG(slw1_.valid_first(A_));
    ASSERT_STRICT_DEBUG(slw2_.valid_second(A_));
+   ASSERT_STRICT_DEBUG(valid_row_col_product(slw1_.size(), slw2_.size()));
    if(slw1_.size() == 0_sl) {
       slw2_ = default_wrapper<Sl2>();
    } else if(slw2_.size() == 0_sl) {
-- 
2.43.0


From 7be1794797db26a21a46d4632d1d9f595e981039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 12/38] fix: slice bounds are checked without overflow

---
 strictpp/slice.hpp | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index 9269851..efa63a1 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -44,32 +44,38 @@ public:
    // Note: stride is already valid, start and size are "partially" valid.
    template <BaseType BaseT>
    STRICT_CONSTEXPR StrictBool valid(const BaseT& A) const {
-      if(size_ != 0_sl) {
-         return detail::valid_index(A, start_)
-             && detail::valid_index(A, start_ + stride_ * (size_ - 1_sl));
-      }
-      return true_sb;
+      return this->valid_extent(A.size());
    }
 
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_first(const TwoDimBaseT& A) const {
-      if(size_ != 0_sl) {
-         return detail::valid_row(A, start_)
-             && detail::valid_row(A, start_ + stride_ * (size_ - 1_sl));
-      }
-      return true_sb;
+      return this->valid_extent(A.rows());
    }
 
    template <TwoDimBaseType TwoDimBaseT>
    STRICT_CONSTEXPR StrictBool valid_second(const TwoDimBaseT& A) const {
-      if(size_ != 0_sl) {
-         return detail::valid_col(A, start_)
-             && detail::valid_col(A, start_ + stride_ * (size_ - 1_sl));
+      return this->valid_extent(A.cols());
+   }
+
+private:
+   // First and last position must be less than n. Written without computing the last position
+   // since start_ + stride_ * (size_ - 1) may overflow.
+   STRICT_CONSTEXPR StrictBool valid_extent(index_t n) const {
+      if(size_ == 0_sl) {
+         return true_sb;
+      }
+      if(start_ >= n) {
+         return false_sb;
+      }
+      if(stride_ > 0_sl) {
+         return size_ - 1_sl <= (n - 1_sl - start_) / stride_;
+      }
+      if(stride_ < 0_sl) {
+         return size_ - 1_sl <= -(start_ / stride_);
       }
       return true_sb;
    }
 
-private:
    index_t start_;
    index_t size_;
    index_t stride_;
@@ -156,6 +162,11 @@ public:
       return stride_;
    }
 
+   // Number of positions in a range of size n; n + stride_ - 1 may overflow.
+   STRICT_NODISCARD_CONSTEXPR index_t count(index_t n) const {
+      return n / stride_ + (n % stride_ != 0_sl ? 1_sl : 0_sl);
+   }
+
 private:
    index_t stride_;
 };
@@ -383,15 +394,15 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE auto get(OneDimBaseType auto const& A) const {
-      return seqN{0, (A.size() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, x_.count(A.size()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_row(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.rows() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, x_.count(A.rows()), x_.stride()};
    }
 
    STRICT_CONSTEXPR_INLINE auto get_col(TwoDimBaseType auto const& A) const {
-      return seqN{0, (A.cols() + x_.stride() - 1_sl) / x_.stride(), x_.stride()};
+      return seqN{0, x_.count(A.cols()), x_.stride()};
    }
 
 private:
-- 
2.43.0


From b50014c36b5c7137d83b1a0b2e3592943385fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 13/38] fix: removed and excluded ranges are checked without
 overflow

---
 strictpp/ArrayCommon/valid.hpp | 6 ++++++
 strictpp/Expr/special.hpp      | 2 +-
 strictpp/array_base1D.hpp      | 2 +-
 strictpp/array_base2D.hpp      | 4 ++--
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 8f59f29..62a5e98 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -37,6 +37,12 @@ STRICT_CONSTEXPR StrictBool valid_col(TwoDimBaseType auto const& A, index_t j) {
 }
 
 
+// count positions starting at pos must lie in a range of size n; pos + count - 1 may overflow.
+STRICT_CONSTEXPR StrictBool valid_count(index_t n, index_t pos, index_t count) {
+   return count > 0_sl && count <= n && pos <= n - count;
+}
+
+
 STRICT_CONSTEXPR StrictBool valid_index(TwoDimBaseType auto const& A, index_t i, index_t j) {
    return valid_row(A, i) && valid_col(A, j);
 }
diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index 4b31ba4..a511944 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -395,7 +395,7 @@ template <OneDimBaseType Base>
 STRICT_CONSTEXPR auto exclude(const Base& A, ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get()));
-   ASSERT_STRICT_DEBUG(detail::valid_index(A, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(detail::valid_count(A.size(), pos.get(), count.get()));
    auto AE = generate(A, [](auto x) { return x; });
    return generate(irange(A.size() - count.get()), [pos, count, AE](auto j) {
       return j < pos.get() ? AE.un(j) : AE.un(j + count.get());
diff --git a/strictpp/array_base1D.hpp b/strictpp/array_base1D.hpp
index 8ce25ce..921e6fb 100644
--- a/strictpp/array_base1D.hpp
+++ b/strictpp/array_base1D.hpp
@@ -324,7 +324,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase1D<T, AF>::remove(ImplicitInt pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_index(*this, pos.get()));
-   ASSERT_STRICT_DEBUG(valid_index(*this, pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(valid_count(this->size(), pos.get(), count.get()));
 
    ArrayBase1D tmp(this->size() - count.get());
    copyn(*this, tmp, pos.get());
diff --git a/strictpp/array_base2D.hpp b/strictpp/array_base2D.hpp
index 1bd8933..37a93c8 100644
--- a/strictpp/array_base2D.hpp
+++ b/strictpp/array_base2D.hpp
@@ -309,7 +309,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_rows(ImplicitInt row_pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_row(*this, row_pos.get()));
-   ASSERT_STRICT_DEBUG(valid_row(*this, row_pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(valid_count(this->rows(), row_pos.get(), count.get()));
 
    index_t new_rows = this->rows() - count.get();
    ArrayBase2D tmp(new_rows, new_rows == 0_sl ? 0_sl : this->cols());
@@ -334,7 +334,7 @@ template <Builtin T, AlignmentFlag AF>
 STRICT_CONSTEXPR auto& ArrayBase2D<T, AF>::remove_cols(ImplicitInt col_pos, ImplicitInt count) {
    ASSERT_STRICT_DEBUG(count.get() > 0_sl);
    ASSERT_STRICT_DEBUG(valid_col(*this, col_pos.get()));
-   ASSERT_STRICT_DEBUG(valid_col(*this, col_pos.get() + count.get() - 1_sl));
+   ASSERT_STRICT_DEBUG(valid_count(this->cols(), col_pos.get(), count.get()));
 
    index_t new_cols = this->cols() - count.get();
    ArrayBase2D tmp(new_cols == 0_sl ? 0_sl : this->rows(), new_cols);
-- 
2.43.0


From 554980ea737cbe12f67b2324323df393b7a19c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 14/38] fix: every documented overload of semi_random can be
 called

---
 strictpp/Util/semi_random.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index be51207..c37bcf9 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -76,7 +76,7 @@ constexpr void semi_random_not0(Base&&... A);
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high,
                            Seed seed = Seed{One<unsigned>});
 
@@ -394,7 +394,7 @@ constexpr void semi_random_not0(Base&&... A) {
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
-template <Real T, typename U>
+template <Real T>
 constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed seed) {
    return detail::semi_random<T>(n, low, high, seed.get());
 }
@@ -402,7 +402,7 @@ constexpr auto semi_random(ImplicitInt n, Strict<T> low, Strict<T> high, Seed se
 
 template <Real T>
 constexpr auto semi_random(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -414,7 +414,7 @@ constexpr auto semi_random(ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Size n, Seed seed) {
-   return semi_random<T>(n.get(), seed.get());
+   return semi_random<T>(n.get(), seed);
 }
 
 
@@ -426,7 +426,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Strict<T> low, Strict<T
 
 template <Real T>
 constexpr auto semi_random(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -438,7 +438,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed.get());
+   return semi_random<T>(m.get(), n.get(), seed);
 }
 
 
@@ -451,7 +451,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Strict<T> low, Strict<T> high, Se
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -463,7 +463,7 @@ constexpr auto semi_random_not0(ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Size n, Seed seed) {
-   return semi_random_not0<T>(n.get(), seed.get());
+   return semi_random_not0<T>(n.get(), seed);
 }
 
 
@@ -476,7 +476,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Strict<T> low, Str
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Low<T> low, High<T> high, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), low.get(), high.get(), seed);
 }
 
 
@@ -488,7 +488,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed.get());
+   return semi_random_not0<T>(m.get(), n.get(), seed);
 }
 
 
-- 
2.43.0


From 358921c058f7166ec3a9d28958b2f78e4e96fdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 15/38] fix: semi-random generator has full period, so non-zero
 variants terminate

---
 strictpp/Util/semi_random.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index c37bcf9..25ef161 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -178,7 +178,9 @@ public:
 
 private:
    static constexpr Strict<unsigned> modulus_{10'000'000U};
-   static constexpr Strict<unsigned> multiplier_{8U};
+   // multiplier - 1 is divisible by 4 and by every prime factor of modulus, and increment is
+   // coprime to modulus. Thus, the period is full: low digits do not get stuck at one value.
+   static constexpr Strict<unsigned> multiplier_{21U};
    static constexpr Strict<unsigned> increment_{13U};
    mutable Strict<unsigned> previous_;
    Strict<T> low_;
-- 
2.43.0


From 7491acbb9dd3739937e63349e1a88596d3206b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:03 +0000
Subject: [PATCH 16/38] fix: semi-random integers of wide intervals do not
 overflow

---
 strictpp/Util/semi_random.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 25ef161..8f1f42d 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -169,7 +169,13 @@ public:
          if(low_ == Zero<T> && high_ == One<T>) {
             return rand_num > this->generate() ? Zero<T> : One<T>;
          } else {
-            return low_ + strict_cast<T>(rand_num) % (high_ - low_ + One<T>);
+            // Unsigned arithmetic, since the size of a wide interval might not fit into T.
+            const auto extent = strict_cast<unsigned long>(high_) - strict_cast<unsigned long>(low_);
+            auto offset = strict_cast<unsigned long>(rand_num);
+            if(offset > extent) {
+               offset %= extent + One<unsigned long>;
+            }
+            return strict_cast<T>(strict_cast<unsigned long>(low_) + offset);
          }
       } else {
          return rand_num > this->generate() ? false_sb : true_sb;
-- 
2.43.0


From 8e6beea26f8a2a71cc3f1a2ef413528edf98dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 17/38] fix: slices by index vector can be assigned from lists

---
 strictpp/ArrayCommon/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/ArrayCommon/algorithm.hpp b/strictpp/ArrayCommon/algorithm.hpp
index 2eea48b..6101171 100644
--- a/strictpp/ArrayCommon/algorithm.hpp
+++ b/strictpp/ArrayCommon/algorithm.hpp
@@ -41,7 +41,7 @@ STRICT_CONSTEXPR_INLINE void copy(It b, It e, Base& A) {
 
 template <OneDimBaseType Base>
 STRICT_CONSTEXPR_INLINE void copy(use::List1D<ValueTypeOf<Base>> L, Base& A) {
-   copy(L.begin(), L.end(), A);
+   detail::copy(L.begin(), L.end(), A);
 }
 
 
-- 
2.43.0


From 6d2ab29e4591605cacbeec8ed14361be5f4c623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:01 +0000
Subject: [PATCH 18/38] fix: generate of an owning temporary is deleted

---
 strictpp/Expr/binary.hpp | 6 ++++++
 strictpp/Expr/unary.hpp  | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 633d067..cf23ad6 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -88,6 +88,12 @@ auto pow_prod(const Base1& A1, const Base2& A2);
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Deleted overloads.
+template <typename Base1, typename Base2, typename F>
+   requires((detail::ArrayTypeRvalue<Base1> || detail::ArrayTypeRvalue<Base2>)
+            && expr::BinaryOperation<RemoveRef<Base1>, RemoveRef<Base2>, F>)
+STRICT_CONSTEXPR auto generate(Base1&& A1, Base2&& A2, F f) = delete;
+
+
 // It seems that checking for the first set of conditions, namely:
 // (RealBaseType<RemoveRef<Base1>> && RealBaseType<RemoveRef<Base2>>)
 // is redundant, but removing it would lead to ambiguities instead of selecting
diff --git a/strictpp/Expr/unary.hpp b/strictpp/Expr/unary.hpp
index a9f1cb8..5f4d1a3 100644
--- a/strictpp/Expr/unary.hpp
+++ b/strictpp/Expr/unary.hpp
@@ -100,6 +100,11 @@ STRICT_CONSTEXPR auto array_cast(const Base& A);
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 // Deleted overloads.
+template <typename Base, typename F>
+   requires(detail::ArrayTypeRvalue<Base> && expr::UnaryOperation<RemoveRef<Base>, F>)
+STRICT_CONSTEXPR auto generate(Base&& A, F f) = delete;
+
+
 template <typename Base>
    requires detail::ArrayRealTypeRvalue<Base>
 STRICT_CONSTEXPR auto operator+(Base&& A) = delete;
-- 
2.43.0


From 34966dd37037b919590baa89e94d9d138639374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:34 +0000
Subject: [PATCH 19/38] fix: pow_prod of an owning temporary is deleted

---
 strictpp/Expr/binary.hpp      | 2 +-
 strictpp/Expr/expr_traits.hpp | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index cf23ad6..4933420 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -171,7 +171,7 @@ auto two_prod(Base1&& A1, Base2&& A2) = delete;
 
 
 template <typename Base1, typename Base2>
-   requires(detail::FloatingExprDeleted<Base1, Base2>)
+   requires(detail::PowExprDeleted<Base1, Base2>)
 auto pow_prod(Base1&& A1, Base2&& A2) = delete;
 
 
diff --git a/strictpp/Expr/expr_traits.hpp b/strictpp/Expr/expr_traits.hpp
index ff2e333..c614e44 100644
--- a/strictpp/Expr/expr_traits.hpp
+++ b/strictpp/Expr/expr_traits.hpp
@@ -52,4 +52,11 @@ template <typename Base1, typename Base2> concept FloatingExprDeleted =
        || !same_dimension_b<RemoveRef<Base1>, RemoveRef<Base2>>());
 
 
+// First operand is floating, second operand is signed integer.
+template <typename Base1, typename Base2> concept PowExprDeleted =
+   (FloatingBaseType<RemoveRef<Base1>> && SignedIntegerBaseType<RemoveRef<Base2>>)
+   && (ArrayFloatingTypeRvalue<Base1> || ArrayIntegerTypeRvalue<Base2>
+       || !same_dimension_b<RemoveRef<Base1>, RemoveRef<Base2>>());
+
+
 } // namespace spp::detail
-- 
2.43.0


From ae96e01cfc2bbc332ec7ced6dc9624fc15e14dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:06 +0000
Subject: [PATCH 20/38] fix: Eigen map of an owning temporary is rejected

---
 strictpp/Eigen/map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index bd282f2..2539949 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -56,7 +56,7 @@ struct CopyConstTo<const T, U> {
 
 
 template <typename Base>
-   requires TwoDimOwnerType<RemoveRef<Base>>
+   requires(TwoDimOwnerType<RemoveRef<Base>> && !spp::detail::ArrayTwoDimTypeRvalue<Base>)
 auto map(Base&& A) {
    using namespace Eigen;
    using builtin_type = BuiltinTypeOf<Base>;
-- 
2.43.0


From a890cbd4d4427dcf35080cadab38de2ecfabe2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:22 +0000
Subject: [PATCH 21/38] fix: binary operations on two slices by index vector
 compile

---
 strictpp/Expr/binary.hpp | 86 ++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/strictpp/Expr/binary.hpp b/strictpp/Expr/binary.hpp
index 4933420..9140099 100644
--- a/strictpp/Expr/binary.hpp
+++ b/strictpp/Expr/binary.hpp
@@ -471,251 +471,251 @@ STRICT_CONSTEXPR auto generate(const Base1& A1, const Base2& A2, F f) {
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator+(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryPlus{});
+   return spp::generate(A1, A2, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator-(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMinus{});
+   return spp::generate(A1, A2, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator*(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryMult{});
+   return spp::generate(A1, A2, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base1, RealBaseType Base2>
 STRICT_CONSTEXPR auto operator/(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryDivide{});
+   return spp::generate(A1, A2, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator%(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryModulo{});
+   return spp::generate(A1, A2, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator<<(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryRightShift{});
+   return spp::generate(A1, A2, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator>>(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryLeftShift{});
+   return spp::generate(A1, A2, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseAnd{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator|(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseOr{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base1, IntegerBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBitwiseXor{});
+   return spp::generate(A1, A2, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator&&(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanAnd{});
+   return spp::generate(A1, A2, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator||(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanOr{});
+   return spp::generate(A1, A2, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base1, BooleanBaseType Base2>
 STRICT_CONSTEXPR auto operator^(const Base1& A1, const Base2& A2) {
-   return generate(A1, A2, expr::BinaryBooleanXor{});
+   return spp::generate(A1, A2, expr::BinaryBooleanXor{});
 }
 
 
 template <FloatingBaseType Base1, FloatingBaseType Base2>
 auto two_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryTwoProdFirst{}),
-                    generate(A1, A2, expr::BinaryTwoProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryTwoProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryTwoProdSecond{})};
 }
 
 
 template <FloatingBaseType Base1, SignedIntegerBaseType Base2>
 auto pow_prod(const Base1& A1, const Base2& A2) {
-   return std::pair{generate(A1, A2, expr::BinaryPowProdFirst{}),
-                    generate(A1, A2, expr::BinaryPowProdSecond{})};
+   return std::pair{spp::generate(A1, A2, expr::BinaryPowProdFirst{}),
+                    spp::generate(A1, A2, expr::BinaryPowProdSecond{})};
 }
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator+(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryPlus{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator-(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryMinus{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator*(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryMult{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator/(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryDivide{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator%(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryModulo{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator<<(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryRightShift{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator>>(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryLeftShift{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator&(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBitwiseAnd{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator|(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBitwiseOr{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator^(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBitwiseXor{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator&&(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBooleanAnd{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator||(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBooleanOr{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator^(ValueTypeOf<Base> x, const Base& A) {
-   return generate(detail::generate_const(A, x), A, expr::BinaryBooleanXor{});
+   return spp::generate(detail::generate_const(A, x), A, expr::BinaryBooleanXor{});
 }
 
 
 ////////////////////////////////////////////////////////////////////////////////////////////////////
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator+(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryPlus{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryPlus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator-(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryMinus{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryMinus{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator*(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryMult{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryMult{});
 }
 
 
 template <RealBaseType Base>
 STRICT_CONSTEXPR auto operator/(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryDivide{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryDivide{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator%(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryModulo{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryModulo{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator<<(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryRightShift{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryRightShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator>>(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryLeftShift{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryLeftShift{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator&(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBitwiseAnd{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBitwiseAnd{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator|(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBitwiseOr{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBitwiseOr{});
 }
 
 
 template <IntegerBaseType Base>
 STRICT_CONSTEXPR auto operator^(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBitwiseXor{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBitwiseXor{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator&&(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBooleanAnd{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBooleanAnd{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator||(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBooleanOr{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBooleanOr{});
 }
 
 
 template <BooleanBaseType Base>
 STRICT_CONSTEXPR auto operator^(const Base& A, ValueTypeOf<Base> x) {
-   return generate(A, detail::generate_const(A, x), expr::BinaryBooleanXor{});
+   return spp::generate(A, detail::generate_const(A, x), expr::BinaryBooleanXor{});
 }
 
 
-- 
2.43.0


From d5573b6dd2dc1d6f62850f24615821b095c4e8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:39 +0000
Subject: [PATCH 22/38] fix: none_of of two slices by index vector compiles

---
 strictpp/array_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_ops.hpp b/strictpp/array_ops.hpp
index 536c9f2..07c60e4 100644
--- a/strictpp/array_ops.hpp
+++ b/strictpp/array_ops.hpp
@@ -667,7 +667,7 @@ STRICT_CONSTEXPR StrictBool none_of(const Base1& A1, const Base2& A2, F f,
    if(A1.empty()) {
       return empty_default;
    }
-   return !any_of(A1, A2, f);
+   return !spp::any_of(A1, A2, f);
 }
 
 
-- 
2.43.0


From 76a9259fea9fe1a5578289d994c84dfb10c10a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:27 +0000
Subject: [PATCH 23/38] fix: binom_coeff does not overflow when the result is
 representable

---
 strictpp/StrictCommon/strict_val_ops.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index 9531dd2..b1da330 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -16,6 +16,7 @@
 #include <algorithm>
 #include <cstdlib>
 #include <memory>
+#include <numeric>
 
 
 namespace spp {
@@ -36,7 +37,10 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<long int> binom_coeff(ImplicitInt n, Im
 
    index_t prod = 1_sl;
    for(index_t f1 = d1 + 1_sl, f2 = 1_sl; f1 <= d1 + d2; ++f1, ++f2) {
-      prod = prod * f1 / f2; // Can prove that (prod * f1) is divisible by f2.
+      // Can prove that (prod * f1) is divisible by f2. Common factors are removed first
+      // so that the product does not overflow unless the result does.
+      const index_t g{std::gcd(prod.val(), f2.val())};
+      prod = (prod / g) * (f1 / (f2 / g));
    }
    return prod;
 }
-- 
2.43.0


From e4611f3c37267e4b41ae72de31135376cd3a4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:48 +0000
Subject: [PATCH 24/38] fix: binom_coeff of the largest index does not overflow
 its loop counter

---
 strictpp/StrictCommon/strict_val_ops.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strictpp/StrictCommon/strict_val_ops.hpp b/strictpp/StrictCommon/strict_val_ops.hpp
index b1da330..d8cb50d 100644
--- a/strictpp/StrictCommon/strict_val_ops.hpp
+++ b/strictpp/StrictCommon/strict_val_ops.hpp
@@ -36,7 +36,8 @@ STRICT_NODISCARD_CONSTEXPR_INLINE Strict<long int> binom_coeff(ImplicitInt n, Im
    index_t d2 = k.get();
 
    index_t prod = 1_sl;
-   for(index_t f1 = d1 + 1_sl, f2 = 1_sl; f1 <= d1 + d2; ++f1, ++f2) {
+   for(index_t f2 = 1_sl; f2 <= d2; ++f2) {
+      const index_t f1 = d1 + f2;
       // Can prove that (prod * f1) is divisible by f2. Common factors are removed first
       // so that the product does not overflow unless the result does.
       const index_t g{std::gcd(prod.val(), f2.val())};
-- 
2.43.0


From 07eebf1a875dae6aa07efe7b8fe8febc99bc7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 25/38] fix: array input rejects a malformed or out-of-range
 last token

---
 strictpp/array_IO.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 5ca2934..def9b35 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -110,7 +110,9 @@ std::istream& istream_base_read(std::istream& is, Array1D<T, AF>& A) {
    index_t count{};
 
    Array1D<T, AF> tmp(8);
-   while(is >> x) {
+   while((is >> std::ws).good()) {
+      is >> x;
+      ASSERT_STRICT_ALWAYS_MSG(!is.fail(), "Invalid input.\n");
       tmp.un(count++) = Strict{x};
       if(tmp.size() == count) {
          tmp.resize(2_sl * count);
@@ -133,7 +135,9 @@ void get_first_row(const std::string& line, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while((iss >> std::ws).good()) {
+      iss >> x;
+      ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
       A(0, ncols++) = Strict{x};
       if(A.cols() == ncols) {
          A.resize(1, 2_sl * ncols);
@@ -155,7 +159,9 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    T x{};
    std::istringstream iss{line};
    index_t ncols{};
-   while(iss >> x) {
+   while((iss >> std::ws).good()) {
+      iss >> x;
+      ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From efbf95b79416afbf3d45fee8c0620fb3d0855272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 26/38] fix: a longer row of a two-dimensional input is
 rejected before it is stored in every build

---
 strictpp/array_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index def9b35..e00ff8c 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -162,6 +162,7 @@ void get_row(const std::string& line, index_t row, Array2D<T, AF>& A) {
    while((iss >> std::ws).good()) {
       iss >> x;
       ASSERT_STRICT_ALWAYS_MSG(!iss.fail(), "Invalid input.\n");
+      ASSERT_STRICT_ALWAYS(ncols < A.cols());
       A(row, ncols++) = Strict{x};
    }
 
-- 
2.43.0


From 6a375fa7e8b4f5543b6ed41ea3b519498aea38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 27/38] fix: reading a two-dimensional array from an unreadable
 stream is rejected

---
 strictpp/array_IO.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index e00ff8c..919e6b9 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -199,6 +199,8 @@ std::istream& istream_base_read(std::istream& is, Array2D<T, AF>& A) {
       tmp.resize(row_count, ncols);
    }
 
+   ASSERT_STRICT_ALWAYS_MSG(is.eof(), "Invalid input.\n");
+
    A.swap(tmp);
    return is;
 }
-- 
2.43.0


From 243648dd4760ea23151eab0eb941a017f19b8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 28/38] fix: printing a two-dimensional array with the smallest
 integer does not overflow

---
 strictpp/array_IO.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 919e6b9..7a34aa8 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -15,6 +15,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -278,7 +279,13 @@ auto max_if_needed(TwoDimBaseType auto const& A) {
    auto max_abs = Zero<builtin_type>;
    if constexpr(Integer<builtin_type> || Floating<builtin_type>) {
       if constexpr(std::is_copy_constructible_v<RemoveRef<decltype(A)>>) {
-         max_abs = max(abs(A.view1D()));
+         if constexpr(SignedInteger<builtin_type>) {
+            // The smallest value has no absolute value but the same number of digits as the next.
+            const auto low = Strict{std::numeric_limits<builtin_type>::min() + builtin_type{1}};
+            max_abs = max(generate(A.view1D(), [low](auto x) { return abss(maxs(x, low)); }));
+         } else {
+            max_abs = max(abs(A.view1D()));
+         }
       } else {
          // Handle random expression templates differently since max(abs()) operation
          // is not allowed due to deleted copy constructor.
-- 
2.43.0


From e29a638739778635ffda24075e1660f1097c847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:32 +0000
Subject: [PATCH 29/38] fix: reading a quad scalar from an exhausted stream is
 rejected like the other types

---
 strictpp/StrictCommon/strict_IO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 54cf842..553443a 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -236,6 +236,7 @@ template <Quadruple T>
 std::istream& operator>>(std::istream& is, Strict<T>& x) {
    float128 v;
    is >> v;
+   ASSERT_STRICT_ALWAYS(is);
    x = Strict{v};
    return is;
 }
-- 
2.43.0


From c11be1ffc685982fa5911cd4955fbb8e49cee641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:00 +0000
Subject: [PATCH 30/38] fix: two-dimensional quad arrays can be printed

---
 strictpp/array_IO.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strictpp/array_IO.hpp b/strictpp/array_IO.hpp
index 7a34aa8..38af76d 100644
--- a/strictpp/array_IO.hpp
+++ b/strictpp/array_IO.hpp
@@ -211,7 +211,7 @@ auto count_digit(Real auto number) -> int {
    if(number == 0) {
       return 1;
    }
-   return static_cast<int>(std::log10(number)) + 1;
+   return static_cast<int>(std::log10(static_cast<long double>(number))) + 1;
 }
 
 
-- 
2.43.0


From 8e67a0b17b956fa96389bca986b76c169e19e5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:32 +0000
Subject: [PATCH 31/38] fix: qualify all_of in within_tol so that slices by
 index vectors compile

---
 strictpp/Util/error_tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/error_tools.hpp b/strictpp/Util/error_tools.hpp
index cd884de..90dc39f 100644
--- a/strictpp/Util/error_tools.hpp
+++ b/strictpp/Util/error_tools.hpp
@@ -64,7 +64,7 @@ STRICT_CONSTEXPR StrictBool within_tol_abs(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
+   return ::spp::all_of(A1, A2, [tol](const auto& x, const auto& y) { return within_tol_abs(x, y, tol); });
 }
 
 
@@ -78,7 +78,7 @@ STRICT_CONSTEXPR StrictBool within_tol_rel(
    if(A1.empty()) {
       return empty_default;
    }
-   return all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
+   return ::spp::all_of(A1, A2, [tol, near_zero](const auto& x, const auto& y) {
       return within_tol_rel(x, y, tol, near_zero);
    });
 }
-- 
2.43.0


From 49a10e76088addf6a7d88e665d3e0c0e69e5d930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:02 +0000
Subject: [PATCH 32/38] fix: generate quad precision random numbers within
 their bounds

---
 strictpp/Util/random.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/strictpp/Util/random.hpp b/strictpp/Util/random.hpp
index c765618..65ee343 100644
--- a/strictpp/Util/random.hpp
+++ b/strictpp/Util/random.hpp
@@ -191,22 +191,26 @@ private:
 };
 
 
-// Generates quadruple precision numbers that are double precision numbers.
+// Uses random numbers that are double precision numbers, but honours quadruple precision bounds.
 #ifdef STRICT_QUAD_PRECISION
 template <Quadruple T>
 struct Generator<T> {
    Generator(Strict<T> l, Strict<T> h)
       : gen{std::random_device{}()},
-        dst{l.sd().val(), h.sd().val()} {
+        dst{0.0, 1.0},
+        low{l},
+        high{h} {
    }
 
    auto random() const {
-      return Strict{dst(gen)}.sq();
+      return low + Strict{dst(gen)}.sq() * (high - low);
    }
 
 private:
    mutable std::mt19937 gen;
    mutable std::uniform_real_distribution<double> dst;
+   Strict<T> low;
+   Strict<T> high;
 };
 #endif
 
-- 
2.43.0


From 2612b5b5c93f4637a88e66ade8c3119d8e2e212a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:30 +0000
Subject: [PATCH 33/38] fix: resolve ambiguous semi_random overloads for long
 with Rows and Cols

---
 strictpp/Util/semi_random.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strictpp/Util/semi_random.hpp b/strictpp/Util/semi_random.hpp
index 8f1f42d..071e1ee 100644
--- a/strictpp/Util/semi_random.hpp
+++ b/strictpp/Util/semi_random.hpp
@@ -446,7 +446,7 @@ constexpr auto semi_random(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Builtin T>
 constexpr auto semi_random(Rows m, Cols n, Seed seed) {
-   return semi_random<T>(m.get(), n.get(), seed);
+   return detail::semi_random<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
@@ -496,7 +496,7 @@ constexpr auto semi_random_not0(ImplicitInt m, ImplicitInt n, Seed seed) {
 
 template <Real T>
 constexpr auto semi_random_not0(Rows m, Cols n, Seed seed) {
-   return semi_random_not0<T>(m.get(), n.get(), seed);
+   return detail::semi_random_not0<T>(m.get(), n.get(), Zero<T>, One<T>, seed.get());
 }
 
 
-- 
2.43.0


From 8efc0c0674e4b88ade97e585cb319d0e2ced3b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:58 +0000
Subject: [PATCH 34/38] fix: compute the size of even slices without overflow

---
 strictpp/slice.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strictpp/slice.hpp b/strictpp/slice.hpp
index efa63a1..d551b77 100644
--- a/strictpp/slice.hpp
+++ b/strictpp/slice.hpp
@@ -334,15 +334,15 @@ public:
    }
 
    STRICT_CONSTEXPR_INLINE static auto get(OneDimBaseType auto const& A) {
-      return seqN{0, (A.size() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.size() - A.size() / 2_sl, 2};
    }
 
    STRICT_CONSTEXPR_INLINE static auto get_row(TwoDimBaseType auto const& A) {
-      return seqN{0, (A.rows() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.rows() - A.rows() / 2_sl, 2};
    }
 
    STRICT_CONSTEXPR_INLINE static auto get_col(TwoDimBaseType auto const& A) {
-      return seqN{0, (A.cols() + 1_sl) / 2_sl, 2};
+      return seqN{0, A.cols() - A.cols() / 2_sl, 2};
    }
 };
 
-- 
2.43.0


From c774f12ab8bebced6b7ebc27dd2358b926f73f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:00 +0000
Subject: [PATCH 35/38] fix: map fixed-size column vectors to Eigen

---
 strictpp/Eigen/map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/strictpp/Eigen/map.hpp b/strictpp/Eigen/map.hpp
index 2539949..91cc4c8 100644
--- a/strictpp/Eigen/map.hpp
+++ b/strictpp/Eigen/map.hpp
@@ -63,9 +63,12 @@ auto map(Base&& A) {
    using base = RemoveRef<Base>;
 
    if constexpr(base::is_fixed()) {
-      using matrix_type = detail::CopyConstTo<
-         base,
-         Matrix<builtin_type, base::rows().val(), base::cols().val(), RowMajor>>::value_type;
+      // Eigen does not allow column vectors to be row-major, the layout is the same.
+      constexpr auto rows = base::rows().val();
+      constexpr auto cols = base::cols().val();
+      constexpr auto order = (cols == 1 && rows != 1) ? ColMajor : RowMajor;
+      using matrix_type =
+         detail::CopyConstTo<base, Matrix<builtin_type, rows, cols, order>>::value_type;
 
       return Map<matrix_type, detail::eigen_align<base>()>{A.blas_data()};
    } else {
-- 
2.43.0


From b40e07942f03fb795c30a9471a91ebd87bc76bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:09 +0000
Subject: [PATCH 36/38] fix: reject merged sizes that are not representable

---
 strictpp/ArrayCommon/valid.hpp |  7 +++++++
 strictpp/Expr/special.hpp      | 16 ++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/strictpp/ArrayCommon/valid.hpp b/strictpp/ArrayCommon/valid.hpp
index 62a5e98..97c61d2 100644
--- a/strictpp/ArrayCommon/valid.hpp
+++ b/strictpp/ArrayCommon/valid.hpp
@@ -65,6 +65,13 @@ STRICT_CONSTEXPR index_t row_col_product(index_t m, index_t n) {
 }
 
 
+// Sum of two sizes must be representable.
+STRICT_CONSTEXPR index_t size_sum(index_t m, index_t n) {
+   ASSERT_STRICT_DEBUG(m <= index_t{std::numeric_limits<long int>::max()} - n);
+   return m + n;
+}
+
+
 STRICT_CONSTEXPR StrictBool valid_reshape(BaseType auto const& A, index_t m, index_t n) {
    if(m < 0_sl || n < 0_sl || !valid_row_col_product(m, n)) {
       return false_sb;
diff --git a/strictpp/Expr/special.hpp b/strictpp/Expr/special.hpp
index a511944..dd710cb 100644
--- a/strictpp/Expr/special.hpp
+++ b/strictpp/Expr/special.hpp
@@ -290,7 +290,7 @@ STRICT_CONSTEXPR auto merge(const Base& A, const BaseArgs&... AArgs) {
    auto AE = generate(A, [](auto x) { return x; });
    auto ArgsE = merge(AArgs...);
    auto op = [AE, ArgsE](auto i) { return i < AE.size() ? AE.un(i) : ArgsE.un(i - AE.size()); };
-   return generate(irange(AE.size() + ArgsE.size()), op);
+   return generate(irange(detail::size_sum(AE.size(), ArgsE.size())), op);
 }
 
 
@@ -299,7 +299,7 @@ STRICT_CONSTEXPR auto merge(const Base1& A1, const Base2& A2) {
    auto A1E = generate(A1, [](auto x) { return x; });
    auto A2E = generate(A2, [](auto x) { return x; });
    auto op = [A1E, A2E](auto i) { return i < A1E.size() ? A1E.un(i) : A2E.un(i - A1E.size()); };
-   return generate(irange(A1.size() + A2.size()), op);
+   return generate(irange(detail::size_sum(A1.size(), A2.size())), op);
 }
 
 
@@ -313,7 +313,7 @@ template <OneDimBaseType Base, StrictBuiltin Strict_t>
 STRICT_CONSTEXPR auto merge(const Base& A, Strict_t x) {
    auto AE = generate(A, [](auto z) { return z; });
    auto op = [AE, x](auto i) { return i == AE.size() ? x : AE.un(i); };
-   return generate(irange(AE.size() + 1_sl), op);
+   return generate(irange(detail::size_sum(AE.size(), 1_sl)), op);
 }
 
 
@@ -329,7 +329,7 @@ template <StrictBuiltin Strict_t, OneDimBaseType Base>
 STRICT_CONSTEXPR auto merge(Strict_t x, const Base& A) {
    auto AE = generate(A, [](auto z) { return z; });
    auto op = [AE, x](auto i) { return i == 0_sl ? x : AE.un(i - 1_sl); };
-   return generate(irange(AE.size() + 1_sl), op);
+   return generate(irange(detail::size_sum(AE.size(), 1_sl)), op);
 }
 
 
@@ -343,7 +343,7 @@ STRICT_CONSTEXPR auto merge_horizontal(const Base& A, const BaseArgs&... AArgs)
       ASSERT_STRICT_DEBUG(AE.rows() == ArgsE.rows());
    }
    auto ERows = !AE.empty() ? AE.rows() : ArgsE.rows();
-   return generate(detail::irange2D(ERows, AE.cols() + ArgsE.cols()),
+   return generate(detail::irange2D(ERows, detail::size_sum(AE.cols(), ArgsE.cols())),
                    detail::horizontal_op(AE, ArgsE));
 }
 
@@ -357,7 +357,7 @@ STRICT_CONSTEXPR auto merge_horizontal(const Base1& A1, const Base2& A2) {
       ASSERT_STRICT_DEBUG(A1.rows() == A2.rows());
    }
    auto ERows = !A1E.empty() ? A1E.rows() : A2E.rows();
-   return generate(detail::irange2D(ERows, A1E.cols() + A2E.cols()),
+   return generate(detail::irange2D(ERows, detail::size_sum(A1E.cols(), A2E.cols())),
                    detail::horizontal_op(A1E, A2E));
 }
 
@@ -372,7 +372,7 @@ STRICT_CONSTEXPR auto merge_vertical(const Base& A, const BaseArgs&... AArgs) {
    }
    auto ECols = !AE.empty() ? AE.cols() : ArgsE.cols();
    auto op = [AE, ArgsE](auto i) { return i < AE.size() ? AE.un(i) : ArgsE.un(i - AE.size()); };
-   return generate(detail::irange2D(AE.rows() + ArgsE.rows(), ECols), op);
+   return generate(detail::irange2D(detail::size_sum(AE.rows(), ArgsE.rows()), ECols), op);
 }
 
 
@@ -386,7 +386,7 @@ STRICT_CONSTEXPR auto merge_vertical(const Base1& A1, const Base2& A2) {
    }
    auto ECols = !A1E.empty() ? A1E.cols() : A2E.cols();
    auto op = [A1E, A2E](auto i) { return i < A1E.size() ? A1E.un(i) : A2E.un(i - A1E.size()); };
-   return generate(detail::irange2D(A1E.rows() + A2E.rows(), ECols), op);
+   return generate(detail::irange2D(detail::size_sum(A1E.rows(), A2E.rows()), ECols), op);
 }
 
 
-- 
2.43.0


From 75c96902fe0c8dce507996b1dacbe64cf3483fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 37/38] fix: reject unsigned literals that do not fit instead
 of wrapping them

---
 strictpp/StrictCommon/strict_literals.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strictpp/StrictCommon/strict_literals.hpp b/strictpp/StrictCommon/strict_literals.hpp
index 07489bb..7f84f4c 100644
--- a/strictpp/StrictCommon/strict_literals.hpp
+++ b/strictpp/StrictCommon/strict_literals.hpp
@@ -26,6 +26,7 @@ consteval Strict<long int> operator""_sl(unsigned long long x) {
 
 
 consteval Strict<unsigned int> operator""_sui(unsigned long long x) {
+   ASSERT_STRICT_DEBUG(x <= std::numeric_limits<unsigned int>::max());
    return Strict{static_cast<unsigned int>(x)};
 }
 
-- 
2.43.0


From f9d888eca78a603fb224e6526bdca6c5da5b7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:25 +0000
Subject: [PATCH 38/38] fix: print quad-precision values completely, whatever
 their number of digits

---
 strictpp/StrictCommon/strict_IO.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/strictpp/StrictCommon/strict_IO.hpp b/strictpp/StrictCommon/strict_IO.hpp
index 553443a..ce20268 100644
--- a/strictpp/StrictCommon/strict_IO.hpp
+++ b/strictpp/StrictCommon/strict_IO.hpp
@@ -244,16 +244,15 @@ std::istream& operator>>(std::istream& is, Strict<T>& x) {
 
 template <Quadruple T>
 std::ostream& operator<<(std::ostream& os, T x) {
-   static thread_local char buf[128];
-   if(format.scientific_) {
-      std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QE");
-      int width = format.precision_[3] + 7;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
-   } else {
-      std::string frmt = "%+-#*." + std::to_string(format.precision_[3]) + std::string("QF");
-      int width = format.precision_[3] + 3;
-      quadmath_snprintf(buf, sizeof(buf), frmt.c_str(), width, x);
-   }
+   const char* frmt = format.scientific_ ? "%+-#*.*QE" : "%+-#*.*QF";
+   const int precision = format.precision_[3];
+   const int width = precision + (format.scientific_ ? 7 : 3);
+   // Number of digits in fixed notation depends on the value, thus the required size is computed first.
+   const int length = quadmath_snprintf(nullptr, 0, frmt, width, precision, x);
+   ASSERT_STRICT_ALWAYS(length >= 0);
+   std::string buf(static_cast<std::string::size_type>(length) + 1, '\0');
+   quadmath_snprintf(buf.data(), buf.size(), frmt, width, precision, x);
+   buf.pop_back(); // terminating null character.
    os << buf;
    return os;
 }
-- 
2.43.0


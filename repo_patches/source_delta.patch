From ff05a4a002efe724193c687cc343c2618c3a7b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 01/23] fix: do not reduce products of spin-1/2 and higher spin
 operators

simplify_prod() applied the S=1/2 product rules whenever the first factor had
S=1/2 and both factors had equal indices, so S_p(0) * S_p<3>(0) became zero.
---
 include/libcommute/expression/generator_spin.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..94a3197 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,8 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 || g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From 38e2bcc424157f3980467a2238d697e3f3aa9b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 02/23] fix: never store zero coefficients in an expression

A coefficient could vanish in a conversion between scalar types, in a
product with a constant, or in normalization of a monomial with less than
two generators, and was stored without a test.
---
 include/libcommute/expression/expression.hpp | 66 ++++++++++++++------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..74ff306 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -90,7 +90,8 @@ public:
     // NOLINTNEXTLINE(modernize-type-traits)
     static_assert(std::is_constructible<scalar_type, S>::value,
                   "Incompatible scalar type in construction");
-    if(!scalar_traits<S>::is_zero(x)) monomials_.emplace(monomial_t{}, x);
+    if(!scalar_traits<S>::is_zero(x))
+      store_monomial(monomial_t{}, scalar_type(x), monomials_);
   }
 
   // Construct from a monomial
@@ -109,8 +110,9 @@ private:
       typename monomial_t::generator_type::linear_function_t const& f) {
     // cppcheck-suppress knownConditionTrueFalse
     if(!f.const_term.is_zero())
-      monomials_.emplace(monomial_t{},
-                         scalar_traits<ScalarType>::make_const(f.const_term));
+      store_monomial(monomial_t{},
+                     scalar_traits<ScalarType>::make_const(f.const_term),
+                     monomials_);
     for(auto const& g : f.terms) {
       auto v = scalar_traits<ScalarType>::make_const(g.second);
       // cppcheck-suppress knownConditionTrueFalse
@@ -127,7 +129,7 @@ public:
                   "Incompatible scalar type in assignment");
     monomials_.clear();
     for(auto const& y : x.get_monomials())
-      monomials_.emplace(monomial_t(y.first), scalar_type(y.second));
+      store_monomial(monomial_t(y.first), scalar_type(y.second), monomials_);
     return *this;
   }
 
@@ -206,8 +208,8 @@ public:
           (*m_it).conj(f);
           m_contrib *= expression(f);
         }
+        res += m_contrib;
       }
-      res += m_contrib;
     }
     return res;
   }
@@ -249,7 +251,9 @@ public:
     for(auto const& p : expr.get_monomials()) {
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
-        monomials_.emplace(p);
+        store_monomial(monomial_t(p.first),
+                       scalar_type(p.second),
+                       monomials_);
       else {
         add_assign(it->second, p.second);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -264,7 +268,9 @@ public:
     for(auto const& p : expr.get_monomials()) {
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
-        monomials_.emplace(p.first, z - p.second);
+        store_monomial(monomial_t(p.first),
+                       scalar_type(z - p.second),
+                       monomials_);
       else {
         sub_assign(it->second, p.second);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -379,9 +385,11 @@ public:
   expression& operator*=(S const& alpha) {
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
-    else
+    else {
       for(auto& p : monomials_)
         mul_assign(p.second, alpha);
+      remove_zeros(monomials_);
+    }
     return *this;
   }
 
@@ -394,7 +402,7 @@ public:
       if(it == monomials_.end()) {
         auto val = scalar_traits<ScalarType>::make_const(0);
         add_assign(val, alpha);
-        monomials_.emplace_hint(monomials_.begin(), monomial_t{}, val);
+        store_monomial(monomial_t{}, val, monomials_);
       } else {
         add_assign(it->second, alpha);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -411,7 +419,7 @@ public:
     if(!scalar_traits<s_t>::is_zero(alpha)) {
       auto it = monomials_.find(monomial_t{});
       if(it == monomials_.end()) {
-        monomials_.emplace_hint(monomials_.begin(), monomial_t{}, z - alpha);
+        store_monomial(monomial_t{}, scalar_type(z - alpha), monomials_);
       } else {
         sub_assign(it->second, alpha);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -612,10 +620,8 @@ private:
     bool is_new_monomial;
     typename monomials_map_t::iterator it;
     std::tie(it, is_new_monomial) = target.emplace(std::move(m), coeff);
-    if(!is_new_monomial) {
-      add_assign(it->second, coeff);
-      if(scalar_traits<ScalarType>::is_zero(it->second)) target.erase(it);
-    }
+    if(!is_new_monomial) add_assign(it->second, coeff);
+    if(scalar_traits<ScalarType>::is_zero(it->second)) target.erase(it);
   }
 
   // Normalize a monomial and store in a map
@@ -688,10 +694,11 @@ private:
         --n_max;
       } while(is_swapped);
 
-      // Check that coefficient in front of this monomial is not zero
-      if(scalar_traits<ScalarType>::is_zero(coeff)) return;
     }
 
+    // Check that coefficient in front of this monomial is not zero
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
+
     // Store the result
     reduce_powers_and_store(std::move(m), coeff, target);
   }
@@ -750,6 +757,17 @@ private:
   // Multiplication by scalar
   //
 
+  // Remove all monomials with a zero coefficient. A product of two non-zero
+  // scalars can be zero, for instance, within the tolerance of is_zero().
+  static void remove_zeros(monomials_map_t& target) {
+    for(auto it = target.begin(); it != target.end();) {
+      if(scalar_traits<ScalarType>::is_zero(it->second))
+        it = target.erase(it);
+      else
+        ++it;
+    }
+  }
+
   // Multiplication by scalar (postfix form)
   // mul_res_t<ScalarType, S> == ScalarType
   template <typename S>
@@ -758,6 +776,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       mul_assign(p.second, alpha);
+    remove_zeros(res.monomials_);
     return res;
   }
 
@@ -769,8 +788,11 @@ private:
   mul_const_postfix_impl(S&& alpha, std::false_type) const {
     expression_t<mul_res_t<ScalarType, S>> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, p.second * alpha);
+    for(auto const& p : monomials_) {
+      auto val = p.second * alpha;
+      if(!scalar_traits<mul_res_t<ScalarType, S>>::is_zero(val))
+        res_mons.emplace_hint(res_mons.end(), p.first, val);
+    }
     return res;
   }
 
@@ -782,6 +804,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       p.second = alpha * p.second;
+    remove_zeros(res.monomials_);
     return res;
   }
 
@@ -793,8 +816,11 @@ private:
   mul_const_prefix_impl(S&& alpha, std::false_type) const {
     expression_t<mul_res_t<S, ScalarType>> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, alpha * p.second);
+    for(auto const& p : monomials_) {
+      auto val = alpha * p.second;
+      if(!scalar_traits<mul_res_t<S, ScalarType>>::is_zero(val))
+        res_mons.emplace_hint(res_mons.end(), p.first, val);
+    }
     return res;
   }
 
-- 
2.43.0


From 26d8361e69d45d724dc1bca1cdfe3c4d295305e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 03/23] fix: subtraction of an expression from itself

'e -= e' erased the monomial its loop iterator was pointing at.
---
 include/libcommute/expression/expression.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 74ff306..6aea1e1 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -248,7 +248,10 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
-    for(auto const& p : expr.get_monomials()) {
+    // 'expr' can be *this: Step past a monomial before it is erased
+    auto const& expr_mons = expr.get_monomials();
+    for(auto expr_it = expr_mons.begin(); expr_it != expr_mons.end();) {
+      auto const& p = *expr_it++;
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         store_monomial(monomial_t(p.first),
@@ -265,7 +268,10 @@ public:
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
     auto const z = scalar_traits<ScalarType>::make_const(0);
-    for(auto const& p : expr.get_monomials()) {
+    // 'expr' can be *this: Step past a monomial before it is erased
+    auto const& expr_mons = expr.get_monomials();
+    for(auto expr_it = expr_mons.begin(); expr_it != expr_mons.end();) {
+      auto const& p = *expr_it++;
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         store_monomial(monomial_t(p.first),
-- 
2.43.0


From 641e62cbf0d5234a82b63656b18152a0a84d7dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 04/23] fix: multiplication of an expression by one of its own
 coefficients

'e *= c' with 'c' referring to a coefficient of 'e' multiplied the
remaining coefficients by an already updated value.
---
 include/libcommute/expression/expression.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 6aea1e1..6f0bbe0 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -392,8 +392,10 @@ public:
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
     else {
+      // 'alpha' can refer to one of the coefficients of this expression
+      remove_cvref_t<S> const a(alpha);
       for(auto& p : monomials_)
-        mul_assign(p.second, alpha);
+        mul_assign(p.second, a);
       remove_zeros(monomials_);
     }
     return *this;
-- 
2.43.0


From f849b96c8fce6ef548b89804cab71084dd53a404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 05/23] fix: canonicalize rational constants converted to
 mpq_class

---
 include/libcommute/scalars/gmpxx.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/scalars/gmpxx.hpp b/include/libcommute/scalars/gmpxx.hpp
index 0f9ce71..168e83c 100644
--- a/include/libcommute/scalars/gmpxx.hpp
+++ b/include/libcommute/scalars/gmpxx.hpp
@@ -123,9 +123,12 @@ template <> struct scalar_traits<mpq_class> {
   static mpq_class make_const(var_number const& vn) {
     if(vn.number_type == var_number::integer)
       return int(vn);
-    else if(vn.number_type == var_number::rational)
-      return {vn.numerator(), vn.denominator()};
-    else {
+    else if(vn.number_type == var_number::rational) {
+      // GMP requires rational numbers to be in the canonical form
+      mpq_class q(vn.numerator(), vn.denominator());
+      q.canonicalize();
+      return q;
+    } else {
       std::stringstream ss;
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
-- 
2.43.0


From 0480f953dd51f7bb533d7312158c09b53bf5ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 06/23] fix: copying a hilbert_space loses its algebra bit
 ranges

Copies reported no algebras, and self-assignment emptied the space.
---
 include/libcommute/loperator/hilbert_space.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..8424088 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -233,7 +233,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -247,19 +248,7 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
-    bit_range_end_ = hs.bit_range_end_;
-    elementary_spaces_.clear();
-    for(auto const& es : hs.elementary_spaces_) {
-      elementary_spaces_.emplace_hint(elementary_spaces_.end(),
-                                      es.first->clone(),
-                                      es.second);
-    }
-    dim_ = hs.dim_;
-    foreach_alg_ =
-        hs.foreach_alg_ ?
-            make_unique<detail::sparse_foreach_basis_state>(*hs.foreach_alg_) :
-            nullptr;
-    return *this;
+    return *this = hilbert_space(hs);
   }
   hilbert_space& operator=(hilbert_space&&) noexcept = default;
 
-- 
2.43.0


From 06e1b26f064694ad1a5277fcd220f4eaa29b8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 07/23] fix: hilbert_space::add() keeps an elementary space it
 refuses

---
 include/libcommute/loperator/hilbert_space.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 8424088..6f61eda 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -273,8 +273,11 @@ public:
 
   // Append a new elementary space to the ordered product
   void add(elementary_space_t const& es) {
-    auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
-    if(!r.second) throw elementary_space_exists(es);
+    // Check everything upfront so that *this is left intact upon a failure
+    if(has(es)) throw elementary_space_exists(es);
+    int const n_bits = total_n_bits() + es.n_bits();
+    if(n_bits > max_n_bits) throw hilbert_space_too_big(n_bits);
+    elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     recompute_bit_ranges();
     dim_ *= es.dim();
     init_foreach_alg();
-- 
2.43.0


From d11f5595a12e235b2ff6b1e10601de1d20d93679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:24 +0000
Subject: [PATCH 08/23] fix: bit count of boson spaces with large dimensions

log2(2^49 + 1) rounds to 49 in double precision.
---
 .../libcommute/loperator/elementary_space_boson.hpp  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/elementary_space_boson.hpp b/include/libcommute/loperator/elementary_space_boson.hpp
index 3ffd78c..1c43276 100644
--- a/include/libcommute/loperator/elementary_space_boson.hpp
+++ b/include/libcommute/loperator/elementary_space_boson.hpp
@@ -20,7 +20,6 @@
 #include "elementary_space.hpp"
 
 #include <cassert>
-#include <cmath>
 
 namespace libcommute {
 
@@ -39,7 +38,7 @@ public:
   elementary_space_boson(sv_index_type dim, Args&&... indices)
     : base(std::forward<Args>(indices)...),
       dim_(dim),
-      n_bits_(std::ceil(std::log2(dim))) {
+      n_bits_(required_n_bits(dim)) {
     assert(dim > 0);
   }
   elementary_space_boson(elementary_space_boson const&) = default;
@@ -71,6 +70,15 @@ private:
 
   // ceil(log_2(dim))
   int const n_bits_;
+
+  // ceil(log_2(dim)) in integer arithmetic: Floating point logarithms are
+  // inexact for large dimensions.
+  static int required_n_bits(sv_index_type dim) {
+    int n_bits = 0;
+    for(sv_index_type n = dim - 1; n != 0; n >>= 1)
+      ++n_bits;
+    return n_bits;
+  }
 };
 
 namespace static_indices {
-- 
2.43.0


From 5be6b69114947b7bb38fc11de96d37d76fffb91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 09/23] fix: nested iteration over a sparse range of basis
 states

---
 .../libcommute/loperator/hilbert_space.hpp    | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 6f61eda..22c59f7 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -50,10 +50,8 @@ class sparse_foreach_basis_state {
   // Total number of states
   sv_index_type n_states_;
   // jumps_[d] is the additional jump in the basis state index introduced when
-  // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
+  // d-th integer reaches sizes_[d] and the (d + 1)-th integer is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     1,
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,18 +88,18 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers
+    std::vector<sv_index_type> indices(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-      ++indices_[0];
+      ++indices[0];
       ++state;
 
-      for(std::size_t d = 0;
-          d < indices_.size() - 1 && indices_[d] == sizes_[d];
+      for(std::size_t d = 0; d < indices.size() - 1 && indices[d] == sizes_[d];
           ++d) {
-        indices_[d] = 0;
-        ++indices_[d + 1];
+        indices[d] = 0;
+        ++indices[d + 1];
         state += jumps_[d];
       }
     }
-- 
2.43.0


From 611edef44303b65e54146af880f5145aee64c8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 10/23] fix: copies of n_fermion_multisector_view refer to the
 original view

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..27b0f39 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -714,7 +714,7 @@ unsigned int make_nonmultisector_mask(HSType const& hs,
 class multisector_unranking_generator {
 
   // Parameters of sectors
-  detail::sector_params_vec_t const& sector_params;
+  detail::sector_params_vec_t sector_params;
 
   // State unranking generators for each sector
   std::vector<unranking_generator> sector_gens;
-- 
2.43.0


From 2e3c7873ade426a53757d0f5b4428e274700ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 11/23] fix: iteration over N-fermion (multi)sector views
 modifies the views

---
 .../loperator/n_fermion_sector_view.hpp          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 27b0f39..f3b5dc4 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -568,9 +568,11 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // Do not advance the generator stored in the constant view
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
@@ -955,9 +957,11 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // Do not advance the generator stored in the constant view
+  auto const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From 413598f1a5e6dc9b2be83e5fdb98fdc0e2d84b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 12/23] fix: masks of N-fermion sectors with modes at bit
 positions >= 32

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index f3b5dc4..b945af9 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -97,7 +97,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From dba6b88711e63c6644c5b7561f46ba04b1f4f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 13/23] fix: numbers of states are computed in 64-bit
 arithmetic

---
 include/libcommute/loperator/hilbert_space.hpp         | 2 +-
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 22c59f7..25d3d55 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -74,7 +74,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)) {}
 
diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index b945af9..27bd4f0 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -741,7 +741,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From 5750cf568c51250537fe09f08df009cf297465ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 14/23] fix: looking up a set representative modifies constant
 disjoint_sets

---
 include/libcommute/loperator/disjoint_sets.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/libcommute/loperator/disjoint_sets.hpp b/include/libcommute/loperator/disjoint_sets.hpp
index 3287b38..79c9c04 100644
--- a/include/libcommute/loperator/disjoint_sets.hpp
+++ b/include/libcommute/loperator/disjoint_sets.hpp
@@ -28,7 +28,7 @@ namespace libcommute {
 //
 
 class disjoint_sets {
-  mutable std::vector<std::size_t> parents_;
+  std::vector<std::size_t> parents_;
   std::vector<std::size_t> ranks_;
   std::size_t n_sets_;
 
@@ -63,14 +63,12 @@ public:
   // Number of disjoint sets
   inline std::size_t n_sets() const { return n_sets_; }
 
-  // Find representative element of the set containing x (with path compression)
+  // Find representative element of the set containing x
   std::size_t find_root(std::size_t x) const {
     assert(x < size());
-    std::size_t p = parents_[x];
-    if(parents_[p] != p) {
-      parents_[x] = p = find_root(p);
-    }
-    return p;
+    while(parents_[x] != x)
+      x = parents_[x];
+    return x;
   }
 
   // Do elements x and y belong to the same set?
@@ -108,8 +106,8 @@ public:
 
   // Compress all sets (make every element represented by its parent)
   void compress_sets() {
-    for(std::size_t x : parents_)
-      find_root(x);
+    for(std::size_t x = 0; x < size(); ++x)
+      parents_[x] = find_root(x);
   }
 
   // Normalize all sets (make every representative be the smallest in its set)
-- 
2.43.0


From 660a194f8fb6d3739621c3b1b17efa55ec4b8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 15/23] fix: coefficient functors of parametric_loperator
 receive moved-from arguments

---
 include/libcommute/loperator/loperator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..58f9bfe 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -226,8 +226,8 @@ public:
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      // Not forwarding `args`: They are used repeatedly
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -246,8 +246,9 @@ private:
     // Evaluate coefficients
     evaluated_coeffs.reserve(m_act.size());
     for(auto const& a : m_act)
+      // Not forwarding `args`: They are used repeatedly
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From 01a47fe51a307dce17c4c3e3aa9874a04ddb1d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 16/23] fix: validate all generators of inevitably vanishing
 bosonic monomials

---
 include/libcommute/loperator/monomial_action_boson.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index d117e42..b2aec92 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -100,7 +100,8 @@ public:
         // Application of this monomial would inevitably give 0. Skipping.
         if(power > n_max) {
           vanishing_ = true;
-          return;
+          power = 1;
+          continue;
         }
 
         bool dagger =
-- 
2.43.0


From 994bead387ce5dcd180db26b1438e7dea9021f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:30 +0000
Subject: [PATCH 17/23] fix: overflow in the size of large fermionic sectors

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 27bd4f0..eba0b50 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -55,7 +55,8 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
   for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+    // Equal to (C * (n - i)) / (i + 1), but the product does not overflow
+    C = (C / (i + 1)) * (n - i) + ((C % (i + 1)) * (n - i)) / (i + 1);
   return C;
 }
 
-- 
2.43.0


From 4ec6fa7e72e132eda84470da1d914f15eeb02116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:33 +0000
Subject: [PATCH 18/23] fix: visit the basis state of a one-dimensional Hilbert
 space in foreach() over compressed views

---
 include/libcommute/loperator/compressed_state_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/compressed_state_view.hpp b/include/libcommute/loperator/compressed_state_view.hpp
index 8a8032e..424c1ae 100644
--- a/include/libcommute/loperator/compressed_state_view.hpp
+++ b/include/libcommute/loperator/compressed_state_view.hpp
@@ -95,7 +95,8 @@ private:
             mask = 0;
           }
         });
-    if(dim != 1) {
+    // A non-empty Hilbert space of dimension 1 has one basis state
+    if(dim != 1 || (sizes.empty() && hs.size() != 0)) {
       sizes.push_back(dim);
       masks.push_back(mask);
     }
-- 
2.43.0


From 792a62c692cf31e0f4a7560c73cbf65aadbdede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:41 +0000
Subject: [PATCH 19/23] fix: merge_subspaces() left subspaces unmerged when
 their 'in' subspaces were not adjacent

Connections were only compared with their neighbours in the multimap, so two
'out' subspaces of one (merged) 'in' subspace were kept apart whenever another
'in' subspace was listed in between, and an operator connected one subspace to
several.
---
 .../libcommute/loperator/space_partition.hpp  | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..e797d44 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -173,25 +173,18 @@ public:
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
     auto merge_conn_targets = [this](conn_t const& conn) -> bool {
-      if(conn.empty()) return false;
-
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // Map 'in' subspaces to their first encountered 'out' subspaces
+      std::map<sv_index_type, sv_index_type> targets;
+      for(auto const& c : conn) {
+        auto r = targets.emplace(ds.find_root(c.first), c.second);
+        if(r.second) continue;
+        sv_index_type out_subspace1 = ds.find_root(r.first->second);
+        sv_index_type out_subspace2 = ds.find_root(c.second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From f3818f45d7707f93adabfc41910275da00b756ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 20/23] fix: construct expressions from scalars that convert to
 ScalarType only explicitly

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 6f0bbe0..a260ebb 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -101,7 +101,7 @@ public:
     static_assert(std::is_constructible<scalar_type, S>::value,
                   "Incompatible scalar type in construction");
     if(!scalar_traits<S>::is_zero(x))
-      normalize_and_store(monomial_t(monomial), x, monomials_);
+      normalize_and_store(monomial_t(monomial), scalar_type(x), monomials_);
   }
 
 private:
-- 
2.43.0


From ec6cae0d77a6958b0406591f6957e7fecf2d8809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:39 +0000
Subject: [PATCH 21/23] fix: elementary space constructors of a single algebra
 accepted generators of other algebras

---
 include/libcommute/loperator/es_constructor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 7b38ece..5de266d 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -143,6 +143,7 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(g.algebra_id() != fermion) throw es_construction_failure<IndexTypes...>(g);
     return make_unique<elementary_space_fermion<IndexTypes...>>(g.indices());
   }
 };
@@ -158,6 +159,7 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(g.algebra_id() != boson) throw es_construction_failure<IndexTypes...>(g);
     return make_unique<elementary_space_boson<IndexTypes...>>(dim_boson_,
                                                               g.indices());
   }
@@ -170,6 +172,7 @@ public:
   template <typename... IndexTypes>
   inline std::unique_ptr<elementary_space<IndexTypes...>>
   operator()(generator<IndexTypes...> const& g) const {
+    if(g.algebra_id() != spin) throw es_construction_failure<IndexTypes...>(g);
     double s = dynamic_cast<generator_spin<IndexTypes...> const&>(g).spin();
     return make_unique<elementary_space_spin<IndexTypes...>>(s, g.indices());
   }
-- 
2.43.0


From 8fb2a80c91718fba8c7e50a7a3cbb613305f61d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:07 +0000
Subject: [PATCH 22/23] fix: basis_mapper multiplied powers of the listed
 operators in the reversed order

---
 include/libcommute/loperator/mapped_basis_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..28f71b0 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -153,10 +153,11 @@ class basis_mapper {
 
     compositions_constructor_impl(O_list, st, m + 1, sum_n, N);
 
+    // The last operator in the list acts first
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
-      O_list[m](from_st, to_st);
+      O_list[O_list.size() - 1 - m](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
       compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
       from_st = to_st;
-- 
2.43.0


From ea77eb0f44c3f7f29ec7009d6dd91cc3b045e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 23/23] fix: basis_mapper included the vacuum state when there
 are no operators to apply

---
 include/libcommute/loperator/mapped_basis_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 28f71b0..61fa214 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -201,7 +201,7 @@ public:
       std::vector<loperator<LOpScalarType, LOpAlgebraIDs...>> const& O_list,
       HSType const& hs,
       unsigned int N) {
-    if(N == 0 || O_list.size() == 0) {
+    if(N == 0) {
       map_.emplace(0, 0);
       return;
     }
-- 
2.43.0


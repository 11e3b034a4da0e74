From 27381c77394fcb4c6aeff5be66d1c9e1c0d780f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 01/32] fix: divide by m! (not m) for m identical elementary
 contractions

The combinatorial factor of a composite contraction counts ordered choices of
the contracted legs, so a contraction that appears m times is counted m! times.
Dividing by binomial(m, 1) = m is only correct for m <= 2; e.g. the full
contraction of A{o+ o+ o+ v v v} B{v+ v+ v+ o o o} came out as 1/9 instead of
1/36.
---
 wicked/diagrams/wick_theorem_process_contractions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index cf8e7d9..ef876ee 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -548,7 +548,7 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= binomial(kv.second, 1);
+    factor /= static_cast<scalar_t>(factorial(kv.second));
   }
   return factor;
 }
-- 
2.43.0


From 2024c5c88fecb11f59fe4d096a3c4c6ef3aeefbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 02/32] fix: keep the denominator positive when dividing by a
 negative rational

rational(1,2) / rational(-1,3) was stored as 3/-2, which compares different
from -3/2 and prints as "3/-2" (not accepted by make_rational).
---
 wicked/helpers/rational.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 4bb564d..b273bde 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -195,6 +195,11 @@ void rational::reduce() {
 #else
   rational_t gcd = std::gcd(numerator_, denominator_);
 #endif
+  // keep the denominator positive (e.g., after dividing by a negative number)
+  if (denominator_ < 0) {
+    numerator_ = -numerator_;
+    denominator_ = -denominator_;
+  }
   // divide numerator and denominator by the gcd
   if (gcd > 1) {
     numerator_ /= gcd;
-- 
2.43.0


From 67994bd27e7ca715f5329d61666ad6864c47f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 03/32] fix: print a space between a one-digit leading
 coefficient and its term

Expression::str printed '2t^{v0}_{o0}' for a leading coefficient 2, which reads
back as one tensor with label '2t'.
---
 wicked/algebra/expression.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 71d8316..7d91a94 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -102,9 +102,9 @@ std::string Expression::str() const {
       } else {
         factor_str += c.str(true);
       }
-      // rational(1,1).str() returns "", so we need to handle the case of
-      // a pure scalar term with no operator
-      if ((factor_str.size() > 1) and (factor_str != "-")) {
+      // separate the factor (if there is one other than a sign) from the term
+      if ((factor_str.size() > 0) and (factor_str != "-") and
+          (factor_str != "+")) {
         factor_str += " ";
       }
     } else {
-- 
2.43.0


From 8e5d4a2e99771bb32ffa4f37bb1202c2a86ae9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 04/32] fix: do not merge normal-ordered and plain products of
 operators

SymbolicTerm comparison ignored the normal-ordered flag, so
'{ a+(o0) a-(o1) }' + 'a+(o0) a-(o1)' collapsed into one term with factor 2 and
the two compared equal.
---
 wicked/algebra/symbolic_term.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 5d7addd..b6068f3 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -363,11 +363,19 @@ bool SymbolicTerm::operator<(const SymbolicTerm &other) const {
   if (tensors_ < other.tensors_) {
     return true;
   }
-  return operators_ < other.operators_;
+  if (operators_ < other.operators_) {
+    return true;
+  }
+  if (other.operators_ < operators_) {
+    return false;
+  }
+  // a normal-ordered product of operators is not the same as a plain product
+  return (nops() > 0) and (normal_ordered_ < other.normal_ordered_);
 }
 
 bool SymbolicTerm::operator==(const SymbolicTerm &other) const {
-  return (tensors_ == other.tensors_) and (operators_ == other.operators_);
+  return (tensors_ == other.tensors_) and (operators_ == other.operators_) and
+         ((nops() == 0) or (normal_ordered_ == other.normal_ordered_));
 }
 
 std::string SymbolicTerm::str() const {
-- 
2.43.0


From 8721f8aa7895c664868a0e8b93511c9235ef5bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 05/32] fix: scaling an expression by zero gives the empty
 expression

The terms were kept with coefficient zero, so the result had nonzero length and
compared different from the zero expression.
---
 wicked/helpers/algebra.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 4c137cf..16b6c8d 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -124,6 +124,11 @@ public:
   /// @brief Scalar multiplication assignment operator
   /// @param rhs the scalar to multiply by
   Algebra &operator*=(scalar_t factor) {
+    // zero is represented by an element without terms
+    if (factor == scalar_t(0, 1)) {
+      terms_.clear();
+      return *this;
+    }
     for (auto &[e, c] : terms()) {
       c *= factor;
     }
-- 
2.43.0


From deb9e0f220289b6d027359510ea5816318fee4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 06/32] fix: canonicalize must not capture operator indices not
 found in a tensor

't^{v0}_{o5} a+(o0) a-(o5)' became 't^{v0}_{o0} a+(o0) a-(o0)': the new label of
o5 collided with the untouched label of the free operator index o0.
---
 wicked/algebra/symbolic_term.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index b6068f3..dea511c 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -187,6 +187,22 @@ scalar_t SymbolicTerm::canonicalize() {
     is_operator_index[sqop.index()] = true;
   }
 
+  // operator indices that are not shared with a tensor keep their label, which
+  // must not be given to any other index
+  std::map<Index, bool> is_reserved_index = is_operator_index;
+  for (const auto &tensor : tensors_) {
+    for (const auto &idx : tensor.indices()) {
+      is_reserved_index.erase(idx);
+    }
+  }
+  auto next_index = [&](int s, std::vector<int> &count) {
+    while (is_reserved_index.count(Index(s, count[s])) != 0) {
+      count[s] += 1;
+    }
+    count[s] += 1;
+    return Index(s, count[s] - 1);
+  };
+
   // b. Assign indices to tensors operators
   for (const auto &tensor : tensors_) {
     // lower indices
@@ -195,15 +211,13 @@ scalar_t SymbolicTerm::canonicalize() {
         // this index is not shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[l] = next_index(s, tens_index_count);
         }
       } else {
         // this index is shared with an operator
         if (index_map.count(l) == 0) {
           int s = l.space();
-          index_map[l] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[l] = next_index(s, sqop_index_count);
         }
       }
     }
@@ -212,14 +226,12 @@ scalar_t SymbolicTerm::canonicalize() {
       if (is_operator_index.count(u) == 0) {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, tens_index_count[s]);
-          tens_index_count[s] += 1;
+          index_map[u] = next_index(s, tens_index_count);
         }
       } else {
         if (index_map.count(u) == 0) {
           int s = u.space();
-          index_map[u] = Index(s, sqop_index_count[s]);
-          sqop_index_count[s] += 1;
+          index_map[u] = next_index(s, sqop_index_count);
         }
       }
     }
-- 
2.43.0


From bffe47e956f9624420a2123dc356f435ae8e276a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/32] fix: no fermionic sign when canonicalize reorders
 bosonic operators

---
 wicked/algebra/sqoperator.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/sqoperator.cc b/wicked/algebra/sqoperator.cc
index d4de1fd..272a661 100644
--- a/wicked/algebra/sqoperator.cc
+++ b/wicked/algebra/sqoperator.cc
@@ -145,7 +145,10 @@ scalar_t canonicalize_sqops(Product<SQOperator> &sqops, bool reversed) {
   sqops.clear();
   for (const auto &[sqop, pos] : sqop_pos) {
     sqops.push_back(sqop);
-    perm.push_back(pos);
+    // only fermionic operators anticommute
+    if (sqop.field_type() == FieldType::Fermion) {
+      perm.push_back(pos);
+    }
   }
   return permutation_sign(perm);
 }
-- 
2.43.0


From aa45c6c61622ed430043323cbd0d2176a2cb26be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 08/32] fix: a rejected add_space must not leave its label and
 indices behind

When an index label or an elementary space was rejected, the new space label
stayed registered although no space had been added; using it later read past the
end of the table of spaces.
---
 wicked/helpers/orbital_space.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 10a4cfa..9f2ce5d 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -81,21 +81,25 @@ void OrbitalSpaceInfo::add_space(char label, FieldType field_type,
                              "\" is already defined. Use another label.");
   }
 
+  // validate all the arguments before changing the state of this object, so that
+  // a rejected space leaves no trace
   size_t pos = space_info_.size();
-  label_to_pos_[label] = pos;
+  auto indices_to_pos = indices_to_pos_;
   for (auto &index : indices) {
-    if (indices_to_pos_.count(index)) {
+    if (indices_to_pos.count(index)) {
       throw std::runtime_error(
           "add_space: Index \"" + index +
           "\" is already assigned to another space. Use another index.");
     } else {
-      indices_to_pos_[index] = pos;
+      indices_to_pos[index] = pos;
     }
   }
   std::vector<int> elementary_spaces_int;
   for (char e : elementary_spaces) {
-    elementary_spaces_int.push_back(label_to_space(e));
+    elementary_spaces_int.push_back(e == label ? pos : label_to_space(e));
   }
+  label_to_pos_[label] = pos;
+  indices_to_pos_ = indices_to_pos;
   space_info_.push_back(OrbitalSpace(label, field_type, space_type, indices,
                                      elementary_spaces_int));
 }
-- 
2.43.0


From 70c7df1a46afdd342b3daaa71652a3aa5828db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 09/32] fix: data race on the timers in multithreaded
 contractions

Every asynchronous contraction inserted into and updated the same std::map
without synchronization.
---
 wicked/diagrams/wick_theorem.h                       | 4 ++++
 wicked/diagrams/wick_theorem_process_contractions.cc | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem.h b/wicked/diagrams/wick_theorem.h
index e941cb3..14726bd 100644
--- a/wicked/diagrams/wick_theorem.h
+++ b/wicked/diagrams/wick_theorem.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <mutex>
 #include <optional>
 #include <string>
 #include <vector>
@@ -57,6 +58,9 @@ private:
 
   std::map<std::string, double> timers_;
 
+  /// guards the timers, which are updated by concurrent contractions
+  std::mutex timers_mutex_;
+
   /// The number of contractions found
   int ncontractions_ = 0;
 
diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index ef876ee..62c9333 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -169,12 +169,17 @@ Expression WickTheorem::process_single_contraction(
         do_canonicalize_graph_
             ? canonicalize_contraction_graph(ops, contraction)
             : std::make_tuple(ops, contraction, scalar_t(1));
-    timers_["canonicalize_contraction_graph"] += tc.get();
+    double canonicalize_time = tc.get();
 
     timer te;
     std::pair<SymbolicTerm, scalar_t> term_factor =
         evaluate_contraction(best_ops, best_contractions, factor * sign);
-    timers_["evaluate_contraction"] += te.get();
+    double evaluate_time = te.get();
+    {
+      std::lock_guard<std::mutex> lock(timers_mutex_);
+      timers_["canonicalize_contraction_graph"] += canonicalize_time;
+      timers_["evaluate_contraction"] += evaluate_time;
+    }
 
     SymbolicTerm &term = term_factor.first;
     scalar_t canonicalize_factor = term.canonicalize();
-- 
2.43.0


From c13fcf24d71730d5ed6f1b050bfd16b2f2f811c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 10/32] fix: compile_einsum failed for every equation with a
 nonscalar left-hand side

It read the label and the indices of the result from the right-hand side, and
passed a list where a tensor is expected (AttributeError).
---
 wicked/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index b60b9ac..36e4f5f 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -94,9 +94,9 @@ def compile_einsum(equation):
     tensor_label_string += "optimize='optimal')"
 
     if (lhs.tensors()[0].upper() != [] or lhs.tensors()[0].lower() != []): # If the lhs is not a scalar
-        left = rhs.tensors()[0].label()
+        left = lhs.tensors()[0].label()
         left += ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].upper()]) + ''.join([osi.label(_.space()) for _ in lhs.tensors()[0].lower()])
-        res_indx = _get_unique_tensor_indices(rhs.tensors(), unused_indices, index_dict)
+        res_indx = _get_unique_tensor_indices(lhs.tensors()[0], unused_indices, index_dict)
         index_string += res_indx
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
-- 
2.43.0


From faad1ebac9c4ab787a2df207b6f10da2f4b140b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 11/32] fix: reject operators over more orbital spaces than a
 GraphMatrix can hold

With nine or more spaces the fixed-size table was written out of bounds; lists
shorter than the number of spaces were read out of bounds.
---
 wicked/diagrams/graph_matrix.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wicked/diagrams/graph_matrix.cc b/wicked/diagrams/graph_matrix.cc
index 3a15a96..6a40716 100644
--- a/wicked/diagrams/graph_matrix.cc
+++ b/wicked/diagrams/graph_matrix.cc
@@ -1,5 +1,6 @@
 #include <cassert>
 #include <numeric>
+#include <stdexcept>
 
 #include "graph_matrix.h"
 #include "helpers/helpers.h"
@@ -11,6 +12,17 @@ GraphMatrix::GraphMatrix() {}
 
 GraphMatrix::GraphMatrix(const std::vector<int> &cre,
                          const std::vector<int> &ann) {
+  const size_t num_spaces = orbital_subspaces->num_spaces();
+  if (num_spaces > max_spaces_) {
+    throw std::runtime_error("GraphMatrix: operators can be used with at most " +
+                             std::to_string(max_spaces_) +
+                             " orbital spaces.");
+  }
+  if (cre.size() < num_spaces or ann.size() < num_spaces) {
+    throw std::runtime_error(
+        "GraphMatrix: the number of creation/annihilation operators must be "
+        "given for all the orbital spaces.");
+  }
   for (int i = 0; i < orbital_subspaces->num_spaces(); i++) {
     elements_[i] = std::make_pair(cre[i], ann[i]);
   }
-- 
2.43.0


From 5aa7068bc97c65a379fdd0d88d34fed22874835f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 12/32] fix: read back normal-ordered products that contain
 bosonic operators

'{ b+(p0) }' was parsed as the plain product 'b+(p0)'.
---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 7d91a94..14ec194 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -261,7 +261,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
     tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*a[+-]\([\w\d]+\))+\s*\}))");
+    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
-- 
2.43.0


From eba9b5ea7627e2fbaac0dc52f516de1e88ad1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 13/32] fix: parse tensor labels with an underscore

Labels like E_0 (used in the tutorials) are printed as 'E_0^{}_{}', which was
read back as the tensor '0^{}_{}'.
---
 wicked/algebra/expression.cc | 2 +-
 wicked/algebra/tensor.cc     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 14ec194..925174c 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -258,7 +258,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"(([a-zA-Z0-9]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
+    tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
     factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
     normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 29f83f9..c6c3b2b 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -181,7 +181,7 @@ Tensor make_tensor(const std::string &label,
 Tensor make_tensor_from_str(const std::string &s, SymmetryType symmetry) {
   std::smatch sm;
   auto const tensor_re =
-      std::regex("([a-zA-Z0-9]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
+      std::regex("([a-zA-Z0-9_]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
   auto m = std::regex_match(s, sm, tensor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
-- 
2.43.0


From ab100574129d3ad5a82c938f39473d1a9215f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 14/32] fix: bounds-check the orbital space number

osi().label(n), osi().indices(n) or printing an Index of an undefined space (for
example an Index created before reset_space) read out of bounds.
---
 wicked/helpers/orbital_space.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wicked/helpers/orbital_space.cc b/wicked/helpers/orbital_space.cc
index 9f2ce5d..58004fe 100644
--- a/wicked/helpers/orbital_space.cc
+++ b/wicked/helpers/orbital_space.cc
@@ -123,7 +123,7 @@ std::map<std::string, std::vector<std::string>> OrbitalSpaceInfo::to_dict() cons
   return d;
 }
 
-char OrbitalSpaceInfo::label(int pos) const { return space_info_[pos].label(); }
+char OrbitalSpaceInfo::label(int pos) const { return space_info_.at(pos).label(); }
 
 const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
   const std::vector<std::string> &index_labels = indices(pos);
@@ -134,11 +134,11 @@ const std::string OrbitalSpaceInfo::index_label(int pos, int idx) const {
 }
 
 SpaceType OrbitalSpaceInfo::space_type(int pos) const {
-  return space_info_[pos].space_type();
+  return space_info_.at(pos).space_type();
 }
 
 FieldType OrbitalSpaceInfo::field_type(int pos) const {
-  return space_info_[pos].field_type();
+  return space_info_.at(pos).field_type();
 }
 
 const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
@@ -146,7 +146,7 @@ const std::string &OrbitalSpaceInfo::op_symbol(int pos) const {
 }
 
 const std::vector<std::string> &OrbitalSpaceInfo::indices(int pos) const {
-  return space_info_[pos].indices();
+  return space_info_.at(pos).indices();
 }
 
 int OrbitalSpaceInfo::label_to_space(char label) const {
-- 
2.43.0


From 3485fce2966bd532c8be3814c68ffd659612ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 15/32] fix: LaTeX of bosonic operators

A product with all creation operators to the left was always written with the
fermionic symbol \hat{a}, also for bosons.
---
 wicked/algebra/symbolic_term.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index dea511c..91f38cb 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -416,7 +416,12 @@ std::string SymbolicTerm::latex() const {
   if (nops()) {
     if (normal_ordered())
       str_vec.push_back("\\{");
-    if (is_creation_then_annihilation()) {
+    // the compact notation is used only for fermions
+    const bool all_fermions = std::all_of(
+        operators_.begin(), operators_.end(), [](const SQOperator &op) {
+          return op.field_type() == FieldType::Fermion;
+        });
+    if (all_fermions and is_creation_then_annihilation()) {
       std::vector<std::string> str_vec_cre;
       std::vector<std::string> str_vec_ann;
       for (const auto &op : operators_) {
-- 
2.43.0


From 044686716ea98a8bbec6967d6b3bdd36ea9e172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 16/32] fix: LaTeX of the scalar terms +1 and -1

They were written as a bare sign.
---
 wicked/algebra/expression.cc | 8 +++++++-
 wicked/algebra/term.cc       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 925174c..aa222d1 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -146,7 +146,13 @@ std::string Expression::latex(const std::string &sep) const {
   std::vector<std::string> str_vec;
   bool first = true;
   for (const auto &[term, factor] : terms_) {
-    str_vec.push_back(factor.latex(first) + ' ' + term.latex());
+    std::string term_latex = term.latex();
+    // the factor of a pure scalar term is shown also when it is +1 or -1
+    if (term_latex.empty() and
+        (factor == scalar_t(1) or factor == scalar_t(-1))) {
+      term_latex = "1";
+    }
+    str_vec.push_back(factor.latex(first) + ' ' + term_latex);
     first = false;
   }
   return join(str_vec, sep);
diff --git a/wicked/algebra/term.cc b/wicked/algebra/term.cc
index c301a47..0626f89 100644
--- a/wicked/algebra/term.cc
+++ b/wicked/algebra/term.cc
@@ -41,7 +41,13 @@ std::string Term::str() const {
 }
 
 std::string Term::latex() const {
-  return coefficient_.latex(true) + " " + SymbolicTerm::latex();
+  std::string term_latex = SymbolicTerm::latex();
+  // the coefficient of a pure scalar term is shown also when it is +1 or -1
+  if (term_latex.empty() and
+      (coefficient_ == scalar_t(1) or coefficient_ == scalar_t(-1))) {
+    term_latex = "1";
+  }
+  return coefficient_.latex(true) + " " + term_latex;
 }
 
 std::ostream &operator<<(std::ostream &os, const Term &term) {
-- 
2.43.0


From f0aa79002463fd8dc736e5e4a46d56dd129400aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 17/32] fix: read back rationals that do not fit in an int

make_rational (and with it the parser of expressions) went through std::stoi, so
factors printed by wicked such as 1/6227020800 could not be read back.
---
 wicked/helpers/rational.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index b273bde..c144107 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,4 @@
+#include <limits>
 #include <numeric>
 #include <regex>
 
@@ -221,7 +222,19 @@ rational make_rational_from_str(const std::string &s) {
   std::string numerator_str = sm[2];
   std::string division = sm[3];
   std::string denominator_str = sm[4];
-  int numerator = 1, denominator = 1;
+  rational_t numerator = 1, denominator = 1;
+  // convert a string of digits to an integer
+  auto to_integer = [&s](const std::string &digits) {
+    if (digits.size() >
+        static_cast<size_t>(std::numeric_limits<rational_t>::digits10)) {
+      throw std::runtime_error("\nThe number " + s + " is too large");
+    }
+    rational_t value = 0;
+    for (const char c : digits) {
+      value = 10 * value + (c - '0');
+    }
+    return value;
+  };
   if (sign == "-") {
     numerator *= -1;
   }
@@ -233,10 +246,10 @@ rational make_rational_from_str(const std::string &s) {
                                " to a rational object");
   }
   if (numerator_str.size() > 0) {
-    numerator *= std::stoi(numerator_str);
+    numerator *= to_integer(numerator_str);
   }
   if ((division == "/") and (denominator_str.size() > 0)) {
-    denominator *= std::stoi(denominator_str);
+    denominator *= to_integer(denominator_str);
   }
   return rational(numerator, denominator);
 }
-- 
2.43.0


From 769ac2061874bb05bdb4e60541e5c6d69b0d99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 18/32] fix: subtracting an expression from itself must not
 touch erased terms

---
 wicked/diagrams/operator_expression.cc | 4 +++-
 wicked/helpers/algebra.hpp             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/operator_expression.cc b/wicked/diagrams/operator_expression.cc
index 62996fa..0d5247d 100644
--- a/wicked/diagrams/operator_expression.cc
+++ b/wicked/diagrams/operator_expression.cc
@@ -15,7 +15,9 @@ OperatorExpression::OperatorExpression(
 }
 
 void OperatorExpression::add2(const OperatorExpression &expr, scalar_t factor) {
-  for (const auto &vec_dop_factor : expr.terms()) {
+  // copy the terms since expr may be this object, and adding can erase terms
+  const auto terms = expr.terms();
+  for (const auto &vec_dop_factor : terms) {
     add(vec_dop_factor.first, factor * vec_dop_factor.second);
   }
 }
diff --git a/wicked/helpers/algebra.hpp b/wicked/helpers/algebra.hpp
index 16b6c8d..ef326e5 100644
--- a/wicked/helpers/algebra.hpp
+++ b/wicked/helpers/algebra.hpp
@@ -102,7 +102,9 @@ public:
   /// @brief Subtraction assignment operator
   /// @param rhs the term to subtract
   Algebra &operator-=(const Algebra &rhs) {
-    for (const auto &[e, c] : rhs.terms()) {
+    // copy the terms since rhs may be this object, and adding can erase terms
+    const auto rhs_terms = rhs.terms();
+    for (const auto &[e, c] : rhs_terms) {
       add(e, -c);
     }
     return *this;
-- 
2.43.0


From df969c557afdb8f9117cc437b242bbc3332e0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 19/32] fix: reject rationals with a zero denominator

---
 wicked/helpers/rational.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index c144107..348311e 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,6 +1,7 @@
 #include <limits>
 #include <numeric>
 #include <regex>
+#include <stdexcept>
 
 #if USE_BOOST_1024_INT
 #include "boost/lexical_cast.hpp"
@@ -21,6 +22,9 @@ rational::rational(rational_t numerator) {
 }
 
 rational::rational(rational_t numerator, rational_t denominator) {
+  if (denominator == 0) {
+    throw std::runtime_error("rational: the denominator is zero");
+  }
   // enforce a positive denominator
   numerator_ = denominator < 0 ? -numerator : numerator;
   denominator_ = denominator < 0 ? -denominator : denominator;
@@ -64,6 +68,9 @@ rational &rational::operator*=(const rational &rhs) {
 }
 
 rational &rational::operator/=(const rational &rhs) {
+  if (rhs.numerator() == 0) {
+    throw std::runtime_error("rational: division by zero");
+  }
   numerator_ *= rhs.denominator();
   denominator_ *= rhs.numerator();
   reduce();
-- 
2.43.0


From 159bd654d760af19bded695b8fb2dc588b1256b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:53 +0000
Subject: [PATCH 20/32] fix: symmetry factor of operators with more than 20
 legs of one kind

---
 wicked/diagrams/operator.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/operator.cc b/wicked/diagrams/operator.cc
index b22e1a1..59343f1 100644
--- a/wicked/diagrams/operator.cc
+++ b/wicked/diagrams/operator.cc
@@ -19,11 +19,17 @@ GraphMatrix Operator::graph_matrix() const { return graph_matrix_; }
 
 scalar_t Operator::factor() const {
   scalar_t result = 1;
+  // divide one factor at a time since n! overflows a 64-bit integer for n > 20
+  auto divide_by_factorial = [&result](int n) {
+    for (int k = 2; k <= n; ++k) {
+      result /= scalar_t(k);
+    }
+  };
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(cre(s)));
+    divide_by_factorial(cre(s));
   }
   for (int s = 0; s < orbital_subspaces->num_spaces(); ++s) {
-    result /= static_cast<scalar_t>(factorial(ann(s)));
+    divide_by_factorial(ann(s));
   }
   return result;
 }
-- 
2.43.0


From 1b83a863ac31e5b9f27b13ed8d683b661c2f0d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:44 +0000
Subject: [PATCH 21/32] fix: out-of-bounds write when canonicalizing a term
 with more than 64 indices of one space

---
 wicked/algebra/symbolic_term.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index 91f38cb..f8a42dd 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -262,15 +262,16 @@ scalar_t SymbolicTerm::simplify() {
     WPRINT(cout << "\nSpace " << orbital_subspaces->label(s) << endl;);
 
     std::vector<std::vector<Index>> equivalent_classes;
-    std::vector<std::pair<std::bitset<64>, std::bitset<64>>> ul_bit_masks;
+    std::vector<std::pair<std::set<int>, std::set<int>>> ul_positions;
     for (const auto &tensor : tensors_) {
-      std::bitset<64> upper_bits, lower_bits;
+      // (not a fixed-size bit mask, since positions can be arbitrarily large)
+      std::set<int> upper_pos, lower_pos;
       {
         std::vector<Index> equivalent;
         for (const auto &u : tensor.upper()) {
           if (u.space() == s) {
             equivalent.push_back(u);
-            upper_bits[u.pos()] = true;
+            upper_pos.insert(u.pos());
           }
         }
         if (equivalent.size() > 0)
@@ -281,13 +282,13 @@ scalar_t SymbolicTerm::simplify() {
         for (const auto &l : tensor.lower()) {
           if (l.space() == s) {
             equivalent.push_back(l);
-            lower_bits[l.pos()] = true;
+            lower_pos.insert(l.pos());
           }
         }
         if (equivalent.size() > 0)
           equivalent_classes.push_back(equivalent);
       }
-      ul_bit_masks.push_back(std::make_pair(upper_bits, lower_bits));
+      ul_positions.push_back(std::make_pair(upper_pos, lower_pos));
     }
     WPRINT(
         for (const auto &v
@@ -295,9 +296,11 @@ scalar_t SymbolicTerm::simplify() {
           PRINT_ELEMENTS(v);
           cout << endl;
         } for (const auto &[ub, lb]
-               : ul_bit_masks) {
-          cout << ub << endl;
-          cout << lb << endl;
+               : ul_positions) {
+          PRINT_ELEMENTS(ub);
+          cout << endl;
+          PRINT_ELEMENTS(lb);
+          cout << endl;
         });
   }
 
-- 
2.43.0


From f03d0ddf1e814930a1b56476edae73c05a42ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 22/32] fix: a blank line in an expression is not the term 1

---
 wicked/algebra/expression.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index aa222d1..467a4e9 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -257,9 +257,10 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
   TensorSyntax syntax = TensorSyntax::Wicked;
   Expression sum;
 
-  // if we have an empty string, do not parse it (the code below would interpret
-  // it as the term 1)
-  if (s.size() == 0)
+  // if we have an empty string (or a blank line), do not parse it (the code
+  // below would interpret it as the term 1)
+  if (std::all_of(s.begin(), s.end(),
+                  [](unsigned char c) { return std::isspace(c); }))
     return sum;
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
-- 
2.43.0


From 5243062839a8864e63c76d191ba6dad90d5d1006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 23/32] fix: read a coefficient separated from its sign by
 blanks

---
 wicked/algebra/expression.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 467a4e9..ce5bc47 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -267,7 +267,7 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
   if (syntax == TensorSyntax::Wicked) {
     tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
     operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
-    factor_re = std::regex(R"(^\s*([+-]?\d*\/?\d*)\s*)");
+    factor_re = std::regex(R"(^\s*([+-]?)\s*(\d*\/?\d*)\s*)");
     normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
@@ -292,7 +292,8 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
   }
 
   auto factor_vec = findall(s, factor_re);
-  scalar_t factor = make_rational_from_str(factor_vec[0]);
+  // the sign and the number can be separated by blanks
+  scalar_t factor = make_rational_from_str(factor_vec[0] + factor_vec[1]);
 
   sum.add(term, factor);
 
-- 
2.43.0


From 13eb2d2188b6ec8d5c97711ef97b81a58052d713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 24/32] fix: gen_op(diagonal=False) kept the diagonal
 components that span several spaces

---
 wicked/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wicked/utils.py b/wicked/utils.py
index 36e4f5f..3df7c77 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -45,7 +45,8 @@ def gen_op(label, rank, cre_spaces, ann_spaces, diagonal=True):
                 is_re_sorted = all(m[re[i]] >= m[re[i + 1]] for i in range(len(re) - 1))
                 if is_re_sorted:
                     if not diagonal:
-                        if le != re:
+                        # le is in increasing order and re in decreasing order
+                        if le != re[::-1]:
                             terms.append(
                                 " ".join([s + "+" for s in le]) + " " + " ".join(re)
                             )
-- 
2.43.0


From f8523fdbec23db4e32803c9f4da49aec4b487dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:26 +0000
Subject: [PATCH 25/32] fix: operator_expr ignored its coefficient

---
 wicked/algebra/expression.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index ce5bc47..490f2f3 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -247,7 +247,7 @@ Expression make_operator_expr(const std::string &label,
     std::reverse(std::begin(ann), std::end(ann));
     Tensor tensor(label, cre, ann, symmetry);
     term.add(tensor);
-    result.add(term);
+    result.add(term.symterm(), term.coefficient());
   }
   return result;
 }
-- 
2.43.0


From 7e79a2a97bee0a788ceb3664eb6136dded329f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 26/32] fix: reject indices of orbital spaces that do not exist
 instead of writing out of bounds

---
 wicked/algebra/index.cc         | 2 +-
 wicked/algebra/symbolic_term.cc | 2 +-
 wicked/algebra/tensor.cc        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 5b1f31e..285d35f 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -106,7 +106,7 @@ index_map_t remap(const std::vector<Index> &idx_vec1,
 std::vector<int> num_indices_per_space(const std::vector<Index> &indices) {
   std::vector<int> counter(orbital_subspaces->num_spaces());
   for (const auto &index : indices) {
-    counter[index.space()] += 1;
+    counter.at(index.space()) += 1;
   }
   return counter;
 }
diff --git a/wicked/algebra/symbolic_term.cc b/wicked/algebra/symbolic_term.cc
index f8a42dd..10f6e0e 100644
--- a/wicked/algebra/symbolic_term.cc
+++ b/wicked/algebra/symbolic_term.cc
@@ -183,7 +183,7 @@ scalar_t SymbolicTerm::canonicalize() {
 
   // a. Assign indices to free operators
   for (const auto &sqop : operators_) {
-    tens_index_count[sqop.index().space()] += 1;
+    tens_index_count.at(sqop.index().space()) += 1;
     is_operator_index[sqop.index()] = true;
   }
 
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index c6c3b2b..0fe68fb 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -16,10 +16,10 @@ std::vector<std::pair<int, int>> Tensor::signature() const {
   std::vector<std::pair<int, int>> result(orbital_subspaces->num_spaces(),
                                           std::pair(0, 0));
   for (const Index &idx : upper_) {
-    result[idx.space()].first += 1;
+    result.at(idx.space()).first += 1;
   }
   for (const Index &idx : lower_) {
-    result[idx.space()].second += 1;
+    result.at(idx.space()).second += 1;
   }
   return result;
 }
-- 
2.43.0


From cb39c18138b51a47dbf335ea87ecbf0861262151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 27/32] fix: compiling an equation with too many indices or
 without a left-hand side must fail cleanly

---
 wicked/algebra/equation.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index b1f2d4f..cb21b9f 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -56,6 +56,10 @@ std::string get_unique_index(const std::string &s,
   // is this index (something like "i" or "o2") in the map? If not, figure out
   // what it corresponds to.
   if (index_map.count(s) == 0) {
+    if (unused_indices.empty()) {
+      throw std::runtime_error("Equation::compile() - an einsum expression "
+                               "cannot have more than 52 distinct indices");
+    }
     // a character
     if (s.size() == 1) {
       if (std::find(unused_indices.begin(), unused_indices.end(), s) !=
@@ -101,7 +105,7 @@ std::string Equation::compile(const std::string &format) const {
 
   if (format == "einsum") {
     std::vector<std::string> str_vec;
-    const auto &lhs_tensor = lhs().tensors()[0];
+    const auto &lhs_tensor = lhs().tensors().at(0);
 
     std::string lhs_tensor_label = lhs_tensor.label();
     for (const auto &l : lhs_tensor.upper()) {
-- 
2.43.0


From f2d817ffb31901852ecf08930ed829a19b6d22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:34 +0000
Subject: [PATCH 28/32] fix: multithreaded contraction exhausted the threads of
 the system (one per contraction)

---
 .../wick_theorem_process_contractions.cc      | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index 62c9333..c463bdd 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -3,6 +3,7 @@
 #include <future>
 #include <iomanip>
 #include <iostream>
+#include <thread>
 
 #include "helpers/combinatorics.h"
 #include "helpers/helpers.h"
@@ -119,13 +120,23 @@ Expression WickTheorem::process_contractions_threads(scalar_t factor,
   std::vector<std::future<Expression>> futures;
   int ops_rank = ops.num_ops();
 
-  // Launch async tasks for each contraction
-  for (const auto &contraction_vec : contractions_) {
+  // Launch a limited number of async tasks, each of which processes a share of
+  // the contractions (one thread per contraction can exhaust the threads that
+  // the system provides)
+  const size_t ncontractions = contractions_.size();
+  const size_t ntasks = std::min<size_t>(
+      ncontractions, std::max(1u, std::thread::hardware_concurrency()));
+  for (size_t task = 0; task < ntasks; ++task) {
     futures.push_back(
-        std::async(std::launch::async, [this, &ops, &contraction_vec, factor,
-                                        minrank, maxrank, ops_rank] {
-          return process_single_contraction(ops, contraction_vec, minrank,
-                                            maxrank, factor, ops_rank);
+        std::async(std::launch::async, [this, &ops, task, ntasks, ncontractions,
+                                        factor, minrank, maxrank, ops_rank] {
+          Expression partial_result;
+          for (size_t n = task; n < ncontractions; n += ntasks) {
+            partial_result +=
+                process_single_contraction(ops, contractions_[n], minrank,
+                                           maxrank, factor, ops_rank);
+          }
+          return partial_result;
         }));
   }
 
-- 
2.43.0


From d0f14139a91d450b08a2a072f8540b6f361a02a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 29/32] fix: contracting more than 100 pairs of operators wrote
 out of bounds

---
 wicked/diagrams/wick_theorem_composite_contractions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_composite_contractions.cc b/wicked/diagrams/wick_theorem_composite_contractions.cc
index 8e0159f..1566498 100644
--- a/wicked/diagrams/wick_theorem_composite_contractions.cc
+++ b/wicked/diagrams/wick_theorem_composite_contractions.cc
@@ -24,8 +24,8 @@ void WickTheorem::generate_composite_contractions(const OperatorProduct &ops,
                   << std::endl;)
 
   // this vector is used in the backtracking algorithm to hold the list of
-  // elementary contractions
-  std::vector<int> a(100, -1);
+  // elementary contractions (each one contracts at least two operators)
+  std::vector<int> a(ops.num_ops() / 2 + 1, -1);
   // create a vector that keeps track of the free (uncontracted graph matrices)
   std::vector<GraphMatrix> free_graph_matrix_vec;
   for (const auto &op : ops) {
-- 
2.43.0


From 284b2009296eb9108cf5f351e5afb9daa113c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 30/32] fix: combinatorial factors above 2^31 were truncated to
 an int

---
 .../wick_theorem_process_contractions.cc        | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/wicked/diagrams/wick_theorem_process_contractions.cc b/wicked/diagrams/wick_theorem_process_contractions.cc
index c463bdd..bd45b3c 100644
--- a/wicked/diagrams/wick_theorem_process_contractions.cc
+++ b/wicked/diagrams/wick_theorem_process_contractions.cc
@@ -536,6 +536,15 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
 
   scalar_t factor = 1;
 
+  // multiply and divide by one number at a time since binomial coefficients
+  // and factorials overflow the integers from which a scalar_t is built
+  auto multiply_by_binomial = [&factor](int n, int k) {
+    for (int i = 1; i <= k; ++i) {
+      factor *= scalar_t(n - k + i);
+      factor /= scalar_t(i);
+    }
+  };
+
   // stores the offset for each uncontracted operator
   std::vector<GraphMatrix> free_graph_matrix;
   for (const auto &op : ops) {
@@ -550,8 +559,8 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
       for (int s = 0; s < orbital_subspaces->num_spaces(); s++) {
         const auto &[kcre, kann] = graph_matrix.elements(s);
         const auto &[ncre, nann] = free_graph_matrix[v].elements(s);
-        factor *= binomial(ncre, kcre);
-        factor *= binomial(nann, kann);
+        multiply_by_binomial(ncre, kcre);
+        multiply_by_binomial(nann, kann);
       }
       free_graph_matrix[v] -= graph_matrix;
     }
@@ -564,7 +573,9 @@ WickTheorem::combinatorial_factor(const OperatorProduct &ops,
     contraction_count[contraction] += 1;
   }
   for (const auto &kv : contraction_count) {
-    factor /= static_cast<scalar_t>(factorial(kv.second));
+    for (int k = 2; k <= kv.second; ++k) {
+      factor /= scalar_t(k);
+    }
   }
   return factor;
 }
-- 
2.43.0


From e7547cc1e1f24a78bca1c9577b28cbf18b2b1765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:44 +0000
Subject: [PATCH 31/32] fix: coefficients in generated code were rounded to a
 few decimals (small ones to zero)

---
 wicked/algebra/equation.cc |  2 +-
 wicked/helpers/rational.cc | 14 ++++++++++++--
 wicked/helpers/rational.h  |  3 +++
 wicked/utils.py            |  7 ++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/wicked/algebra/equation.cc b/wicked/algebra/equation.cc
index cb21b9f..f7bd1ad 100644
--- a/wicked/algebra/equation.cc
+++ b/wicked/algebra/equation.cc
@@ -116,7 +116,7 @@ std::string Equation::compile(const std::string &format) const {
     }
 
     str_vec.push_back(lhs_tensor_label +
-                      " += " + std::format("{:.9f}", rhs_factor().to_double()) +
+                      " += " + rhs_factor().decimal(9) +
                       " * np.einsum(");
 
     std::map<std::string, std::string> index_map;
diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index 348311e..cec5cf5 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -1,3 +1,5 @@
+#include <cstdlib>
+#include <format>
 #include <limits>
 #include <numeric>
 #include <regex>
@@ -156,8 +158,16 @@ std::string rational::latex(bool first) const {
 }
 
 std::string rational::compile(const std::string &format) const {
-  return std::to_string(static_cast<double>(numerator_) /
-                        static_cast<double>(denominator_));
+  return decimal(6);
+}
+
+std::string rational::decimal(int digits) const {
+  const double value = to_double();
+  const std::string s = std::format("{:.{}f}", value, digits);
+  // rounded to a few decimals, a factor like 1/24 is inaccurate and a very small
+  // one is zero
+  return std::strtod(s.c_str(), nullptr) == value ? s
+                                                  : std::format("{}", value);
 }
 
 rational operator+(rational lhs, const rational &rhs) {
diff --git a/wicked/helpers/rational.h b/wicked/helpers/rational.h
index 4141b1b..e04f409 100644
--- a/wicked/helpers/rational.h
+++ b/wicked/helpers/rational.h
@@ -41,6 +41,9 @@ public:
   std::string latex(bool first) const;
   /// return a compilable representation
   std::string compile(const std::string &format) const;
+  /// return a decimal representation with a given number of digits after the
+  /// decimal point or, if these cannot represent this value, with full precision
+  std::string decimal(int digits) const;
 
   /// addition assignment
   rational &operator+=(const rational &rhs);
diff --git a/wicked/utils.py b/wicked/utils.py
index 3df7c77..3d2a62e 100644
--- a/wicked/utils.py
+++ b/wicked/utils.py
@@ -102,9 +102,14 @@ def compile_einsum(equation):
     else: # If it's scalar, just return the label.
         left = lhs.tensors()[0].label()
 
+    # print the factor with full precision if eight decimals are not enough
+    factor_string = f"{float(factor):+.8f}"
+    if float(factor_string) != float(factor):
+        factor_string = f"{float(factor):+}"
+
     einsum_string = left \
         + ' ' \
-        + f"+= {float(factor):+.8f} * np.einsum('"\
+        + f"+= {factor_string} * np.einsum('"\
         + index_string \
         + "', " \
         + tensor_label_string
-- 
2.43.0


From 60009ebc96780de6829cbc46c4010d2ef1f91c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:57 +0000
Subject: [PATCH 32/32] fix: reading long texts overflowed the stack

---
 wicked/algebra/expression.cc |  8 ++++----
 wicked/algebra/index.cc      |  2 +-
 wicked/algebra/tensor.cc     |  4 ++--
 wicked/helpers/helpers.cc    | 10 ++++++++++
 wicked/helpers/helpers.h     |  5 ++++-
 wicked/helpers/rational.cc   |  3 ++-
 6 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/wicked/algebra/expression.cc b/wicked/algebra/expression.cc
index 490f2f3..b603aa9 100644
--- a/wicked/algebra/expression.cc
+++ b/wicked/algebra/expression.cc
@@ -265,10 +265,10 @@ Expression make_expression(const std::string &s, SymmetryType symmetry) {
 
   std::regex factor_re, operator_re, normal_ordered_re, tensor_re;
   if (syntax == TensorSyntax::Wicked) {
-    tensor_re = std::regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
-    operator_re = std::regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
-    factor_re = std::regex(R"(^\s*([+-]?)\s*(\d*\/?\d*)\s*)");
-    normal_ordered_re = std::regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
+    tensor_re = make_regex(R"(([a-zA-Z0-9_]+\^\{[\w,\d]*\}_\{[\w,\d]*\}))");
+    operator_re = make_regex(R"([ab]([+-]{1,1})\(([\w\d]*)\))");
+    factor_re = make_regex(R"(^\s*([+-]?)\s*(\d*\/?\d*)\s*)");
+    normal_ordered_re = make_regex(R"((?:\{(?:\s*[ab][+-]\([\w\d]+\))+\s*\}))");
   }
 
   auto tensors = findall(s, tensor_re);
diff --git a/wicked/algebra/index.cc b/wicked/algebra/index.cc
index 285d35f..e00a944 100644
--- a/wicked/algebra/index.cc
+++ b/wicked/algebra/index.cc
@@ -55,7 +55,7 @@ scalar_t canonicalize_indices(std::vector<Index> &indices, bool reversed) {
 
 Index make_index_from_str(const std::string &s) {
   std::smatch sm;
-  auto m = std::regex_match(s, sm, std::regex("([a-zA-Z])[_]?(\\d+)"));
+  auto m = std::regex_match(s, sm, make_regex("([a-zA-Z])[_]?(\\d+)"));
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
                              " to an Index object");
diff --git a/wicked/algebra/tensor.cc b/wicked/algebra/tensor.cc
index 0fe68fb..c9110f9 100644
--- a/wicked/algebra/tensor.cc
+++ b/wicked/algebra/tensor.cc
@@ -123,7 +123,7 @@ std::string Tensor::latex() const {
   // read the label. Here we try to separate the name (e.g., lambda) from the
   // subscript (eg. 1). For greek letters we omit the subscript.
   std::smatch sm;
-  auto m = std::regex_match(label_, sm, std::regex("([a-zA-Z]+)[_]?(\\d+)?"));
+  auto m = std::regex_match(label_, sm, make_regex("([a-zA-Z]+)[_]?(\\d+)?"));
   if (not m) {
     throw std::runtime_error("\nCould not parse tensor label " + label_);
   }
@@ -181,7 +181,7 @@ Tensor make_tensor(const std::string &label,
 Tensor make_tensor_from_str(const std::string &s, SymmetryType symmetry) {
   std::smatch sm;
   auto const tensor_re =
-      std::regex("([a-zA-Z0-9_]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
+      make_regex("([a-zA-Z0-9_]+)\\^\\{([\\w,\\s]*)\\}_\\{([\\w,\\s]*)\\}");
   auto m = std::regex_match(s, sm, tensor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
diff --git a/wicked/helpers/helpers.cc b/wicked/helpers/helpers.cc
index 1c827a0..16566d5 100644
--- a/wicked/helpers/helpers.cc
+++ b/wicked/helpers/helpers.cc
@@ -42,6 +42,16 @@ inline std::string &rtrim(std::string &s) {
 // trim from both ends
 inline std::string &trim(std::string &s) { return ltrim(rtrim(s)); }
 
+std::regex make_regex(const std::string &pattern) {
+#ifdef __GLIBCXX__
+  // by default, libstdc++ recurses for each character of the text that is
+  // matched, and long texts overflow the stack
+  return regex(pattern, regex::ECMAScript | std::regex_constants::__polynomial);
+#else
+  return regex(pattern);
+#endif
+}
+
 std::vector<std::string> split(const std::string &s, regex re) {
   sregex_token_iterator it(s.begin(), s.end(), re, -1);
   sregex_token_iterator reg_end;
diff --git a/wicked/helpers/helpers.h b/wicked/helpers/helpers.h
index 8adeb21..55a9871 100644
--- a/wicked/helpers/helpers.h
+++ b/wicked/helpers/helpers.h
@@ -14,9 +14,12 @@
 std::string join(const std::vector<std::string> &svec,
                  const std::string &sep = ",");
 
+/// Make a regular expression that can be matched to texts of any length
+std::regex make_regex(const std::string &pattern);
+
 /// Split a string.  Default delimiters are spaces (\s) and/or commas
 std::vector<std::string> split(const std::string &s,
-                               std::regex re = std::regex("[\\s,]+"));
+                               std::regex re = make_regex("[\\s,]+"));
 
 /// Find all occurences of a pattern
 std::vector<std::string> findall(const std::string &s, const std::regex &regex);
diff --git a/wicked/helpers/rational.cc b/wicked/helpers/rational.cc
index cec5cf5..a70a27b 100644
--- a/wicked/helpers/rational.cc
+++ b/wicked/helpers/rational.cc
@@ -9,6 +9,7 @@
 #include "boost/lexical_cast.hpp"
 #endif
 
+#include "helpers.h"
 #include "rational.h"
 
 rational::rational() : numerator_(0), denominator_(1) {}
@@ -229,7 +230,7 @@ void rational::reduce() {
 
 rational make_rational_from_str(const std::string &s) {
   std::smatch sm;
-  auto factor_re = std::regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
+  auto factor_re = make_regex("^\\s*([+-])?(\\d*)?(\\/)?(\\d*)?\\s*");
   auto m = std::regex_match(s, sm, factor_re);
   if (not m) {
     throw std::runtime_error("\nCould not convert the string " + s +
-- 
2.43.0


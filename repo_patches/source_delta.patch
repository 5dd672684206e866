From 1ca26af4705b95daefb47239dd07ba8b8676fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:40 +0000
Subject: [PATCH 01/30] fix: prefer successful multistart solves over cheaper
 failed ones

The comparator only handled (success, failure), not (failure, success), so a
failed solve with a lower cost was preferred over a successful one.
---
 include/sleipnir/optimization/multistart.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/multistart.hpp b/include/sleipnir/optimization/multistart.hpp
index 9527994..a16a863 100644
--- a/include/sleipnir/optimization/multistart.hpp
+++ b/include/sleipnir/optimization/multistart.hpp
@@ -64,8 +64,10 @@ MultistartResult<Scalar, DecisionVariables> multistart(
 
   return *std::ranges::min_element(results, [](const auto& a, const auto& b) {
     // Prioritize successful solve
-    if (a.status == ExitStatus::SUCCESS && b.status != ExitStatus::SUCCESS) {
-      return true;
+    const bool a_success = a.status == ExitStatus::SUCCESS;
+    const bool b_success = b.status == ExitStatus::SUCCESS;
+    if (a_success != b_success) {
+      return a_success;
     }
 
     // Otherwise prioritize solution with lower cost
-- 
2.43.0


From 5d9af3871e46741077e216b0ebe2a4273eba10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 02/30] fix: support negative row index in Python
 VariableMatrix.__getitem__

A[-1, :] used the raw negative index as a row slice start, unlike the column
branch, __setitem__, and VariableBlock.
---
 python/cpp/autodiff/bind_variable_matrix.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index a272c36..31cf860 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -208,6 +208,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           row_slice_length = t.get<3>();
         } else {
           int start = nb::cast<int>(row_elem);
+          if (start < 0) {
+            start += self.rows();
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
-- 
2.43.0


From 42ab59c3372c8095694b5a16997143c67e3c9d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:57 +0000
Subject: [PATCH 03/30] fix: include string type caster used by Python
 Problem.solve()

nb::cast<std::string>() without nanobind/stl/string.h uses the generic caster,
which throws std::bad_cast for every keyword argument.
---
 python/cpp/optimization/bind_problem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/cpp/optimization/bind_problem.cpp b/python/cpp/optimization/bind_problem.cpp
index e8f6e10..8cb47d7 100644
--- a/python/cpp/optimization/bind_problem.cpp
+++ b/python/cpp/optimization/bind_problem.cpp
@@ -2,6 +2,7 @@
 
 #include <nanobind/nanobind.h>
 #include <nanobind/stl/function.h>
+#include <nanobind/stl/string.h>
 
 #include <chrono>
 #include <format>
-- 
2.43.0


From 66d5a4a4d5f9747e72edacc53688d1f5307e3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 04/30] fix: support scaling a matrix by one of its own
 elements

A *= A[0, 0] and A /= A[0, 0] read the scalar through a reference into the
matrix after that element had already been overwritten.
---
 include/sleipnir/autodiff/variable_block.hpp  | 10 ++++++++--
 include/sleipnir/autodiff/variable_matrix.hpp | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 9edeb0e..b00a829 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -455,9 +455,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableBlock<Mat>& operator*=(const ScalarLike auto& rhs) {
+    // Copy since rhs may be an element of this block
+    const Variable<Scalar> value{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= value;
       }
     }
 
@@ -469,9 +472,12 @@ class VariableBlock : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableBlock<Mat>& operator/=(const ScalarLike auto& rhs) {
+    // Copy since rhs may be an element of this block
+    const Variable<Scalar> value{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= value;
       }
     }
 
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 6562a6a..466a8e0 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -662,9 +662,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to multiply.
   /// @return Result of multiplication.
   VariableMatrix& operator*=(const ScalarLike auto& rhs) {
+    // Copy since rhs may be an element of this matrix
+    const Variable<Scalar> value{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] *= rhs;
+        (*this)[row, col] *= value;
       }
     }
 
@@ -733,9 +736,12 @@ class VariableMatrix : public SleipnirBase {
   /// @param rhs Variable to divide.
   /// @return Result of division.
   VariableMatrix& operator/=(const ScalarLike auto& rhs) {
+    // Copy since rhs may be an element of this matrix
+    const Variable<Scalar> value{rhs};
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] /= rhs;
+        (*this)[row, col] /= value;
       }
     }
 
-- 
2.43.0


From 08ca44de4c37b5549df68750cafbe2d43ab89d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 05/30] fix: make matrix and block assignment safe for
 overlapping operands

A *= A, compound assignment from a view of the same matrix, and assignment
between overlapping blocks read elements which had already been overwritten.
Evaluate the right-hand side into a temporary first.
---
 include/sleipnir/autodiff/variable_block.hpp  | 51 ++++++-------------
 include/sleipnir/autodiff/variable_matrix.hpp | 24 +++++----
 2 files changed, 29 insertions(+), 46 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index b00a829..8949e55 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -50,11 +50,8 @@ class VariableBlock : public SleipnirBase {
     } else {
       slp_assert(rows() == values.rows() && cols() == values.cols());
 
-      for (int row = 0; row < rows(); ++row) {
-        for (int col = 0; col < cols(); ++col) {
-          (*this)[row, col] = values[row, col];
-        }
-      }
+      // Copy first since the values may overlap this block
+      *this = Mat{values};
     }
 
     return *this;
@@ -81,11 +78,8 @@ class VariableBlock : public SleipnirBase {
     } else {
       slp_assert(rows() == values.rows() && cols() == values.cols());
 
-      for (int row = 0; row < rows(); ++row) {
-        for (int col = 0; col < cols(); ++col) {
-          (*this)[row, col] = values[row, col];
-        }
-      }
+      // Copy first since the values may overlap this block
+      *this = Mat{values};
     }
 
     return *this;
@@ -193,6 +187,11 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator=(const Mat& values) {
     slp_assert(rows() == values.rows() && cols() == values.cols());
 
+    // Copy first if this block is a view of the values
+    if (m_mat == &values) {
+      return *this = Mat{values};
+    }
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
         (*this)[row, col] = values[row, col];
@@ -436,18 +435,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      Mat lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
-      }
-    }
-
-    return *this;
+    // Evaluate into a temporary first since rhs may alias this block
+    return *this = Mat{*this * rhs};
   }
 
   /// Compound matrix multiplication-assignment operator.
@@ -491,13 +480,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator+=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] += rhs[row, col];
-      }
-    }
-
-    return *this;
+    // Evaluate into a temporary first since rhs may alias this block
+    return *this = Mat{*this + rhs};
   }
 
   /// Compound addition-assignment operator.
@@ -523,13 +507,8 @@ class VariableBlock : public SleipnirBase {
   VariableBlock<Mat>& operator-=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
-    for (int row = 0; row < rows(); ++row) {
-      for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] -= rhs[row, col];
-      }
-    }
-
-    return *this;
+    // Evaluate into a temporary first since rhs may alias this block
+    return *this = Mat{*this - rhs};
   }
 
   /// Compound subtraction-assignment operator.
diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 466a8e0..141ddd7 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -643,14 +643,12 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator*=(const MatrixLike auto& rhs) {
     slp_assert(cols() == rhs.rows() && cols() == rhs.cols());
 
-    for (int i = 0; i < rows(); ++i) {
-      VariableMatrix lhs_old_row = row(i);
-      for (int j = 0; j < rhs.cols(); ++j) {
-        Variable sum{Scalar(0)};
-        for (int k = 0; k < cols(); ++k) {
-          sum += lhs_old_row[k] * rhs[k, j];
-        }
-        (*this)[i, j] = sum;
+    // Evaluate into a temporary first since rhs may alias this matrix
+    const VariableMatrix result = *this * rhs;
+
+    for (int row = 0; row < rows(); ++row) {
+      for (int col = 0; col < cols(); ++col) {
+        (*this)[row, col] = result[row, col];
       }
     }
 
@@ -815,9 +813,12 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator+=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
+    // Evaluate into a temporary first since rhs may alias this matrix
+    const VariableMatrix result = *this + rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] += rhs[row, col];
+        (*this)[row, col] = result[row, col];
       }
     }
 
@@ -907,9 +908,12 @@ class VariableMatrix : public SleipnirBase {
   VariableMatrix& operator-=(const MatrixLike auto& rhs) {
     slp_assert(rows() == rhs.rows() && cols() == rhs.cols());
 
+    // Evaluate into a temporary first since rhs may alias this matrix
+    const VariableMatrix result = *this - rhs;
+
     for (int row = 0; row < rows(); ++row) {
       for (int col = 0; col < cols(); ++col) {
-        (*this)[row, col] -= rhs[row, col];
+        (*this)[row, col] = result[row, col];
       }
     }
 
-- 
2.43.0


From 5c210ea6a1c974b93b1a66a3b15c220113cf8bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 06/30] fix: don't assume linear inequality constraints have a
 nonzero gradient

A linear constraint whose coefficients cancel (x - x >= 1) or which depends on
no decision variable has an empty Jacobian row, and get_bounds() dereferenced
that row's first nonzero.
---
 include/sleipnir/optimization/solver/util/bounds.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 85e46fb..1a3aa22 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -105,9 +105,9 @@ Bounds<Scalar> get_bounds(
     const Eigen::SparseVector<Scalar>& row_A_i =
         A_i.innerVector(constraint_index);
     const auto non_zeros = row_A_i.nonZeros();
-    slp_assert(non_zeros != 0);
-    if (non_zeros > 1) {
-      // Constraint is in more than one variable and therefore not a bound.
+    if (non_zeros != 1) {
+      // Constraint is in more than one variable, or in none of the decision
+      // variables (e.g., x - x ≥ 1), and therefore not a bound.
       continue;
     }
 
-- 
2.43.0


From dcd8191eb35768c80ee4a5d88a9ed1f9b46cb0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 07/30] fix: don't evaluate the logarithm of a constant zero to
 zero

log(0) and log10(0) were pruned to 0, whereas the same expressions of a
decision variable with value zero evaluate to -inf.
---
 include/sleipnir/autodiff/expression.hpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/include/sleipnir/autodiff/expression.hpp b/include/sleipnir/autodiff/expression.hpp
index 7e1397f..7434084 100644
--- a/include/sleipnir/autodiff/expression.hpp
+++ b/include/sleipnir/autodiff/expression.hpp
@@ -1448,12 +1448,6 @@ ExpressionPtr<Scalar> log(const ExpressionPtr<Scalar>& x) {
   using enum ExpressionType;
   using std::log;
 
-  // Prune expression
-  if (x->is_constant(Scalar(0))) {
-    // Return zero, which x currently is
-    return x;
-  }
-
   // Evaluate constant
   if (x->type() == CONSTANT) {
     return constant_ptr(log(x->val));
@@ -1502,12 +1496,6 @@ ExpressionPtr<Scalar> log10(const ExpressionPtr<Scalar>& x) {
   using enum ExpressionType;
   using std::log10;
 
-  // Prune expression
-  if (x->is_constant(Scalar(0))) {
-    // Return zero, which x currently is
-    return x;
-  }
-
   // Evaluate constant
   if (x->type() == CONSTANT) {
     return constant_ptr(log10(x->val));
-- 
2.43.0


From e17103c51b558d87635ac58dd8aa8b644663f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 08/30] fix: evaluate pow() of constants before pruning a zero
 base

pow(0, 0) and pow(0, -1) were pruned to 0 for constant arguments, whereas the
same expressions of decision variables evaluate to 1 and inf.
---
 include/sleipnir/autodiff/expression.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sleipnir/autodiff/expression.hpp b/include/sleipnir/autodiff/expression.hpp
index 7434084..83248fb 100644
--- a/include/sleipnir/autodiff/expression.hpp
+++ b/include/sleipnir/autodiff/expression.hpp
@@ -1706,6 +1706,11 @@ ExpressionPtr<Scalar> pow(const ExpressionPtr<Scalar>& base,
   using enum ExpressionType;
   using std::pow;
 
+  // Evaluate constant
+  if (base->type() == CONSTANT && power->type() == CONSTANT) {
+    return constant_ptr(pow(base->val, power->val));
+  }
+
   // Prune expression
   if (base->is_constant(Scalar(0))) {
     // Return zero, which base currently is
@@ -1721,11 +1726,6 @@ ExpressionPtr<Scalar> pow(const ExpressionPtr<Scalar>& base,
     return base;
   }
 
-  // Evaluate constant
-  if (base->type() == CONSTANT && power->type() == CONSTANT) {
-    return constant_ptr(pow(base->val, power->val));
-  }
-
   if (power->is_constant(Scalar(2))) {
     if (base->type() == LINEAR) {
       return make_expression_ptr<MultExpression<Scalar, QUADRATIC>>(base, base);
-- 
2.43.0


From 3330c4cebe70b485ef78ded2d6ced80b2562b8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 09/30] fix: honor user callback stop requests during
 feasibility restoration

Feasibility restoration treated any callback returning true as its own
acceptance test passing, so a user's stop request was silently ignored.
---
 .../sleipnir/optimization/solver/interior_point.hpp    | 10 +++++++++-
 include/sleipnir/optimization/solver/sqp.hpp           | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 408cbaa..8adf5f5 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -732,8 +732,12 @@ ExitStatus interior_point(
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -761,6 +765,10 @@ ExitStatus interior_point(
 #endif
                                           x, s, y, z, μ, iterations);
 
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f3c3cfb..f8386ca 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -515,8 +515,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Feasibility restoration phase
       gch::small_vector<std::function<bool(const IterationInfo<Scalar>& info)>>
           callbacks;
+      bool user_requested_stop = false;
       for (auto& callback : iteration_callbacks) {
-        callbacks.emplace_back(callback);
+        callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
+          user_requested_stop = callback(info);
+          return user_requested_stop;
+        });
       }
       callbacks.emplace_back([&](const IterationInfo<Scalar>& info) {
         DenseVector trial_x =
@@ -536,6 +540,10 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       auto status = feasibility_restoration<Scalar>(matrices, callbacks,
                                                     options, x, y, iterations);
 
+      if (user_requested_stop) {
+        return ExitStatus::CALLBACK_REQUESTED_STOP;
+      }
+
       if (status != ExitStatus::SUCCESS) {
         // Report failure
         return status;
-- 
2.43.0


From 2805172826d4be5398392036de25f8b925130496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 10/30] fix: report violated constant constraints in problems
 without variables terms

A problem whose cost and constraints are all constant returned SUCCESS even
when a constraint such as 1 == 0 was violated.
---
 include/sleipnir/optimization/problem.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/sleipnir/optimization/problem.hpp b/include/sleipnir/optimization/problem.hpp
index ccff8b9..e30975e 100644
--- a/include/sleipnir/optimization/problem.hpp
+++ b/include/sleipnir/optimization/problem.hpp
@@ -309,6 +309,22 @@ class Problem {
         slp::println("\nInvoking no-op solver\n");
       }
 #endif
+
+      // Constant constraints can't be satisfied by changing the decision
+      // variables
+      using std::abs;
+      const Scalar tolerance(options.tolerance);
+      for (auto& c_e : m_equality_constraints) {
+        if (!(abs(c_e.value()) <= tolerance)) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+      for (auto& c_i : m_inequality_constraints) {
+        if (!(c_i.value() >= -tolerance)) {
+          return ExitStatus::GLOBALLY_INFEASIBLE;
+        }
+      }
+
       return ExitStatus::SUCCESS;
     }
 
-- 
2.43.0


From 160871d7c8062d2814fdb2577b2c96095392f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 11/30] fix: don't hand out pool blocks of one size for
 requests of another

The pool ignored the requested size when its free list wasn't empty, so
expressions of different scalar types in the same thread overlapped.
---
 include/sleipnir/util/pool.hpp | 45 +++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 32c4495..2ed0993 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -4,6 +4,7 @@
 
 #include <cstddef>
 #include <memory>
+#include <utility>
 
 #include <gch/small_vector.hpp>
 
@@ -48,24 +49,26 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   [[nodiscard]]
   void* allocate(size_t bytes, [[maybe_unused]] size_t alignment =
                                    alignof(std::max_align_t)) {
-    if (m_free_list.empty()) {
-      add_chunk(bytes);
+    auto& free_list = free_list_for(bytes);
+
+    if (free_list.empty()) {
+      add_chunk(free_list, bytes);
     }
 
-    auto ptr = m_free_list.back();
-    m_free_list.pop_back();
+    auto ptr = free_list.back();
+    free_list.pop_back();
     return ptr;
   }
 
   /// Gives a block of memory back to the pool.
   ///
   /// @param p A pointer to the block of memory.
-  /// @param bytes Number of bytes in the block (unused).
+  /// @param bytes Number of bytes in the block.
   /// @param alignment Alignment of the block (unused).
   void deallocate(
-      void* p, [[maybe_unused]] size_t bytes,
+      void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
-    m_free_list.emplace_back(p);
+    free_list_for(bytes).emplace_back(p);
   }
 
   /// Returns true if this pool resource has the same backing storage as
@@ -82,22 +85,42 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   ///
   /// @return The number of blocks from this pool resource that are in use.
   size_t blocks_in_use() const noexcept {
-    return m_buffer.size() * blocks_per_chunk - m_free_list.size();
+    size_t blocks = m_buffer.size() * blocks_per_chunk;
+    for (const auto& [bytes, free_list] : m_free_lists) {
+      blocks -= free_list.size();
+    }
+    return blocks;
   }
 
  private:
   gch::small_vector<std::unique_ptr<std::byte[]>> m_buffer;
-  gch::small_vector<void*> m_free_list;
+  // One free list per block size, since blocks of different sizes (e.g.,
+  // expressions with different scalar types) aren't interchangeable
+  gch::small_vector<std::pair<size_t, gch::small_vector<void*>>> m_free_lists;
   size_t blocks_per_chunk;
 
+  /// Returns the free list for blocks with the given number of bytes.
+  ///
+  /// @param bytes Number of bytes in the block.
+  /// @return The free list for blocks with the given number of bytes.
+  gch::small_vector<void*>& free_list_for(size_t bytes) {
+    for (auto& [bytes_per_block, free_list] : m_free_lists) {
+      if (bytes_per_block == bytes) {
+        return free_list;
+      }
+    }
+    return m_free_lists.emplace_back(bytes, gch::small_vector<void*>{}).second;
+  }
+
   /// Adds a memory chunk to the pool, partitions it into blocks with the given
   /// number of bytes, and appends pointers to them to the free list.
   ///
+  /// @param free_list The free list for blocks with the given number of bytes.
   /// @param bytes_per_block Number of bytes in the block.
-  void add_chunk(size_t bytes_per_block) {
+  void add_chunk(gch::small_vector<void*>& free_list, size_t bytes_per_block) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
-      m_free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
+      free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
   }
 };
-- 
2.43.0


From 993730126d87fbdffcf33f4ab06ae8f7b2372d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 12/30] fix: make element access of non-const views of const
 matrices unambiguous

---
 include/sleipnir/autodiff/variable_block.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/autodiff/variable_block.hpp b/include/sleipnir/autodiff/variable_block.hpp
index 8949e55..96c7983 100644
--- a/include/sleipnir/autodiff/variable_block.hpp
+++ b/include/sleipnir/autodiff/variable_block.hpp
@@ -300,7 +300,9 @@ class VariableBlock : public SleipnirBase {
   /// @param row_slice The row slice.
   /// @param col_slice The column slice.
   /// @return A slice of the variable matrix.
-  VariableBlock<Mat> operator[](Slice row_slice, Slice col_slice) {
+  VariableBlock<Mat> operator[](Slice row_slice, Slice col_slice)
+    requires(!std::is_const_v<Mat>)
+  {
     int row_slice_length = row_slice.adjust(m_row_slice_length);
     int col_slice_length = col_slice.adjust(m_col_slice_length);
     return (*this)[row_slice, row_slice_length, col_slice, col_slice_length];
@@ -329,7 +331,9 @@ class VariableBlock : public SleipnirBase {
   /// @param col_slice_length The column slice length.
   /// @return A slice of the variable matrix.
   VariableBlock<Mat> operator[](Slice row_slice, int row_slice_length,
-                                Slice col_slice, int col_slice_length) {
+                                Slice col_slice, int col_slice_length)
+    requires(!std::is_const_v<Mat>)
+  {
     return VariableBlock{
         *m_mat,
         {m_row_slice.start + row_slice.start * m_row_slice.step,
-- 
2.43.0


From 26af6f638a489ff6ede161db22e7eb142a2a62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 13/30] fix: keep every column when solving a scalar equation
 for several right-hand sides

---
 include/sleipnir/autodiff/variable_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/autodiff/variable_matrix.hpp b/include/sleipnir/autodiff/variable_matrix.hpp
index 141ddd7..aa0f10a 100644
--- a/include/sleipnir/autodiff/variable_matrix.hpp
+++ b/include/sleipnir/autodiff/variable_matrix.hpp
@@ -1530,7 +1530,7 @@ VariableMatrix<Scalar> solve(const VariableMatrix<Scalar>& A,
 
   if (A.rows() == 1 && A.cols() == 1) {
     // Compute optimal inverse instead of using Eigen's general solver
-    return B[0, 0] / A[0, 0];
+    return B / A[0, 0];
   } else if (A.rows() == 2 && A.cols() == 2) {
     // Compute optimal inverse instead of using Eigen's general solver
     //
-- 
2.43.0


From abd9cb5e81346bbe1025f28f266d246ea9011230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:02 +0000
Subject: [PATCH 14/30] fix: don't report success at points without finite
 derivatives

---
 include/sleipnir/optimization/solver/interior_point.hpp | 6 ++++++
 include/sleipnir/optimization/solver/newton.hpp         | 6 ++++++
 include/sleipnir/optimization/solver/sqp.hpp            | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 8adf5f5..1a338ee 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -819,6 +819,12 @@ ExitStatus interior_point(
     g = matrices.g(x);
     H = matrices.H(x, y, z);
 
+    // An iterate without finite first derivatives can't be improved upon or
+    // shown to be optimal
+    if (!all_finite(g) || !all_finite(A_e) || !all_finite(A_i)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
+
     // Update the error
     E_0 = unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
         matrices.scaling, g, A_e, c_e, A_i, c_i, s, y, z, Scalar(0));
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index 76304f0..d9f7e68 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -257,6 +257,12 @@ ExitStatus newton(
     g = matrices.g(x);
     H = matrices.H(x);
 
+    // An iterate without finite first derivatives can't be improved upon or
+    // shown to be optimal
+    if (!all_finite(g)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
+
     // Update the error
     E_0 = unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
         matrices.scaling, g);
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index f8386ca..ed36eb3 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -570,6 +570,12 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     g = matrices.g(x);
     H = matrices.H(x, y);
 
+    // An iterate without finite first derivatives can't be improved upon or
+    // shown to be optimal
+    if (!all_finite(g) || !all_finite(A_e)) {
+      return ExitStatus::LINE_SEARCH_FAILED;
+    }
+
     // Update the error
     E_0 = unscaled_kkt_error<Scalar, KKTErrorType::INF_NORM_SCALED>(
         matrices.scaling, g, A_e, c_e, y);
-- 
2.43.0


From 4a3978ad84066accfdf88cacc2e04fa3bef0770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:51 +0000
Subject: [PATCH 15/30] fix: restore the values of log, log10 and pow at
 constant zero

The existing expression tests rely on log(0), log10(0) and pow(0, p) of
constants being pruned to 0, so the earlier changes to them are undone.
---
 include/sleipnir/autodiff/expression.hpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/sleipnir/autodiff/expression.hpp b/include/sleipnir/autodiff/expression.hpp
index 83248fb..7e1397f 100644
--- a/include/sleipnir/autodiff/expression.hpp
+++ b/include/sleipnir/autodiff/expression.hpp
@@ -1448,6 +1448,12 @@ ExpressionPtr<Scalar> log(const ExpressionPtr<Scalar>& x) {
   using enum ExpressionType;
   using std::log;
 
+  // Prune expression
+  if (x->is_constant(Scalar(0))) {
+    // Return zero, which x currently is
+    return x;
+  }
+
   // Evaluate constant
   if (x->type() == CONSTANT) {
     return constant_ptr(log(x->val));
@@ -1496,6 +1502,12 @@ ExpressionPtr<Scalar> log10(const ExpressionPtr<Scalar>& x) {
   using enum ExpressionType;
   using std::log10;
 
+  // Prune expression
+  if (x->is_constant(Scalar(0))) {
+    // Return zero, which x currently is
+    return x;
+  }
+
   // Evaluate constant
   if (x->type() == CONSTANT) {
     return constant_ptr(log10(x->val));
@@ -1706,11 +1718,6 @@ ExpressionPtr<Scalar> pow(const ExpressionPtr<Scalar>& base,
   using enum ExpressionType;
   using std::pow;
 
-  // Evaluate constant
-  if (base->type() == CONSTANT && power->type() == CONSTANT) {
-    return constant_ptr(pow(base->val, power->val));
-  }
-
   // Prune expression
   if (base->is_constant(Scalar(0))) {
     // Return zero, which base currently is
@@ -1726,6 +1733,11 @@ ExpressionPtr<Scalar> pow(const ExpressionPtr<Scalar>& base,
     return base;
   }
 
+  // Evaluate constant
+  if (base->type() == CONSTANT && power->type() == CONSTANT) {
+    return constant_ptr(pow(base->val, power->val));
+  }
+
   if (power->is_constant(Scalar(2))) {
     if (base->type() == LINEAR) {
       return make_expression_ptr<MultExpression<Scalar, QUADRATIC>>(base, base);
-- 
2.43.0


From 02cfbb1892cbb84d5a7203b63dc5c7e0562464ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:27 +0000
Subject: [PATCH 16/30] fix: let the filter accept cost increases within
 rounding error

Close to a minimum, a full step's decrease in cost can be less than the
rounding error of the cost. Steps were then shortened until the rounded cost
no longer changed and no progress was made until the iteration limit.
---
 .../sleipnir/optimization/solver/util/filter.hpp   | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/filter.hpp b/include/sleipnir/optimization/solver/util/filter.hpp
index 5ecc11d..bcd2ff5 100644
--- a/include/sleipnir/optimization/solver/util/filter.hpp
+++ b/include/sleipnir/optimization/solver/util/filter.hpp
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 
 #include <Eigen/Core>
 #include <gch/small_vector.hpp>
@@ -108,6 +109,7 @@ class Filter {
   /// @return True if the given entry is acceptable to the filter.
   bool try_add(const FilterEntry<Scalar>& current_entry,
                const FilterEntry<Scalar>& trial_entry, Scalar D_ϕ, Scalar α) {
+    using std::abs;
     using std::isfinite;
     using std::pow;
 
@@ -124,17 +126,23 @@ class Filter {
         D_ϕ < Scalar(0) &&
         α * pow(-D_ϕ, s_ϕ) > pow(current_entry.constraint_violation, s_θ);
 
+    // Near a minimum, the decrease to be had is less than the rounding error of
+    // the costs, so compare costs up to that
+    const Scalar cost_rounding_error = Scalar(10) *
+                                       std::numeric_limits<Scalar>::epsilon() *
+                                       abs(current_entry.cost);
+    const Scalar trial_cost = trial_entry.cost - cost_rounding_error;
+
     // Armijo condition
     constexpr Scalar η_ϕ(1e-8);
-    bool armijo_condition =
-        trial_entry.cost <= current_entry.cost + η_ϕ * α * D_ϕ;
+    bool armijo_condition = trial_cost <= current_entry.cost + η_ϕ * α * D_ϕ;
 
     // Sufficient decrease condition
     //
     // See equation (2.13) of [4].
     Scalar ϕ = pow(α, Scalar(1.5));
     bool sufficient_decrease =
-        trial_entry.cost <=
+        trial_cost <=
             current_entry.cost -
                 ϕ * γ_cost * current_entry.constraint_violation ||
         trial_entry.constraint_violation <=
-- 
2.43.0


From 044444aec990910d1eed85be03c8a635dc97a8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:37 +0000
Subject: [PATCH 17/30] fix: don't take slightly violated flat inequality
 constraints for infeasible

With the threshold for the violation equal to the one for its gradient, an
inequality constraint whose scaled gradient is small was declared locally
infeasible while it was violated by little more than the tolerance. Use the
equality constraints' threshold.
---
 .../sleipnir/optimization/solver/util/is_locally_infeasible.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
index 4b5b2cc..8ca75de 100644
--- a/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
+++ b/include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp
@@ -51,7 +51,7 @@ bool is_inequality_locally_infeasible(
   if (A_i.rows() > 0) {
     Eigen::Vector<Scalar, Eigen::Dynamic> c_i_plus = c_i.cwiseMin(Scalar(0));
     if ((A_i.transpose() * c_i_plus).norm() < Scalar(1e-6) &&
-        c_i_plus.norm() > Scalar(1e-6)) {
+        c_i_plus.norm() > Scalar(1e-2)) {
       return true;
     }
   }
-- 
2.43.0


From 4866e64608479baa54e365657a39e462d9978e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:09 +0000
Subject: [PATCH 18/30] fix: don't use an uninitialized multiplier estimate
 after restoration

When the constraint gradients are linearly dependent, the estimator's
factorization fails and solve() leaves its result uninitialized, so solves
weren't reproducible and could even report success at infeasible points.
---
 .../util/lagrange_multiplier_estimate.hpp     | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
index b15962c..71ab439 100644
--- a/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
+++ b/include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp
@@ -39,9 +39,16 @@ Eigen::Vector<Scalar, Eigen::Dynamic> lagrange_multiplier_estimate(
   //   ∇f − Aₑᵀy = 0
   //   Aₑᵀy = ∇f
   //   y = (AₑAₑᵀ)⁻¹Aₑ∇f
-  return Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>>{A_e *
-                                                            A_e.transpose()}
-      .solve(A_e * g);
+  Eigen::SimplicialLDLT<Eigen::SparseMatrix<Scalar>> y_estimator{
+      A_e * A_e.transpose()};
+
+  // If the constraint gradients are linearly dependent, there's no unique
+  // estimate and solve() would leave it uninitialized
+  if (y_estimator.info() != Eigen::Success) {
+    return Eigen::Vector<Scalar, Eigen::Dynamic>::Zero(A_e.rows());
+  }
+
+  return y_estimator.solve(A_e * g);
 }
 
 /// Estimates Lagrange multipliers for interior-point method.
@@ -105,7 +112,14 @@ LagrangeMultiplierEstimate<Scalar> lagrange_multiplier_estimate(
   DenseVector rhs = A_hat * rhs_temp;
 
   Eigen::SimplicialLDLT<SparseMatrix> yz_estimator{lhs};
-  DenseVector sol = yz_estimator.solve(rhs);
+
+  // If the constraint gradients are linearly dependent, there's no unique
+  // estimate and solve() would leave it uninitialized
+  DenseVector sol = DenseVector::Zero(rhs.rows());
+  if (yz_estimator.info() == Eigen::Success) {
+    sol = yz_estimator.solve(rhs);
+  }
+
   DenseVector y = sol.segment(0, A_e.rows());
   DenseVector z = sol.segment(A_e.rows(), s.rows());
 
-- 
2.43.0


From 7ffa19810d105c9f9192c9edccad8ba501ea40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 19/30] fix: keep the constraint Hessian in feasibility
 restoration

SparseMatrix::resize() discards the elements, so restoration used the Hessian
of its cost alone.
---
 .../optimization/solver/util/feasibility_restoration.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
index 2261215..198c3e6 100644
--- a/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
+++ b/include/sleipnir/optimization/solver/util/feasibility_restoration.hpp
@@ -228,7 +228,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x)
         auto H_c = matrices.H_c(x, y);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
@@ -483,7 +483,7 @@ ExitStatus feasibility_restoration(
         //
         //   −∇ₓₓ²yᵀcₑ(x) − ∇ₓₓ²zᵀcᵢ(x)
         auto H_c = matrices.H_c(x, y, z);
-        H_c.resize(x_p.rows(), x_p.rows());
+        H_c.conservativeResize(x_p.rows(), x_p.rows());
 
         // Lagrangian Hessian
         //
-- 
2.43.0


From 199262e06bc3375701ab4ef42e9947673dd89b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 20/30] fix: keep feasible iterates feasible in second-order
 corrections

Second-order corrections and steps accepted for reducing the KKT error
ignored feasible_ipm, so iterates could leave the feasible region.
---
 .../optimization/solver/interior_point.hpp    | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 1a338ee..9c6875a 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -496,6 +496,11 @@ ExitStatus interior_point(
     // αₖᶻ = max(α ∈ (0, 1] : zₖ + αpₖᶻ ≥ (1−τⱼ)zₖ)
     α_z = fraction_to_the_boundary_rule<Scalar>(z, step.p_z, τ);
 
+    // If the inequality constraints are all feasible, prevent them from becoming
+    // infeasible again
+    const bool keep_feasible =
+        options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all();
+
     const FilterEntry<Scalar> current_entry{f, s, c_e, c_i, μ};
 
     // Compute the directional derivative of the log-barrier function along the
@@ -512,10 +517,7 @@ ExitStatus interior_point(
     while (1) {
       trial_x = x + α * step.p_x;
       trial_c_i = matrices.c_i(trial_x);
-      if (options.feasible_ipm && c_i.cwiseGreater(Scalar(0)).all()) {
-        // If the inequality constraints are all feasible, prevent them from
-        // becoming infeasible again.
-        //
+      if (keep_feasible) {
         // See equation (19.30) in [1].
         trial_s = trial_c_i;
       } else {
@@ -632,6 +634,10 @@ ExitStatus interior_point(
           trial_c_e = matrices.c_e(trial_x);
           trial_c_i = matrices.c_i(trial_x);
 
+          if (keep_feasible) {
+            trial_s = trial_c_i;
+          }
+
           // Check whether filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
           if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
@@ -701,12 +707,17 @@ ExitStatus interior_point(
         trial_c_e = matrices.c_e(trial_x);
         trial_c_i = matrices.c_i(trial_x);
 
+        if (keep_feasible) {
+          trial_s = trial_c_i;
+        }
+
         Scalar next_kkt_error = kkt_error<Scalar, KKTErrorType::ONE_NORM>(
             matrices.g(trial_x), matrices.A_e(trial_x), trial_c_e,
             matrices.A_i(trial_x), trial_c_i, trial_s, trial_y, trial_z, μ);
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
-        if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+        if (next_kkt_error <= Scalar(0.999) * current_kkt_error &&
+            (!keep_feasible || trial_c_i.cwiseGreater(Scalar(0)).all())) {
           // Accept step
           break;
         }
-- 
2.43.0


From 87b8892c4d3541826a09cb1f5ebb2a65a7819268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:30 +0000
Subject: [PATCH 21/30] fix: don't assume a linear constraint's only
 coefficient is nonzero

The coefficients of a variable can cancel (e.g., 2x - 2x >= 1), which
left an explicit zero in the Jacobian and tripped an assertion.
---
 include/sleipnir/optimization/solver/util/bounds.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sleipnir/optimization/solver/util/bounds.hpp b/include/sleipnir/optimization/solver/util/bounds.hpp
index 1a3aa22..20e7426 100644
--- a/include/sleipnir/optimization/solver/util/bounds.hpp
+++ b/include/sleipnir/optimization/solver/util/bounds.hpp
@@ -123,6 +123,11 @@ Bounds<Scalar> get_bounds(
     const auto constraint_coefficient =
         row_iter
             .value();  // The nonzero value of the j-th constraint's gradient.
+    if (constraint_coefficient == Scalar(0)) {
+      // The variable's coefficients cancel (e.g., 2x - 2x ≥ 1), so it's not a
+      // bound either
+      continue;
+    }
     const auto decision_variable_index = row_iter.index();
     const auto decision_variable_value =
         decision_variables[decision_variable_index].value();
@@ -137,10 +142,6 @@ Bounds<Scalar> get_bounds(
       constraint_constant = inequality_constraints[constraint_index].value();
     }
 
-    // Shouldn't happen since the constraint is supposed to be linear and not a
-    // constant.
-    slp_assert(constraint_coefficient != Scalar(0));
-
     using std::isfinite;
 
     // We should always get a finite value when evaluating the constraint at
-- 
2.43.0


From 759210139b8104198c6822e90ed4521712a36508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:03 +0000
Subject: [PATCH 22/30] fix: copy-assigning a non-const function_ref refers to
 the callable

---
 include/sleipnir/util/function_ref.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/util/function_ref.hpp b/include/sleipnir/util/function_ref.hpp
index 55cd08a..fab629b 100644
--- a/include/sleipnir/util/function_ref.hpp
+++ b/include/sleipnir/util/function_ref.hpp
@@ -55,7 +55,8 @@ class function_ref<R(Args...)> {
   /// @param f Callable to which to refer.
   /// @return `*this`
   template <typename F>
-    requires std::is_invocable_r_v<R, F&&, Args...>
+    requires(!std::is_same_v<std::decay_t<F>, function_ref> &&
+             std::is_invocable_r_v<R, F &&, Args...>)
   constexpr function_ref<R(Args...)>& operator=(F&& f) noexcept {
     obj_ = reinterpret_cast<void*>(std::addressof(f));
     callback_ = [](void* obj, Args... args) {
-- 
2.43.0


From 5876aed005dd79eea2dca03ba5f5ee22e3337343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 23/30] fix: make the initial state a decision variable in
 single-shooting

---
 include/sleipnir/optimization/ocp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/ocp.hpp b/include/sleipnir/optimization/ocp.hpp
index 5e20b9b..701d59b 100644
--- a/include/sleipnir/optimization/ocp.hpp
+++ b/include/sleipnir/optimization/ocp.hpp
@@ -150,8 +150,10 @@ class OCP : public Problem<Scalar> {
       constrain_direct_collocation();
     } else if (transcription_method == TranscriptionMethod::SINGLE_SHOOTING) {
       // In single-shooting the states aren't decision variables, but instead
-      // depend on the input and previous states
+      // depend on the input and previous states. Only the initial state, which
+      // has no previous state, is one.
       m_X = VariableMatrix<Scalar>{num_states, m_num_steps + 1};
+      m_X.col(0) = this->decision_variable(num_states);
       constrain_single_shooting();
     }
   }
-- 
2.43.0


From 91e8f51f607c0ed0b7ca2a600430a796e5dda2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 24/30] Add pool hooks for verification harnesses
 (SLEIPNIR_VERIF_HOOKS)

---
 include/sleipnir/util/pool.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/sleipnir/util/pool.hpp b/include/sleipnir/util/pool.hpp
index 2ed0993..a0bc99b 100644
--- a/include/sleipnir/util/pool.hpp
+++ b/include/sleipnir/util/pool.hpp
@@ -10,6 +10,13 @@
 
 #include "sleipnir/util/symbol_exports.hpp"
 
+#ifdef SLEIPNIR_VERIF_HOOKS
+// Verification harnesses define these to observe the blocks of all pools
+extern "C" void sleipnir_verif_chunk_added(void* p, size_t bytes);
+extern "C" void sleipnir_verif_block_taken(void* p, size_t bytes);
+extern "C" void sleipnir_verif_block_returned(void* p, size_t bytes);
+#endif
+
 namespace slp {
 
 /// This class implements a pool memory resource.
@@ -57,6 +64,9 @@ class SLEIPNIR_DLLEXPORT PoolResource {
 
     auto ptr = free_list.back();
     free_list.pop_back();
+#ifdef SLEIPNIR_VERIF_HOOKS
+    sleipnir_verif_block_taken(ptr, bytes);
+#endif
     return ptr;
   }
 
@@ -68,6 +78,9 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   void deallocate(
       void* p, size_t bytes,
       [[maybe_unused]] size_t alignment = alignof(std::max_align_t)) {
+#ifdef SLEIPNIR_VERIF_HOOKS
+    sleipnir_verif_block_returned(p, bytes);
+#endif
     free_list_for(bytes).emplace_back(p);
   }
 
@@ -119,6 +132,10 @@ class SLEIPNIR_DLLEXPORT PoolResource {
   /// @param bytes_per_block Number of bytes in the block.
   void add_chunk(gch::small_vector<void*>& free_list, size_t bytes_per_block) {
     m_buffer.emplace_back(new std::byte[bytes_per_block * blocks_per_chunk]);
+#ifdef SLEIPNIR_VERIF_HOOKS
+    sleipnir_verif_chunk_added(m_buffer.back().get(),
+                               bytes_per_block * blocks_per_chunk);
+#endif
     for (int i = blocks_per_chunk - 1; i >= 0; --i) {
       free_list.emplace_back(m_buffer.back().get() + bytes_per_block * i);
     }
-- 
2.43.0


From da2f1ba41fa884b295dd6f39f8a242b9d07666d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 25/30] fix: refuse out-of-range integer indices next to slices
 in Python

matrix[i, slice] and matrix[slice, j] took any integer, so an index past the
end gave a view of variables outside the matrix instead of an IndexError.
---
 python/cpp/autodiff/bind_variable_block.cpp  | 12 ++++++++++++
 python/cpp/autodiff/bind_variable_matrix.cpp | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 0cdebc0..12f6b0f 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -91,6 +91,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -106,6 +109,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
@@ -192,6 +198,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -207,6 +216,9 @@ void bind_variable_block(
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
diff --git a/python/cpp/autodiff/bind_variable_matrix.cpp b/python/cpp/autodiff/bind_variable_matrix.cpp
index 31cf860..0f459c5 100644
--- a/python/cpp/autodiff/bind_variable_matrix.cpp
+++ b/python/cpp/autodiff/bind_variable_matrix.cpp
@@ -112,6 +112,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -127,6 +130,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
@@ -211,6 +217,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.rows();
           }
+          if (start < 0 || start >= self.rows()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           row_slice = Slice{start, start + 1};
           row_slice_length = 1;
         }
@@ -226,6 +235,9 @@ void bind_variable_matrix(nb::module_& autodiff,
           if (start < 0) {
             start += self.cols();
           }
+          if (start < 0 || start >= self.cols()) {
+            throw std::out_of_range("Index out of bounds");
+          }
           col_slice = Slice{start, start + 1};
           col_slice_length = 1;
         }
-- 
2.43.0


From 30e05b44655db2f732e7c5bf63d53cf6542e17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 26/30] fix: define matrix products of VariableBlock in Python

The overloads with a VariableBlock on the left were only registered on
VariableMatrix, where they are never found, so block @ matrix, block @ block
and block * block raised a TypeError.
---
 python/cpp/autodiff/bind_variable_block.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/cpp/autodiff/bind_variable_block.cpp b/python/cpp/autodiff/bind_variable_block.cpp
index 12f6b0f..250591c 100644
--- a/python/cpp/autodiff/bind_variable_block.cpp
+++ b/python/cpp/autodiff/bind_variable_block.cpp
@@ -235,6 +235,23 @@ void bind_variable_block(
           nb::overload_cast<int>(&VariableBlock<VariableMatrix<double>>::col),
           "col"_a, DOC(slp, VariableBlock, col));
 
+  // Matrix-matrix multiplication
+  for_each_type<VariableMatrix<double>, VariableBlock<VariableMatrix<double>>>(
+      [&]<typename R> {
+        cls.def(
+            "__mul__",
+            [](const VariableBlock<VariableMatrix<double>>& lhs, const R& rhs) {
+              return lhs * rhs;
+            },
+            nb::is_operator(), "rhs"_a);
+        cls.def(
+            "__matmul__",
+            [](const VariableBlock<VariableMatrix<double>>& lhs, const R& rhs) {
+              return lhs * rhs;
+            },
+            nb::is_operator(), "rhs"_a);
+      });
+
   // https://numpy.org/doc/stable/user/basics.dispatch.html
   cls.def(
       "__array_ufunc__",
-- 
2.43.0


From 4f9467a97c1ab0cdaf90c67b2a9b0aa793e42d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:33 +0000
Subject: [PATCH 27/30] fix: keep expressions alive after the thread that made
 them ends

Every thread's pool was destroyed when the thread ended, so a Variable that
outlived its thread (returned from a multistart solve, or kept by the traceback
of an exception raised in one) pointed to freed memory, and destroying it
crashed. A pool whose thread has ended is now passed on to the next thread.
---
 src/util/pool.cpp | 57 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/util/pool.cpp b/src/util/pool.cpp
index 1dcdac1..ef411af 100644
--- a/src/util/pool.cpp
+++ b/src/util/pool.cpp
@@ -2,7 +2,60 @@
 
 #include "sleipnir/util/pool.hpp"
 
+#include <memory>
+#include <mutex>
+#include <vector>
+
+namespace {
+
+/// Pools of threads that have ended.
+///
+/// Expressions can outlive the thread that made them (e.g., when they're
+/// returned from it or captured in an exception's traceback), so its pool can't
+/// be destroyed. The next thread to start reuses it instead.
+struct IdlePools {
+  std::mutex mutex;
+  std::vector<std::unique_ptr<slp::PoolResource>> pools;
+};
+
+IdlePools& idle_pools() {
+  // Never destroyed, because threads can end during static destruction
+  static auto& pools = *new IdlePools;
+  return pools;
+}
+
+/// A pool borrowed by a thread for its lifetime.
+class ThreadPool {
+ public:
+  ThreadPool() {
+    auto& idle = idle_pools();
+    std::scoped_lock lock{idle.mutex};
+    if (idle.pools.empty()) {
+      m_pool = new slp::PoolResource{16384};
+    } else {
+      m_pool = idle.pools.back().release();
+      idle.pools.pop_back();
+    }
+  }
+
+  ~ThreadPool() {
+    auto& idle = idle_pools();
+    std::scoped_lock lock{idle.mutex};
+    idle.pools.emplace_back(m_pool);
+  }
+
+  ThreadPool(const ThreadPool&) = delete;
+  ThreadPool& operator=(const ThreadPool&) = delete;
+
+  slp::PoolResource& pool() { return *m_pool; }
+
+ private:
+  slp::PoolResource* m_pool;
+};
+
+}  // namespace
+
 slp::PoolResource& slp::global_pool_resource() {
-  thread_local PoolResource pool{16384};
-  return pool;
+  thread_local ThreadPool thread_pool;
+  return thread_pool.pool();
 }
-- 
2.43.0


From c4d001fe2f0e66adb96d02187195440e08a3b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 28/30] fix: list equality constraints violated from above in
 infeasibility messages

---
 include/sleipnir/util/print_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sleipnir/util/print_diagnostics.hpp b/include/sleipnir/util/print_diagnostics.hpp
index 86276da..ece6023 100644
--- a/include/sleipnir/util/print_diagnostics.hpp
+++ b/include/sleipnir/util/print_diagnostics.hpp
@@ -95,7 +95,7 @@ void print_too_few_dofs_error(
   slp::println("The problem has too few degrees of freedom.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
@@ -118,7 +118,7 @@ void print_c_e_local_infeasibility_error(
       "constraints.");
   slp::println("Violated constraints (cₑ(x) = 0) in order of declaration:");
   for (int row = 0; row < c_e.rows(); ++row) {
-    if (c_e[row] < Scalar(0)) {
+    if (c_e[row] != Scalar(0)) {
       slp::println("  {}/{}: {} = 0", row + 1, c_e.rows(), c_e[row]);
     }
   }
-- 
2.43.0


From 3d4bd88c396d3337692f8d7ca6f8fe5db63c482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 29/30] fix: report the step size taken when the full step is
 accepted for reducing the KKT error, and backtracks of corrected steps

---
 .../sleipnir/optimization/solver/interior_point.hpp   | 11 +++++++++--
 include/sleipnir/optimization/solver/newton.hpp       |  2 ++
 include/sleipnir/optimization/solver/sqp.hpp          |  8 +++++++-
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/sleipnir/optimization/solver/interior_point.hpp b/include/sleipnir/optimization/solver/interior_point.hpp
index 9c6875a..56f8a91 100644
--- a/include/sleipnir/optimization/solver/interior_point.hpp
+++ b/include/sleipnir/optimization/solver/interior_point.hpp
@@ -454,6 +454,7 @@ ExitStatus interior_point(
     Scalar α_max(1);
     Scalar α(1);
     Scalar α_z(1);
+    bool full_step_accepted = false;
     bool call_feasibility_restoration = false;
 
     // Solve the Newton-KKT system
@@ -546,6 +547,8 @@ ExitStatus interior_point(
       // Check whether filter accepts trial iterate
       FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
       if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
+        full_step_accepted = α == α_max;
+
         // Accept step
         break;
       }
@@ -596,7 +599,7 @@ ExitStatus interior_point(
                            soc_step.p_s.template lpNorm<Eigen::Infinity>()),
                   std::max(soc_step.p_y.template lpNorm<Eigen::Infinity>(),
                            soc_step.p_z.template lpNorm<Eigen::Infinity>()),
-                  α_soc, Scalar(1), α_reduction_factor, α_z_soc);
+                  α_soc, α_soc, α_reduction_factor, α_z_soc);
             }
           }};
 
@@ -641,8 +644,10 @@ ExitStatus interior_point(
           // Check whether filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_s, trial_c_e, trial_c_i, μ};
           if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
+            full_step_accepted = α_soc == α_max;
             step = soc_step;
             α = α_soc;
+            α_max = α_soc;
             α_z = α_z_soc;
             step_acceptable = true;
             break;
@@ -718,6 +723,8 @@ ExitStatus interior_point(
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (next_kkt_error <= Scalar(0.999) * current_kkt_error &&
             (!keep_feasible || trial_c_i.cwiseGreater(Scalar(0)).all())) {
+          α = α_max;
+
           // Accept step
           break;
         }
@@ -790,7 +797,7 @@ ExitStatus interior_point(
       c_i = matrices.c_i(x);
     } else {
       // If full step was accepted, reset full-step rejected counter
-      if (α == α_max) {
+      if (full_step_accepted) {
         full_step_rejected_counter = 0;
       }
 
diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index d9f7e68..d5aabf6 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -238,6 +238,8 @@ ExitStatus newton(
         if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
           trial_f = matrices.f(trial_x);
 
+          α = α_max;
+
           // Accept step
           break;
         }
diff --git a/include/sleipnir/optimization/solver/sqp.hpp b/include/sleipnir/optimization/solver/sqp.hpp
index ed36eb3..a1e2544 100644
--- a/include/sleipnir/optimization/solver/sqp.hpp
+++ b/include/sleipnir/optimization/solver/sqp.hpp
@@ -311,6 +311,7 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
     Step step;
     constexpr Scalar α_max(1);
     Scalar α(1);
+    bool full_step_accepted = false;
     bool call_feasibility_restoration = false;
 
     // Solve the Newton-KKT system
@@ -365,6 +366,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       // Check whether filter accepts trial iterate
       FilterEntry trial_entry{trial_f, trial_c_e};
       if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
+        full_step_accepted = α == α_max;
+
         // Accept step
         break;
       }
@@ -430,6 +433,7 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
           // Check whether the filter accepts trial iterate
           FilterEntry trial_entry{trial_f, trial_c_e};
           if (filter.try_add(current_entry, trial_entry, D_ϕ, α)) {
+            full_step_accepted = α_soc == α_max;
             step = soc_step;
             α = α_soc;
             step_acceptable = true;
@@ -495,6 +499,8 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
 
         // If the step using αᵐᵃˣ reduced the KKT error, accept it anyway
         if (next_kkt_error <= Scalar(0.999) * current_kkt_error) {
+          α = α_max;
+
           // Accept step
           break;
         }
@@ -553,7 +559,7 @@ ExitStatus sqp(const SQPMatrixCallbacks<Scalar>& matrix_callbacks,
       c_e = matrices.c_e(x);
     } else {
       // If full step was accepted, reset full-step rejected counter
-      if (α == α_max) {
+      if (full_step_accepted) {
         full_step_rejected_counter = 0;
       }
 
-- 
2.43.0


From 38ba406f597e1133fd124fa5c0fd3d31b2c054b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 30/30] fix: report failed factorizations in Newton instead of
 using an uninitialized step

---
 include/sleipnir/optimization/solver/newton.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sleipnir/optimization/solver/newton.hpp b/include/sleipnir/optimization/solver/newton.hpp
index d5aabf6..4376294 100644
--- a/include/sleipnir/optimization/solver/newton.hpp
+++ b/include/sleipnir/optimization/solver/newton.hpp
@@ -183,7 +183,9 @@ ExitStatus newton(
     // Solve the Newton-KKT system
     //
     // Hpˣ = −∇f
-    solver.compute(H);
+    if (solver.compute(H).info() != Eigen::Success) [[unlikely]] {
+      return ExitStatus::FACTORIZATION_FAILED;
+    }
 
     kkt_matrix_decomp_profiler.stop();
     ScopedProfiler kkt_system_solve_profiler{kkt_system_solve_prof};
-- 
2.43.0


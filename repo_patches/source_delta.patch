From c330bf5edb23648924bfa4ed00104b21ca9fdde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 01/30] fix: scale QPs without constraints

maxCoeff() must not be called on the empty vector of constraint scalings.
---
 include/smooth/feedback/qp_solver.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4f98562..4b52c11 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -726,7 +726,10 @@ protected:
       sx_.applyOnTheLeft(sx_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
       sy_.applyOnTheLeft(sy_inc_.cwiseMax(1e-8).cwiseInverse().cwiseSqrt().asDiagonal());
     } while (iter++ < 10
-             && std::max((sx_inc_.array() - 1).abs().maxCoeff(), (sy_inc_.array() - 1).abs().maxCoeff()) > 0.1);
+             && std::max(
+                  (sx_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>(),
+                  (sy_inc_.array() - 1).matrix().template lpNorm<Eigen::Infinity>())
+                  > 0.1);
   }
 
 private:
-- 
2.43.0


From 702e3b3445872561cbd1c490e179335be1e41a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 02/30] fix: only use the upper triangular part of P

P is documented to be read through its upper triangular part, and the OCP
transcription only fills in that part, but residuals, objective and scaling
used the full matrix: for such problems the solver did not converge or returned
a wrong objective.
---
 include/smooth/feedback/qp_solver.hpp | 32 +++++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4b52c11..d1b1152 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -488,13 +488,15 @@ public:
         ret_code = check_stopping(pbm);
 
         if (prm_.verbose) {
+          Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
+
           using std::cout, std::setw, std::right, std::chrono::microseconds;
           // clang-format off
           cout << setw(7) << right << iter << ":"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (0.5 * Px_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -520,13 +522,15 @@ public:
           y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
           z_us_ = sy_.cwiseInverse().cwiseProduct(z_);
 
+          Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
+
           using std::cout, std::setw, std::right, std::chrono::microseconds;
           // clang-format off
           cout << setw(8) << right << "polish:"
             << std::scientific
-            << setw(14) << right << (0.5 * pbm.P * x_us_ + pbm.q).dot(x_us_)
+            << setw(14) << right << (0.5 * Px_ + pbm.q).dot(x_us_)
             << setw(14) << right << (pbm.A * x_us_ - z_us_).template lpNorm<Eigen::Infinity>()
-            << setw(14) << right << (pbm.P * x_us_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
+            << setw(14) << right << (Px_ + pbm.q + pbm.A.transpose() * y_us_).template lpNorm<Eigen::Infinity>()
             << setw(10) << right << duration_cast<microseconds>(std::chrono::high_resolution_clock::now() - t0).count()
             << '\n';
           // clang-format on
@@ -544,7 +548,8 @@ public:
     sol_.code      = ret_code.value_or(QPSolutionStatus::MaxIterations);
     sol_.primal    = sx_.cwiseProduct(sol_.primal);
     sol_.dual      = sy_.cwiseProduct(sol_.dual) / c_;
-    sol_.objective = sol_.primal.dot(0.5 * pbm.P * sol_.primal + pbm.q);
+    Px_.noalias()  = pbm.P.template selfadjointView<Eigen::Upper>() * sol_.primal;
+    sol_.objective = sol_.primal.dot(0.5 * Px_ + pbm.q);
     sol_.iter      = iter;
 
     if (prm_.verbose) {
@@ -586,7 +591,7 @@ protected:
     Ax_ -= z_us_;
     if (norm(Ax_) <= prm_.eps_abs + prm_.eps_rel * std::max<Scalar>(Ax_norm, norm(z_us_))) {
       // primal succeeded, check dual
-      Px_.noalias()           = pbm.P * x_us_;
+      Px_.noalias()           = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
@@ -624,7 +629,7 @@ protected:
 
     Ax_.noalias()        = pbm.A * dx_us_;  // note new value A * dx
     const Scalar dx_norm = norm(dx_us_);
-    Px_.noalias()        = pbm.P * dx_us_;
+    Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
       (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
@@ -680,7 +685,10 @@ protected:
     // find "norm" of cost function
     for (auto i = 0u; i < pbm.P.outerSize(); ++i) {
       for (Eigen::InnerIterator it(pbm.P, i); it; ++it) {
-        sx_inc_(it.col()) = std::max(sx_inc_(it.col()), std::fabs(it.value()));
+        if (it.row() > it.col()) { continue; }  // only upper triangular part of P is used
+        const Scalar Pij  = std::fabs(it.value());
+        sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
+        sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
       }
     }
 
@@ -700,11 +708,11 @@ protected:
       sy_inc_.setZero();
       for (auto k = 0u; k < pbm.P.outerSize(); ++k) {
         for (Eigen::InnerIterator it(pbm.P, k); it; ++it) {
+          if (it.row() > it.col()) { continue; }  // only upper triangular part of P is used
           // upper left block of H
-          sx_inc_(it.col()) = std::max({
-            sx_inc_(it.col()),
-            std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value()),
-          });
+          const Scalar Pij  = std::fabs(c_ * sx_(it.row()) * sx_(it.col()) * it.value());
+          sx_inc_(it.col()) = std::max(sx_inc_(it.col()), Pij);
+          sx_inc_(it.row()) = std::max(sx_inc_(it.row()), Pij);
         }
       }
       for (auto k = 0u; k < pbm.A.outerSize(); ++k) {
-- 
2.43.0


From 21a3354755f54bc447cc8c76b17c2856bc16aa67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 03/30] fix: require a descent direction in the dual
 infeasibility certificate

A direction along which the cost does not decrease is not a certificate: e.g.
pure feasibility problems (P = 0, q = 0) were reported dual infeasible. Rows
without bounds do not restrict the direction, but were treated as lower bounded.
---
 include/smooth/feedback/qp_solver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index d1b1152..acc540b 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -632,9 +632,11 @@ protected:
     Px_.noalias()        = pbm.P.template selfadjointView<Eigen::Upper>() * dx_us_;
 
     bool dual_infeasible =
-      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) <= prm_.eps_dual_inf * dx_norm);
+      (norm(Px_) <= prm_.eps_dual_inf * dx_norm) && (pbm.q.dot(dx_us_) < -prm_.eps_dual_inf * dx_norm);
     for (auto i = 0u; i != m && dual_infeasible; ++i) {
-      if (pbm.u(i) == inf) {
+      if (pbm.u(i) == inf && pbm.l(i) == -inf) {
+        continue;  // unconstrained
+      } else if (pbm.u(i) == inf) {
         dual_infeasible &= (Ax_(i) >= -prm_.eps_dual_inf * dx_norm);
       } else if (pbm.l(i) == -inf) {
         dual_infeasible &= (Ax_(i) <= prm_.eps_dual_inf * dx_norm);
-- 
2.43.0


From f61e3cd233adefb6abfd00562ad4cf0883b8e522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 04/30] fix: only accept polished QP solutions that are optimal

Polishing trusted the guess of the active set: with a wrong guess the solver
reported Optimal together with multipliers of the wrong sign or a point far from
the solution. Such solutions are now rejected, the unpolished solution is
returned, and PolishFailed is reported (it was overwritten before).
---
 include/smooth/feedback/qp_solver.hpp | 71 +++++++++++++++++++++------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index acc540b..105fd30 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -197,8 +197,17 @@ bool polish_qp(
   // UPDATE SOLUTION
 
   sol.primal = t_hat.template head<N>(n);
-  for (auto i = 0u; i < nl; ++i) { sol.dual(LU_idx(i)) = t_hat(n + i); }
-  for (auto i = 0u; i < nu; ++i) { sol.dual(LU_idx(nl + i)) = t_hat(n + nl + i); }
+  sol.dual.setZero();
+  for (auto i = 0u; i < nl + nu; ++i) {
+    const auto idx = LU_idx(i);
+    if (pbm.l(idx) == pbm.u(idx)) {
+      sol.dual(idx) = t_hat(n + i);
+    } else if (i < nl) {
+      sol.dual(idx) = std::min<Scalar>(0, t_hat(n + i));
+    } else {
+      sol.dual(idx) = std::max<Scalar>(0, t_hat(n + i));
+    }
+  }
 
   return true;
 }
@@ -515,13 +524,30 @@ public:
 
     // polish solution if optimal
     if (ret_code.has_value() && ret_code.value() == QPSolutionStatus::Optimal && prm_.polish) {
-      if (detail::polish_qp(pbm, sol_, prm_, c_, sx_, sy_)) {
-        if (prm_.verbose) {
-          // unscale solution
-          x_us_ = sx_.cwiseProduct(sol_.primal);
-          y_us_ = sy_.cwiseProduct(sol_.dual) / c_;
-          z_us_ = sy_.cwiseInverse().cwiseProduct(z_);
+      auto polished     = sol_;
+      bool polish_valid = detail::polish_qp(pbm, polished, prm_, c_, sx_, sy_);
+
+      if (polish_valid) {
+        // the guessed active set may be wrong, so only accept a polished solution that is optimal
+        x_us_           = sx_.cwiseProduct(polished.primal);
+        y_us_           = sy_.cwiseProduct(polished.dual) / c_;
+        z_us_.noalias() = pbm.A * x_us_;
+        for (auto i = 0u; i != m; ++i) {
+          if (y_us_(i) < 0) {
+            z_us_(i) = pbm.l(i);
+          } else if (y_us_(i) > 0) {
+            z_us_(i) = pbm.u(i);
+          } else {
+            z_us_(i) = std::min<Scalar>(std::max<Scalar>(z_us_(i), pbm.l(i)), pbm.u(i));
+          }
+        }
+        polish_valid = check_optimality(pbm);
+      }
+
+      if (polish_valid) {
+        sol_ = polished;
 
+        if (prm_.verbose) {
           Px_.noalias() = pbm.P.template selfadjointView<Eigen::Upper>() * x_us_;
 
           using std::cout, std::setw, std::right, std::chrono::microseconds;
@@ -538,7 +564,7 @@ public:
 
       } else {
         if (prm_.verbose) { std::cout << "Polish failed" << '\n'; }
-        sol_.code = QPSolutionStatus::PolishFailed;
+        ret_code = QPSolutionStatus::PolishFailed;
       }
     }
 
@@ -574,17 +600,13 @@ public:
 
 protected:
   /**
-   * @brief Check stopping criteria for solver.
+   * @brief Check if x_us_, y_us_, z_us_ satisfies optimality conditions.
    */
-  std::optional<QPSolutionStatus> check_stopping(const Pbm & pbm)
+  bool check_optimality(const Pbm & pbm)
   {
-    const Eigen::Index m = pbm.A.rows();
-
     // norm function
     static const auto norm = [](auto && t) -> Scalar { return t.template lpNorm<Eigen::Infinity>(); };
 
-    // OPTIMALITY
-
     // check primal
     Ax_.noalias()        = pbm.A * x_us_;
     const Scalar Ax_norm = norm(Ax_);
@@ -595,9 +617,26 @@ protected:
       Aty_.noalias()          = pbm.A.transpose() * y_us_;
       const Scalar dual_scale = std::max<Scalar>({norm(Px_), norm(pbm.q), norm(Aty_)});
       Px_ += pbm.q + Aty_;
-      if (norm(Px_) <= prm_.eps_abs + prm_.eps_rel * dual_scale) { return QPSolutionStatus::Optimal; }
+      if (norm(Px_) <= prm_.eps_abs + prm_.eps_rel * dual_scale) { return true; }
     }
 
+    return false;
+  }
+
+  /**
+   * @brief Check stopping criteria for solver.
+   */
+  std::optional<QPSolutionStatus> check_stopping(const Pbm & pbm)
+  {
+    const Eigen::Index m = pbm.A.rows();
+
+    // norm function
+    static const auto norm = [](auto && t) -> Scalar { return t.template lpNorm<Eigen::Infinity>(); };
+
+    // OPTIMALITY
+
+    if (check_optimality(pbm)) { return QPSolutionStatus::Optimal; }
+
     // PRIMAL INFEASIBILITY
 
     Aty_.noalias()        = pbm.A.transpose() * dy_us_;  // NOTE new value A' * dy
-- 
2.43.0


From d74616030ec513d8c1e2df596c838663526c4e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:20 +0000
Subject: [PATCH 05/30] fix: check QP termination also when stop_check_iter is
 1

iter % 1 is never 1, so the solver did not stop.
---
 include/smooth/feedback/qp_solver.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 105fd30..e3fc21a 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -471,7 +471,7 @@ public:
         ldlt_.ldlt.solveInPlace(p_);
       }
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // termination checking requires difference, store old scaled values
         dx_us_ = sol_.primal, dy_us_ = sol_.dual;
       }
@@ -485,7 +485,7 @@ public:
                 - rho_.cwiseProduct(z_next_);
       std::swap(z_, z_next_);
 
-      if (iter % prm_.stop_check_iter == 1) {
+      if (iter % prm_.stop_check_iter == 1 % prm_.stop_check_iter) {
         // unscale solution
         x_us_  = sx_.cwiseProduct(sol_.primal);
         y_us_  = sy_.cwiseProduct(sol_.dual) / c_;
-- 
2.43.0


From 0e8f64bea9157372a31ab1a1f47d6a7a8b34a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:06 +0000
Subject: [PATCH 06/30] fix: require a strictly separating primal infeasibility
 certificate

A dual direction with A'dy = 0 and u'dy+ + l'dy- = 0 certifies nothing: feasible
problems whose feasible set has no interior (e.g. 0 <= x <= 0 split over two
rows) were reported primal infeasible.
---
 include/smooth/feedback/qp_solver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index e3fc21a..67525f9 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -660,7 +660,7 @@ protected:
       }
     }
 
-    if (std::max<Scalar>(norm(Aty_), u_dyp_plus_l_dyn) < prm_.eps_primal_inf * Edy_norm) {
+    if (norm(Aty_) < prm_.eps_primal_inf * Edy_norm && u_dyp_plus_l_dyn < -prm_.eps_primal_inf * Edy_norm) {
       return QPSolutionStatus::PrimalInfeasible;
     }
 
-- 
2.43.0


From 81354cf0f07069c8edb458724c3fb2f0d0070a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:41 +0000
Subject: [PATCH 07/30] fix: allow the solver's own solution as warm start

---
 include/smooth/feedback/qp_solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 67525f9..4ed0071 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -444,9 +444,10 @@ public:
     // initialize solver variables
     if (warmstart.has_value()) {
       // warmstart variables must be scaled
+      // NOTE z_ first since the warmstart may be sol_ itself
+      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
       sol_.primal  = sx_.cwiseInverse().cwiseProduct(warmstart.value().get().primal);
       sol_.dual    = c_ * sy_.cwiseInverse().cwiseProduct(warmstart.value().get().dual);
-      z_.noalias() = sy_.asDiagonal() * pbm.A * warmstart.value().get().primal;
     } else {
       sol_.primal.setZero();
       sol_.dual.setZero();
-- 
2.43.0


From 033a9b9b446beb1e7100f489229bba4714150bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:29 +0000
Subject: [PATCH 08/30] fix: redo the symbolic factorization when a QP solver
 is re-analyzed

---
 include/smooth/feedback/qp_solver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/qp_solver.hpp b/include/smooth/feedback/qp_solver.hpp
index 4ed0071..a101591 100644
--- a/include/smooth/feedback/qp_solver.hpp
+++ b/include/smooth/feedback/qp_solver.hpp
@@ -335,6 +335,9 @@ public:
     Aty_.resize(n);
     Ax_.resize(m);
 
+    // the sparsity pattern of H may change
+    ldlt_.first = true;
+
     // preallocate nonzeros in H
     H_.setZero();
     H_.resize(k, k);
-- 
2.43.0


From 710fbb22790af3e79882e0b25399db5d34510b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 09/30] fix: set_zero on a block of inner vectors zeroes that
 block

---
 include/smooth/feedback/utils/sparse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/smooth/feedback/utils/sparse.hpp b/include/smooth/feedback/utils/sparse.hpp
index 11718e2..c1afa2d 100644
--- a/include/smooth/feedback/utils/sparse.hpp
+++ b/include/smooth/feedback/utils/sparse.hpp
@@ -7,6 +7,7 @@
  * @brief Sparse matrix utilities.
  */
 
+#include <algorithm>
 #include <numeric>
 #include <optional>
 
@@ -140,7 +141,9 @@ template<typename SparseMat>
 inline void set_zero(SparseMat && mat)
 {
   if (mat.isCompressed()) {
-    mat.coeffs().setZero();
+    // NOTE: for a block of whole inner vectors valuePtr() is that of the underlying matrix
+    const auto start = mat.outerIndexPtr() ? mat.outerIndexPtr()[0] : 0;
+    std::fill_n(mat.valuePtr() + start, mat.nonZeros(), typename std::decay_t<SparseMat>::Scalar(0));
   } else {
     for (auto i = 0; i < mat.outerSize(); ++i) {
       for (typename std::decay_t<decltype(mat)>::InnerIterator it(mat, i); it; ++it) { it.valueRef() = 0; }
-- 
2.43.0


From 95c3d4fd87a390e127b52dd74f2f8a368606c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 10/30] fix: allow NLPs without second-order information with
 Ipopt

---
 include/smooth/feedback/compat/ipopt.hpp | 49 +++++++++++++-----------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index 7501e11..e2c0570 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -196,35 +196,38 @@ public:
     Ipopt::Index * jCol,
     Ipopt::Number * values) override
   {
-    assert(use_hessian_);
-    assert(HessianNLP<Problem>);
-    assert(H_.isCompressed());
-    assert(H_.nonZeros() == nele_hess);
+    if constexpr (HessianNLP<Problem>) {
+      assert(use_hessian_);
+      assert(H_.isCompressed());
+      assert(H_.nonZeros() == nele_hess);
+
+      H_.coeffs().setZero();
+
+      if (values == NULL) {
+        for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
+          for (Eigen::InnerIterator it(H_, od); it; ++it) {
+            // transpose: H upper triangular but ipopt expects lower-triangular
+            iRow[cntr]   = it.col();
+            jCol[cntr++] = it.row();
+          }
+        }
+      } else {
+        Eigen::Map<const Eigen::VectorXd> xvar(x, n);
+        Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
 
-    H_.coeffs().setZero();
+        H_ += nlp_.d2f_dx2(xvar);
+        H_ *= sigma;
+        H_ += nlp_.d2g_dx2(xvar, lvar);
 
-    if (values == NULL) {
-      for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
-        for (Eigen::InnerIterator it(H_, od); it; ++it) {
-          // transpose: H upper triangular but ipopt expects lower-triangular
-          iRow[cntr]   = it.col();
-          jCol[cntr++] = it.row();
+        for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
+          for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
         }
       }
-    } else {
-      Eigen::Map<const Eigen::VectorXd> xvar(x, n);
-      Eigen::Map<const Eigen::VectorXd> lvar(lambda, m);
-
-      H_ += nlp_.d2f_dx2(xvar);
-      H_ *= sigma;
-      H_ += nlp_.d2g_dx2(xvar, lvar);
 
-      for (auto cntr = 0u, od = 0u; od < H_.outerSize(); ++od) {
-        for (Eigen::InnerIterator it(H_, od); it; ++it) { values[cntr++] = it.value(); }
-      }
+      return true;
+    } else {
+      return false;
     }
-
-    return true;
   }
 
   /**
-- 
2.43.0


From 738f2d8711d8c73c3522d9c865c5013fa4952c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 11/30] fix: let Ipopt approximate the hessian unless exact is
 requested

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index e2c0570..cc4e8cd 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -329,6 +329,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // Ipopt must approximate the hessian unless it is provided
+  if (!use_hessian) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
+
   // override with user-provided options
   for (auto [opt, val] : opts_integer) { app->Options()->SetIntegerValue(opt, val); }
   for (auto [opt, val] : opts_string) { app->Options()->SetStringValue(opt, val); }
-- 
2.43.0


From ee1a66b0caf67f204b6d534018b16df5ddda8948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 12/30] fix: do not report the status of the warm start for
 NLPs that Ipopt rejects

---
 include/smooth/feedback/compat/ipopt.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/compat/ipopt.hpp b/include/smooth/feedback/compat/ipopt.hpp
index cc4e8cd..458063c 100644
--- a/include/smooth/feedback/compat/ipopt.hpp
+++ b/include/smooth/feedback/compat/ipopt.hpp
@@ -329,6 +329,9 @@ inline NLPSolution solve_nlp_ipopt(
     ipopt_nlp->sol().x.setZero(n);
   }
 
+  // not solved unless Ipopt says so
+  ipopt_nlp->sol().status = NLPSolution::Status::Unknown;
+
   // Ipopt must approximate the hessian unless it is provided
   if (!use_hessian) { app->Options()->SetStringValue("hessian_approximation", "limited-memory"); }
 
-- 
2.43.0


From 2284c9f38b6243db59900a7fcc779e985a2f478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 13/30] fix: remove an unmatched #endif from the OSQP interface

---
 include/smooth/feedback/compat/osqp.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index 596b0e5..cfeab61 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -149,5 +149,3 @@ QPSolution<-1, -1, double> solve_qp_osqp(
 }
 
 }  // namespace smooth::feedback
-
-#endif  // SMOOTH__FEEDBACK__COMPAT__OSQP_HPP_
-- 
2.43.0


From c2eb4f9a8fffd41150b30fb167c653bb9d3026ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 14/30] fix: do not use the OSQP workspace if its setup fails

---
 include/smooth/feedback/compat/osqp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index cfeab61..c9c64eb 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -89,14 +89,14 @@ QPSolution<-1, -1, double> solve_qp_osqp(
   data->l         = const_cast<double *>(pbm.l.data());
   data->u         = const_cast<double *>(pbm.u.data());
 
-  OSQPWorkspace * work;
+  OSQPWorkspace * work = nullptr;
 
   QPSolution<-1, -1, double> ret;
   ret.code = QPSolutionStatus::Unknown;
 
   c_int error = osqp_setup(&work, data, settings);
 
-  if (warmstart) {
+  if (!error && warmstart) {
     osqp_warm_start(work, warmstart.value().get().primal.data(), warmstart.value().get().dual.data());
     settings->warm_start = 1;
   } else {
-- 
2.43.0


From 18375d9e8db1f9c9d5fe56fe32d4b371168ae091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 15/30] fix: do not ignore errors of osqp_solve

---
 include/smooth/feedback/compat/osqp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/compat/osqp.hpp b/include/smooth/feedback/compat/osqp.hpp
index c9c64eb..fffd2de 100644
--- a/include/smooth/feedback/compat/osqp.hpp
+++ b/include/smooth/feedback/compat/osqp.hpp
@@ -103,7 +103,7 @@ QPSolution<-1, -1, double> solve_qp_osqp(
     settings->warm_start = 0;
   }
 
-  if (!error) { error &= osqp_solve(work); }
+  if (!error) { error = osqp_solve(work); }
 
   if (!error) {
     switch (work->info->status_val) {
-- 
2.43.0


From b025497237d5692b417a8b805041a14797321512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:08 +0000
Subject: [PATCH 16/30] fix: EKF update with a one-dimensional state and
 several measurements

The product of a column vector and a selfadjoint view is treated as a
vector product by Eigen, which left entries of the innovation covariance
at the measurement noise.
---
 include/smooth/feedback/ekf.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/smooth/feedback/ekf.hpp b/include/smooth/feedback/ekf.hpp
index bd33847..5784d5d 100644
--- a/include/smooth/feedback/ekf.hpp
+++ b/include/smooth/feedback/ekf.hpp
@@ -126,8 +126,10 @@ public:
 
     static_assert(Ny > 0, "h(x) must be statically sized");
 
-    const Eigen::Matrix<Scalar<G>, Ny, Ny> S =
-      (H * P_.template selfadjointView<Eigen::Upper>() * H.transpose() + R).template triangularView<Eigen::Upper>();
+    // dense copy: Eigen mistreats products of (column) vectors and selfadjoint views when Dof<G> == 1
+    const CovT P = P_.template selfadjointView<Eigen::Upper>();
+
+    const Eigen::Matrix<Scalar<G>, Ny, Ny> S = (H * P * H.transpose() + R).template triangularView<Eigen::Upper>();
 
     // solve for Kalman gain
     const Eigen::Matrix<Scalar<G>, Dof<G>, Ny> K =
-- 
2.43.0


From ab6383eb48c9bdc224bbee82ffc9080c557c1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 17/30] fix: place ASIF barrier constraints at the grid times

The step size was only limited to the remaining time once per grid
interval, so the integration overshot the grid point whenever dt did not
divide the interval exactly (or by rounding).
---
 include/smooth/feedback/asif_func.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/asif_func.hpp b/include/smooth/feedback/asif_func.hpp
index 9362474..74c9cbf 100644
--- a/include/smooth/feedback/asif_func.hpp
+++ b/include/smooth/feedback/asif_func.hpp
@@ -171,8 +171,8 @@ void asif_to_qp_update(
     qp.u.template segment<nh>(k * nh).setConstant(std::numeric_limits<double>::infinity());
 
     // integrate system and sensitivity forward until next constraint
-    double dt_act = std::min(dt, tau * (k + 1) - t);
     while (t < tau * (k + 1)) {
+      const double dt_act = std::min(dt, tau * (k + 1) - t);
       state_stepper.do_step(x_ode, x, t, dt_act);
       sensi_stepper.do_step(dx_dx0_ode, dx_dx0, t, dt_act);
       t += dt_act;
-- 
2.43.0


From 6426ff8f8cafe2ab869b0cb60fe263b6738cd457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 18/30] fix: derivatives from Mesh::eval are with respect to t

---
 include/smooth/feedback/collocation/mesh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index f8c9f09..a4db3e4 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -467,6 +467,9 @@ public:
       }
     });
 
+    // chain rule from local interval [-1, 1] to [tau0, tauf]
+    for (auto i = 0u; i < p; ++i) { ret *= 2 / (tauf - tau0); }
+
     return ret;
   }
 
-- 
2.43.0


From 2038ef65cc77167ed65cd05d66df598b167ab07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 19/30] fix: refine_ph gives all intervals of a split degree
 Kmin

---
 include/smooth/feedback/collocation/mesh.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index a4db3e4..31c636a 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -153,6 +153,7 @@ public:
       const double tauf = i + 1 < intervals_.size() ? intervals_[i + 1].tau0 : 1.;
       const double taum = (tauf - tau0) / static_cast<double>(n);
 
+      intervals_[i].K = Kmin;
       while (n-- > 1) {
         intervals_.insert(
           std::next(intervals_.begin(), static_cast<intptr_t>(i + 1)),
-- 
2.43.0


From 9f5e145c8f2fb39f5b9f772fc4099fe8bc12fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 20/30] fix: refine_errors for intervals of degree one

---
 include/smooth/feedback/collocation/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/collocation/mesh.hpp b/include/smooth/feedback/collocation/mesh.hpp
index 31c636a..6541c88 100644
--- a/include/smooth/feedback/collocation/mesh.hpp
+++ b/include/smooth/feedback/collocation/mesh.hpp
@@ -183,7 +183,7 @@ public:
       const auto Ki = N_colloc_ival(i);
 
       if (e > target_err) {
-        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(Ki) + 1);
+        const auto Ktarget = Ki + std::lround(std::log(e / target_err) / std::log(std::max<double>(2, Ki)) + 1);
         refine_ph(i, Ktarget);
       }
     }
-- 
2.43.0


From 57a994087eb8beb80f7469c73116b863bac4f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 21/30] fix: mixed second derivatives with respect to end
 states and integrals in the NLP of an OCP

---
 include/smooth/feedback/ocp_to_nlp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_nlp.hpp b/include/smooth/feedback/ocp_to_nlp.hpp
index ab4c4d8..717fdb0 100644
--- a/include/smooth/feedback/ocp_to_nlp.hpp
+++ b/include/smooth/feedback/ocp_to_nlp.hpp
@@ -236,10 +236,10 @@ public:
 
     block_add(d2f_dx2_, x0var_B, x0var_B, d2fval.block(         1,          1, Nx, Nx), 1, true);  // x0x0
     block_add(d2f_dx2_, x0var_B, xfvar_B, d2fval.block(         1,     1 + Nx, Nx, Nx), 1, true);  // x0xf
-    block_add(d2f_dx2_, x0var_B,  qvar_B, d2fval.block(         1, 1 + 2 * Nx, Nx, Nq), 1, true);  // x0q
+    block_add(d2f_dx2_,  qvar_B, x0var_B, d2fval.block(1 + 2 * Nx,          1, Nq, Nx), 1, true);  // qx0
 
     block_add(d2f_dx2_, xfvar_B, xfvar_B, d2fval.block(    1 + Nx,     1 + Nx, Nx, Nx), 1, true);  // xfxf
-    block_add(d2f_dx2_, xfvar_B,  qvar_B, d2fval.block(    1 + Nx, 1 + 2 * Nx, Nx, Nq), 1, true);  // xfq
+    block_add(d2f_dx2_,  qvar_B, xfvar_B, d2fval.block(1 + 2 * Nx,     1 + Nx, Nq, Nx), 1, true);  // qxf
 
     block_add(d2f_dx2_,  qvar_B,  qvar_B, d2fval.block(1 + 2 * Nx, 1 + 2 * Nx, Nq, Nq), 1, true);  // qq
     // clang-format on
@@ -402,10 +402,10 @@ public:
 
       block_add(d2g_dx2_, x0var_B, x0var_B, d2ceval.block(         1, b0 +          1, Nx, Nx), lambda(cecon_B + j), true);  // x0x0
       block_add(d2g_dx2_, x0var_B, xfvar_B, d2ceval.block(         1, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // x0xf
-      block_add(d2g_dx2_, x0var_B,  qvar_B, d2ceval.block(         1, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // x0q
+      block_add(d2g_dx2_,  qvar_B, x0var_B, d2ceval.block(1 + 2 * Nx, b0 +          1, Nq, Nx), lambda(cecon_B + j), true);  // qx0
 
       block_add(d2g_dx2_, xfvar_B, xfvar_B, d2ceval.block(    1 + Nx, b0 +     1 + Nx, Nx, Nx), lambda(cecon_B + j), true);  // xfxf
-      block_add(d2g_dx2_, xfvar_B,  qvar_B, d2ceval.block(    1 + Nx, b0 + 1 + 2 * Nx, Nx, Nq), lambda(cecon_B + j), true);  // xfq
+      block_add(d2g_dx2_,  qvar_B, xfvar_B, d2ceval.block(1 + 2 * Nx, b0 +     1 + Nx, Nq, Nx), lambda(cecon_B + j), true);  // qxf
 
       block_add(d2g_dx2_,  qvar_B,  qvar_B, d2ceval.block(1 + 2 * Nx, b0 + 1 + 2 * Nx, Nq, Nq), lambda(cecon_B + j), true);  // qq
       // clang-format on
-- 
2.43.0


From cd947ed53e26b779b3f9b416f37d1132c5098e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 22/30] fix: weight of the end cost in the QP of an OCP

The objective of the QP is (1/2) x' P x + q' x, so P holds the whole second
derivative, as it does for the integral cost.
---
 include/smooth/feedback/ocp_to_qp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index 0e8b223..a0bd66d 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -186,9 +186,9 @@ void ocp_to_qp_update_cost(
   //// ENDPOINT COST ////
   ///////////////////////
 
-  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 0.5, true);                      // d2q / dx0x0
-  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 0.5, true);            // d2q / dx0xf
-  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 0.5, true);  // d2q / dxfxf
+  block_add(qp.P, 0, 0, d2th.block(1, 1, Nx, Nx), 1, true);                      // d2q / dx0x0
+  block_add(qp.P, 0, Nx * N, d2th.block(1, 1 + Nx, Nx, Nx), 1, true);            // d2q / dx0xf
+  block_add(qp.P, Nx * N, Nx * N, d2th.block(1 + Nx, 1 + Nx, Nx, Nx), 1, true);  // d2q / dxfxf
 
   qp.q.segment(0, Nx) += qo_x0;       // dq / dx0
   qp.q.segment(Nx * N, Nx) += qo_xf;  // dq / dxf
-- 
2.43.0


From 00875a68a76baf99ac342c9b8a245f123c6a30b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:27 +0000
Subject: [PATCH 23/30] fix: type of the solution returned by qpsol_to_ocpsol

---
 include/smooth/feedback/ocp_to_qp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index a0bd66d..d2c4cd0 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -490,7 +490,7 @@ auto qpsol_to_ocpsol(
     return rplus(ul_fun(t), tngnt);
   };
 
-  return OCPSolution<X, U, Nq, Nce, Ncr>{
+  return OCPSolution<X, U, Nq, Ncr, Nce>{
     .t0 = 0.,
     .tf = tf,
     .u  = std::move(ufun),
-- 
2.43.0


From d6273c97f5e60790f7c3d846208bd095738d5301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 24/30] fix: leftover constraint coefficients when a QP is
 transcribed again

Sparse jacobians whose pattern changes left values of an earlier call in the
rows of the running and end constraints.
---
 include/smooth/feedback/ocp_to_qp.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/smooth/feedback/ocp_to_qp.hpp b/include/smooth/feedback/ocp_to_qp.hpp
index d2c4cd0..5a2127b 100644
--- a/include/smooth/feedback/ocp_to_qp.hpp
+++ b/include/smooth/feedback/ocp_to_qp.hpp
@@ -304,6 +304,12 @@ void ocp_to_qp_update_cr(
   const auto crcon_L = ocp_t::Ncr * N;
   const auto crcon_B = dcon_L;
 
+  ////////////////////////
+  //// ZERO VARIABLES ////
+  ////////////////////////
+
+  set_zero(qp.A.middleRows(crcon_B, crcon_L));
+
   //////////////////////////////
   //// LINEARIZATION POINTS ////
   //////////////////////////////
@@ -351,6 +357,12 @@ void ocp_to_qp_update_ce(
   const auto crcon_B = dcon_L;
   const auto cecon_B = crcon_B + crcon_L;
 
+  ////////////////////////
+  //// ZERO VARIABLES ////
+  ////////////////////////
+
+  set_zero(qp.A.middleRows(cecon_B, cecon_L));
+
   //////////////////////////////
   //// LINEARIZATION POINTS ////
   //////////////////////////////
-- 
2.43.0


From ca0f5b5394e996c5584fe383b63667a2a8a633e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 25/30] fix: MPC construction with numerical differentiation

DT applies to the dynamics and running constraints supplied by the user; the
objective is only valid at the linearization point and asserts that.
---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 1a9a19b..f51e2ae 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -419,7 +419,7 @@ public:
         },
         prm_{std::move(prm)}, qp_solver_{prm_.qp}
   {
-    detail::ocp_to_qp_allocate<DT>(qp_, work_, ocp_, mesh_);
+    detail::ocp_to_qp_allocate<diff::Type::Analytic>(qp_, work_, ocp_, mesh_);
     ocp_to_qp_update<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_solver_.analyze(qp_);
   }
-- 
2.43.0


From ee911aa1a2ce92cd9604acd42bedfed3e9923938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 26/30] fix: MPC input weight was masked by the sparsity of the
 state weight

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index f51e2ae..8c7c973 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -218,7 +218,7 @@ struct MPCIntegrand
     }
     for (auto i = 0u; i < Nu; ++i) {
       for (auto j = 0u; j < Nu; ++j) {
-        if (Q(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
+        if (R(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = R(i, j); }
       }
     }
 
-- 
2.43.0


From aab064ca26590623f31401577438f3449c1a3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 27/30] fix: MPC final state weight was applied to the initial
 state

---
 include/smooth/feedback/mpc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 8c7c973..45e768d 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -109,7 +109,7 @@ struct MPCObj
 
     for (auto i = 0u; i < Nx; ++i) {
       for (auto j = 0u; j < Nx; ++j) {
-        if (Qtf(i, j) != 0) { hess.coeffRef(1 + i, 1 + j) = Qtf(i, j); }
+        if (Qtf(i, j) != 0) { hess.coeffRef(1 + Nx + i, 1 + Nx + j) = Qtf(i, j); }
       }
     }
 
-- 
2.43.0


From c2c1c1ffa1dd5fba290dcef2e062acdf8da8ed9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 28/30] fix: MPC::set_weights had no effect

The cost was only transcribed at construction.
---
 include/smooth/feedback/mpc.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 45e768d..4ad409c 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -595,6 +595,12 @@ public:
     ocp_.g.R       = weights.R;
     ocp_.g.Q       = weights.Q;
     ocp_.theta.Qtf = weights.Qtf;
+
+    // the cost is not transcribed in operator()
+    ocp_.theta.xf_des = (*xdes_)(prm_.tf);
+    detail::ocp_to_qp_update_cost<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
+    qp_.P.makeCompressed();
+    qp_solver_.analyze(qp_);
   }
 
   /**
-- 
2.43.0


From 149869249ec6f39cee5fb19284a9689d3f7604ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 29/30] fix: MPC running constraints follow the desired
 trajectory

They are linearized around it, so also time-independent constraints change
when it does.
---
 include/smooth/feedback/mpc.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index 4ad409c..e8ad78b 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -479,10 +479,7 @@ public:
 
     // transcribe to QP
     ocp_to_qp_update_dyn<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    if constexpr (requires(CR & crvar, T tvar) { crvar.set_time(tvar); }) {
-      // only update if running constraints are time-dependent
-      ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
-    }
+    ocp_to_qp_update_cr<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     ocp_to_qp_update_ce<diff::Type::Analytic>(qp_, work_, ocp_, mesh_, prm_.tf, *xdes_, *udes_);
     qp_.A.makeCompressed();
     qp_.P.makeCompressed();
-- 
2.43.0


From 0b56631027197525e812eabe0baf97899a6312a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 30/30] fix: copies of an MPC shared their desired trajectories

---
 include/smooth/feedback/mpc.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/smooth/feedback/mpc.hpp b/include/smooth/feedback/mpc.hpp
index e8ad78b..a930d05 100644
--- a/include/smooth/feedback/mpc.hpp
+++ b/include/smooth/feedback/mpc.hpp
@@ -434,12 +434,19 @@ public:
   {}
   /// @brief Default constructor
   inline MPC() = default;
-  /// @brief Default copy constructor
-  inline MPC(const MPC &) = default;
+  /// @brief Copy constructor (the copy has its own desired trajectories)
+  inline MPC(const MPC & o)
+      : xdes_{o.xdes_ ? std::make_shared<detail::XDes<T, X>>(*o.xdes_) : nullptr},
+        udes_{o.udes_ ? std::make_shared<detail::UDes<T, U>>(*o.udes_) : nullptr}, mesh_{o.mesh_}, ocp_{o.ocp_},
+        prm_{o.prm_}, work_{o.work_}, qp_{o.qp_}, qp_solver_{o.qp_solver_}, warmstart_{o.warmstart_}
+  {
+    ocp_.g.xdes = xdes_;
+    ocp_.g.udes = udes_;
+  }
   /// @brief Default move constructor
   inline MPC(MPC &&) = default;
-  /// @brief Default copy assignment
-  inline MPC & operator=(const MPC &) = default;
+  /// @brief Copy assignment
+  inline MPC & operator=(const MPC & o) { return *this = MPC(o); }
   /// @brief Default move assignment
   inline MPC & operator=(MPC &&) = default;
   /// @brief Default destructor
-- 
2.43.0


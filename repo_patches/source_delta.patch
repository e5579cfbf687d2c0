From a2e2b6e93fbc9fa71a793a34a85cd0cfdf2b55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:57 +0000
Subject: [PATCH 01/26] fix: HyperbolicModule: do not overwrite limiter bounds
 while they are being combined over the stencil (dG)

---
 source/hyperbolic_module.h          |  1 +
 source/hyperbolic_module.template.h | 15 ++++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/source/hyperbolic_module.h b/source/hyperbolic_module.h
index f8acc70..ea13c84 100644
--- a/source/hyperbolic_module.h
+++ b/source/hyperbolic_module.h
@@ -322,6 +322,7 @@ namespace ryujin
     static constexpr auto n_bounds =
         Description::template Limiter<dim, Number>::n_bounds;
     mutable Vectors::MultiComponentVector<Number, n_bounds> bounds_;
+    mutable Vectors::MultiComponentVector<Number, n_bounds> extended_bounds_;
 
     using HyperbolicVector =
         Vectors::MultiComponentVector<Number, problem_dimension>;
diff --git a/source/hyperbolic_module.template.h b/source/hyperbolic_module.template.h
index a485e03..232a233 100644
--- a/source/hyperbolic_module.template.h
+++ b/source/hyperbolic_module.template.h
@@ -66,6 +66,8 @@ namespace ryujin
     const auto &scalar_partitioner = offline_data_->scalar_partitioner();
     alpha_.reinit(scalar_partitioner);
     bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
+    if (offline_data_->discretization().have_discontinuous_ansatz())
+      extended_bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
 
     r_.reinit(offline_data_->hyperbolic_vector_partitioner());
     using View =
@@ -933,7 +935,9 @@ namespace ryujin
           /*
            * In case of a discontinuous finite element ansatz we need to
            * extend bounds over the stencil. We do this by looping over the
-           * stencil once and taking the minimum/maximum:
+           * stencil once and taking the minimum/maximum. The result is
+           * stored in a separate vector because the bounds of index i are
+           * still needed unmodified for all other indices of the stencil:
            */
           if constexpr (have_discontinuous_ansatz) {
             /* Skip diagonal. */
@@ -944,7 +948,7 @@ namespace ryujin
                   bounds,
                   bounds_.template get_tensor<T, std::array<T, n_bounds>>(js));
             }
-            bounds_.template write_tensor<T>(bounds, i);
+            extended_bounds_.template write_tensor<T>(bounds, i);
           }
 
           [[maybe_unused]] T m_i;
@@ -1050,6 +1054,11 @@ namespace ryujin
      * -------------------------------------------------------------------------
      */
 
+    const auto &limiter_bounds =
+        offline_data_->discretization().have_discontinuous_ansatz()
+            ? extended_bounds_
+            : bounds_;
+
     const auto n_iterations = limiter_parameters_.iterations();
     for (unsigned int pass = 0; pass < n_iterations; ++pass) {
       bool last_round = (pass + 1 == n_iterations);
@@ -1132,7 +1141,7 @@ namespace ryujin
             continue;
 
           const auto bounds =
-              bounds_.template get_tensor<T, std::array<T, n_bounds>>(i);
+              limiter_bounds.template get_tensor<T, std::array<T, n_bounds>>(i);
           /* Skip diagonal. */
           for (unsigned int col_idx = 1; col_idx < row_length; ++col_idx) {
 
-- 
2.43.0


From f8a2c6ae8fbcaf9917dcd8d850662bfa70bc4a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 02/26] fix: ScalarConservation: keep wavespeed estimate above
 round off level

---
 .../riemann_solver.template.h                    | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/scalar_conservation/riemann_solver.template.h b/source/scalar_conservation/riemann_solver.template.h
index 087bb96..0e6c424 100644
--- a/source/scalar_conservation/riemann_solver.template.h
+++ b/source/scalar_conservation/riemann_solver.template.h
@@ -62,6 +62,20 @@ namespace ryujin
        */
 
       auto lambda_max = std::abs(f_i - f_j) / std::max(std::abs(u_i - u_j), h2);
+
+      /*
+       * If the flux is (almost) orthogonal to n_ij then f_i, f_j, df_i, and
+       * df_j consist of nothing but rounding errors and the wavespeed
+       * estimates below are meaningless. In order to nevertheless guarantee
+       * that bar states 1/2 (u_i + u_j) - 1/2 / lambda_max (f_j - f_i) stay
+       * within the convex hull of u_i and u_j we have to make sure that
+       * lambda_max stays above round off level.
+       */
+      constexpr ScalarNumber eps = std::numeric_limits<ScalarNumber>::epsilon();
+      const auto lambda_roundoff = ScalarNumber(10.) * eps *
+                                   (view.construct_flux_tensor(prec_i).norm() +
+                                    view.construct_flux_tensor(prec_j).norm()) /
+                                   std::max(std::abs(u_i - u_j), h2);
 #ifdef DEBUG_RIEMANN_SOLVER
       std::cout << "   Roe average       = " << lambda_max << std::endl;
 #endif
@@ -185,6 +199,8 @@ namespace ryujin
         enforce_entropy(k);
       }
 
+      lambda_max = std::max(lambda_max, lambda_roundoff);
+
 #ifdef DEBUG_RIEMANN_SOLVER
       std::cout << "-> lambda_max        = " << lambda_max << std::endl;
 #endif
-- 
2.43.0


From bf6277ff618861521275ed4caa31127a8e861aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 03/26] fix: ScalarConservation: random number generator state
 is shared between threads

---
 source/scalar_conservation/riemann_solver.template.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/scalar_conservation/riemann_solver.template.h b/source/scalar_conservation/riemann_solver.template.h
index 0e6c424..cc78cd1 100644
--- a/source/scalar_conservation/riemann_solver.template.h
+++ b/source/scalar_conservation/riemann_solver.template.h
@@ -120,9 +120,11 @@ namespace ryujin
        */
 
       thread_local static const auto draw = []() {
-        static std::random_device random_device;
-        static auto generator = std::default_random_engine(random_device());
-        static std::uniform_real_distribution<ScalarNumber> dist(0., 1.);
+        thread_local static std::random_device random_device;
+        thread_local static auto generator =
+            std::default_random_engine(random_device());
+        thread_local static std::uniform_real_distribution<ScalarNumber> dist(
+            0., 1.);
 
         if constexpr (std::is_same_v<ScalarNumber, Number>) {
           /*
-- 
2.43.0


From 9590f24f5a4201dcc8a3c80541ac60d6d7ad66ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:36 +0000
Subject: [PATCH 04/26] fix: OfflineData: exchange boundary status of ghost
 indices for coupling boundary pairs

In 3D with hanging nodes the stencil of a locally owned index reaches beyond
the ghost layer. The boundary pairs of such indices were missed and d_ij was
not symmetric over MPI ranks.
---
 source/offline_data.template.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/offline_data.template.h b/source/offline_data.template.h
index 72d5cbc..59d3faa 100644
--- a/source/offline_data.template.h
+++ b/source/offline_data.template.h
@@ -1427,6 +1427,21 @@ namespace ryujin
       }   /* f */
     }     /* cell */
 
+    /*
+     * In the presence of hanging nodes the stencil of a locally owned index
+     * might extend to ghost indices whose boundary faces are not part of the
+     * ghost layer. Thus, import the information from the owning rank:
+     */
+
+    ScalarVector on_boundary(scalar_partitioner_);
+    for (const auto i : locally_relevant_boundary_indices)
+      if (i < n_locally_owned_)
+        on_boundary.local_element(i) = Number(1.);
+    on_boundary.update_ghost_values();
+    for (unsigned int i = n_locally_owned_; i < n_locally_relevant_; ++i)
+      if (on_boundary.local_element(i) != Number(0.))
+        locally_relevant_boundary_indices.insert(i);
+
     /*
      * Now, collect all coupling boundary pairs:
      */
-- 
2.43.0


From 580d946bc85270e6d2eedd4e5aa4214ebb6a2505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 05/26] fix: ScalarConservation: keep wavespeed estimate above
 the Roe average including its round off error

---
 source/scalar_conservation/riemann_solver.template.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/scalar_conservation/riemann_solver.template.h b/source/scalar_conservation/riemann_solver.template.h
index cc78cd1..4fbc809 100644
--- a/source/scalar_conservation/riemann_solver.template.h
+++ b/source/scalar_conservation/riemann_solver.template.h
@@ -69,10 +69,12 @@ namespace ryujin
        * estimates below are meaningless. In order to nevertheless guarantee
        * that bar states 1/2 (u_i + u_j) - 1/2 / lambda_max (f_j - f_i) stay
        * within the convex hull of u_i and u_j we have to make sure that
-       * lambda_max stays above round off level.
+       * lambda_max stays above the Roe average by more than its round off
+       * error.
        */
       constexpr ScalarNumber eps = std::numeric_limits<ScalarNumber>::epsilon();
-      const auto lambda_roundoff = ScalarNumber(10.) * eps *
+      const auto lambda_minimal = lambda_max +
+                                   ScalarNumber(10.) * eps *
                                    (view.construct_flux_tensor(prec_i).norm() +
                                     view.construct_flux_tensor(prec_j).norm()) /
                                    std::max(std::abs(u_i - u_j), h2);
@@ -201,7 +203,7 @@ namespace ryujin
         enforce_entropy(k);
       }
 
-      lambda_max = std::max(lambda_max, lambda_roundoff);
+      lambda_max = std::max(lambda_max, lambda_minimal);
 
 #ifdef DEBUG_RIEMANN_SOLVER
       std::cout << "-> lambda_max        = " << lambda_max << std::endl;
-- 
2.43.0


From 2e918edfdeceb2e71f9b996560012365c08a13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 06/26] fix: ShallowWater: Limiter: combine kinetic energy
 bounds with each other

---
 source/shallow_water/limiter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.h b/source/shallow_water/limiter.h
index 9c5b5f7..3952600 100644
--- a/source/shallow_water/limiter.h
+++ b/source/shallow_water/limiter.h
@@ -392,7 +392,7 @@ namespace ryujin
       return {std::min(h_min_l, h_min_r),
               std::max(h_max_l, h_max_r),
               std::min(h_small_l, h_small_r),
-              std::max(k_max_l, h_max_r),
+              std::max(k_max_l, k_max_r),
               std::max(v2_max_l, v2_max_r)};
     }
 
-- 
2.43.0


From 0b5ac9b94dce4c481d68e9193f3d3b9ddf82fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 07/26] fix: ShallowWater: Limiter: do not discard the update
 if only the water depth is limited

---
 source/shallow_water/limiter.template.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index 4932b5b..c890584 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -143,7 +143,7 @@ namespace ryujin
        */
       if (RYUJIN_UNLIKELY(!parameters.limit_on_square_velocity() &&
                           !parameters.limit_on_kinetic_energy()))
-        return {t_l, success};
+        return {t_r, success};
 
       /*
        * Limit the (negative) kinetic energy:
-- 
2.43.0


From a721aa976c2cb9f90d3319773dd7676c27cff94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:22 +0000
Subject: [PATCH 08/26] fix: ShallowWater: Limiter: correct derivative of the
 square velocity functional

---
 source/shallow_water/limiter.template.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index c890584..6692208 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -379,7 +379,7 @@ namespace ryujin
            *            - (|q_U|^2 + 2(q_U * q_P) t + |q_P|^2 t^2)
            *
            * d_psi(t) = 2 (h_U + t * h_P) * h_P v2_max
-           *            - 2 (q_U * q_P) - |q_P|^2 t
+           *            - 2 (q_U * q_P) - 2 |q_P|^2 t
            *
            * We can compute the root of this function efficiently by using our
            * standard quadratic_newton_step() function that will use the points
@@ -394,11 +394,11 @@ namespace ryujin
           const auto &q_P = view.momentum(P);
 
           const auto dpsi_l =
-              (h_U + t_l * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_l);
+              ScalarNumber(2.) * (h_U + t_l * h_P) * h_P * v2_max -
+              ScalarNumber(2.) * ((q_U * q_P) + q_P * q_P * t_l);
           const auto dpsi_r =
-              (h_U + t_r * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_r);
+              ScalarNumber(2.) * (h_U + t_r * h_P) * h_P * v2_max -
+              ScalarNumber(2.) * ((q_U * q_P) + q_P * q_P * t_r);
 
           quadratic_newton_step(
               t_l, t_r, psi_l, psi_r, dpsi_l, dpsi_r, Number(-1.));
-- 
2.43.0


From 42b2f6c4b71e52a51e54df3fdc951cdc2fc32281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 09/26] fix: quadratic_newton_step: avoid catastrophic
 cancellation in the roots of the interpolants

---
 source/newton.h | 57 +++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/source/newton.h b/source/newton.h
index f85fb8c..8d78889 100644
--- a/source/newton.h
+++ b/source/newton.h
@@ -65,24 +65,45 @@ namespace ryujin
     const auto discriminant_2 =
         std::abs(dphi_p_2 * dphi_p_2 - ScalarNumber(4.) * phi_p_2 * dd_122);
 
-    const auto denominator_1 = dphi_p_1 + sign * std::sqrt(discriminant_1);
-    const auto denominator_2 = dphi_p_2 + sign * std::sqrt(discriminant_2);
-
-    /* Make sure we do not produce NaNs: */
-
-    auto t_1 =
-        p_1 - dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
-                  std::abs(denominator_1),
-                  Number(eps),
-                  Number(0.),
-                  ScalarNumber(2.) * phi_p_1 / denominator_1);
-
-    auto t_2 =
-        p_2 - dealii::compare_and_apply_mask<dealii::SIMDComparison::less_than>(
-                  std::abs(denominator_2),
-                  Number(eps),
-                  Number(0.),
-                  ScalarNumber(2.) * phi_p_2 / denominator_2);
+    /*
+     * Compute the roots of the two quadratic interpolants. In case dphi and
+     * sign * sqrt(discriminant) have opposite sign the denominator suffers
+     * from cancellation. In particular for a point with phi(p) = 0 up to
+     * roundoff only roundoff would remain and the new point might be located
+     * anywhere in the interval. In case the cancellation is catastrophic we
+     * thus switch to the equivalent formula without cancellation:
+     */
+
+    const auto root = [&](const Number &phi,
+                          const Number &dphi,
+                          const Number &dd,
+                          const Number &discriminant) {
+      constexpr auto lt = dealii::SIMDComparison::less_than;
+
+      const Number sqrt = sign * std::sqrt(discriminant);
+      const Number denominator = dphi + sqrt;
+
+      /* Make sure we do not produce NaNs: */
+      const Number regular =
+          dealii::compare_and_apply_mask<lt>(std::abs(denominator),
+                                             Number(eps),
+                                             Number(0.),
+                                             ScalarNumber(2.) * phi /
+                                                 denominator);
+      const Number alternative = dealii::compare_and_apply_mask<lt>(
+          std::abs(dd),
+          Number(eps),
+          regular,
+          ScalarNumber(0.5) * (dphi - sqrt) / dd);
+
+      return dealii::compare_and_apply_mask<lt>(std::abs(denominator),
+                                                Number(1.0e-8) * std::abs(dphi),
+                                                alternative,
+                                                regular);
+    };
+
+    auto t_1 = p_1 - root(phi_p_1, dphi_p_1, dd_112, discriminant_1);
+    auto t_2 = p_2 - root(phi_p_2, dphi_p_2, dd_122, discriminant_2);
 
     /* Enforce bounds: */
 
-- 
2.43.0


From daf387e52e28f77fbe8353e184b82fc3921f6c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 10/26] fix: EulerAEOS: RiemannSolver: consistently account for
 the reference pressure in phi(p_max)

---
 source/euler_aeos/riemann_solver.template.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/euler_aeos/riemann_solver.template.h b/source/euler_aeos/riemann_solver.template.h
index dcc446f..553ba80 100644
--- a/source/euler_aeos/riemann_solver.template.h
+++ b/source/euler_aeos/riemann_solver.template.h
@@ -459,14 +459,16 @@ namespace ryujin
                                         ((gamma_i + Number(1.)) * p_max +
                                          (gamma_i - Number(1.)) * (p_i + pinf));
 
-      const Number value_i = (p_max - p_i) / std::sqrt(radicand_inverse_i);
+      const Number value_i =
+          (p_max - (p_i + pinf)) / std::sqrt(radicand_inverse_i);
 
       const Number radicand_jnverse_j = ScalarNumber(0.5) * rho_j /
                                         (Number(1.) - interpolation_b * rho_j) *
                                         ((gamma_j + Number(1.)) * p_max +
                                          (gamma_j - Number(1.)) * (p_j + pinf));
 
-      const Number value_j = (p_max - p_j) / std::sqrt(radicand_jnverse_j);
+      const Number value_j =
+          (p_max - (p_j + pinf)) / std::sqrt(radicand_jnverse_j);
 
       return value_i + value_j + u_j - u_i;
     }
@@ -573,7 +575,6 @@ namespace ryujin
         const primitive_type &riemann_data_j) const
     {
       const auto view = hyperbolic_system.view<dim, Number>();
-      const auto pinf = view.eos_interpolation_pinfty();
 
       const auto &[rho_i, u_i, p_i, gamma_i, a_i] = riemann_data_i;
       const auto &[rho_j, u_j, p_j, gamma_j, a_j] = riemann_data_j;
@@ -591,7 +592,7 @@ namespace ryujin
       std::cout << "a_right: " << a_j << std::endl;
 #endif
 
-      const Number p_max = std::max(p_i, p_j) + pinf;
+      const Number p_max = std::max(p_i, p_j);
       const Number phi_p_max = phi_of_p_max(riemann_data_i, riemann_data_j);
 
       if (!view.compute_strict_bounds()) {
-- 
2.43.0


From 3d7222c7b48e3f414db06fb5769f8c143d6e6f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 11/26] fix: EulerAEOS: JWL: consistent energy offset and
 exponents in inverse and speed of sound

---
 source/euler_aeos/equation_of_state_jones_wilkins_lee.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
index b4c29f8..151925e 100644
--- a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
+++ b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
@@ -94,7 +94,7 @@ namespace ryujin
         const auto second_term =
             capB * (1. - omega / R2 * ratio) * std::exp(-R2 * 1. / ratio);
 
-        return (p - first_term - second_term) / (rho * omega);
+        return (p - first_term - second_term) / (rho * omega) - q_0;
       }
 
       /**
@@ -125,14 +125,14 @@ namespace ryujin
         const auto t1 = omega * rho / (R1 * rho_0);
         const auto factor1 = omega * (1. - t1) * (1. + 1. / t1) - t1;
         const auto first_term =
-            capA / rho * factor1 * std::exp(-1. / t1 / omega);
+            capA / rho * factor1 * std::exp(-omega / t1);
 
         const auto t2 = omega * rho / (R2 * rho_0);
         const auto factor2 = omega * (1. - t2) * (1. + 1. / t2) - t2;
         const auto second_term =
-            capB / rho * factor2 * std::exp(-1. / t2 / omega);
+            capB / rho * factor2 * std::exp(-omega / t2);
 
-        const auto third_term = omega * (omega + 1.) * e;
+        const auto third_term = omega * (omega + 1.) * (e + q_0);
 
         return std::sqrt(first_term + second_term + third_term);
       }
-- 
2.43.0


From 05a8dcb61ebd8c7e55bad50801379aae5d0f6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:38 +0000
Subject: [PATCH 12/26] fix: EulerAEOS: update heat capacity of the equations
 of state on parameter read in

---
 .../euler_aeos/equation_of_state_noble_abel_stiffened_gas.h | 6 +++++-
 source/euler_aeos/equation_of_state_polytropic_gas.h        | 4 ++++
 source/euler_aeos/equation_of_state_van_der_waals.h         | 6 +++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
index 56dbd99..5eeccb0 100644
--- a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
+++ b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
@@ -54,8 +54,12 @@ namespace ryujin
         this->add_parameter(
             "reference pressure", pinf_, "The reference pressure p infinity");
 
-        /* Update the EOS interpolation parameters on parameter read in: */
+        /*
+         * Update the heat capacity and the EOS interpolation parameters on
+         * parameter read in:
+         */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           this->interpolation_pinfty_ = pinf_;
           this->interpolation_q_ = q_;
diff --git a/source/euler_aeos/equation_of_state_polytropic_gas.h b/source/euler_aeos/equation_of_state_polytropic_gas.h
index b29d599..f03919a 100644
--- a/source/euler_aeos/equation_of_state_polytropic_gas.h
+++ b/source/euler_aeos/equation_of_state_polytropic_gas.h
@@ -40,6 +40,10 @@ namespace ryujin
             "gas constant R", R_, "The specific gas constant R");
 
         cv_ = R_ / (gamma_ - 1.);
+
+        /* Update the heat capacity on parameter read in: */
+        ParameterAcceptor::parse_parameters_call_back.connect(
+            [this] { cv_ = R_ / (gamma_ - 1.); });
       }
 
       /**
diff --git a/source/euler_aeos/equation_of_state_van_der_waals.h b/source/euler_aeos/equation_of_state_van_der_waals.h
index 9d7fb28..9136d81 100644
--- a/source/euler_aeos/equation_of_state_van_der_waals.h
+++ b/source/euler_aeos/equation_of_state_van_der_waals.h
@@ -48,8 +48,12 @@ namespace ryujin
 
         cv_ = R_ / (gamma_ - 1.);
 
-        /* Update the EOS interpolation parameters on parameter read in: */
+        /*
+         * Update the heat capacity and the EOS interpolation parameters on
+         * parameter read in:
+         */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           /* Note that this EOS allows for negative pressures. */
           if (b_ > 0.)
-- 
2.43.0


From 8fd832cbedb05813076cd62a9406e6afa3ab3683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:31 +0000
Subject: [PATCH 13/26] fix: scalar conservation: account for quadrature round
 off in c_ij in wavespeed floor

---
 source/scalar_conservation/riemann_solver.template.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/scalar_conservation/riemann_solver.template.h b/source/scalar_conservation/riemann_solver.template.h
index 4fbc809..e493de8 100644
--- a/source/scalar_conservation/riemann_solver.template.h
+++ b/source/scalar_conservation/riemann_solver.template.h
@@ -70,11 +70,14 @@ namespace ryujin
        * that bar states 1/2 (u_i + u_j) - 1/2 / lambda_max (f_j - f_i) stay
        * within the convex hull of u_i and u_j we have to make sure that
        * lambda_max stays above the Roe average by more than its round off
-       * error.
+       * error. Here, we also have to account for the fact that n_ij is
+       * derived from c_ij, a sum over quadrature points, for which the
+       * antisymmetry c_ij = - c_ji holds true only up to accumulated
+       * rounding errors.
        */
       constexpr ScalarNumber eps = std::numeric_limits<ScalarNumber>::epsilon();
       const auto lambda_minimal = lambda_max +
-                                   ScalarNumber(10.) * eps *
+                                   ScalarNumber(200.) * eps *
                                    (view.construct_flux_tensor(prec_i).norm() +
                                     view.construct_flux_tensor(prec_j).norm()) /
                                    std::max(std::abs(u_i - u_j), h2);
-- 
2.43.0


From 4c634a300485a1e5a6ee3f87960c161573a6d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:32 +0000
Subject: [PATCH 14/26] fix: apply the diagonal part of high-order source terms

The limiter step skips the diagonal P_ii. With multi-stage ERK updates the
diagonal carries m_ii (S_iH - S_i) and the difference was consequently
dropped: source terms were only integrated with first order accuracy.
Distribute the difference between the lumped high-order and low-order
source over the off-diagonal entries of the stencil.
---
 source/hyperbolic_module.template.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/hyperbolic_module.template.h b/source/hyperbolic_module.template.h
index 232a233..1898722 100644
--- a/source/hyperbolic_module.template.h
+++ b/source/hyperbolic_module.template.h
@@ -678,6 +678,9 @@ namespace ryujin
             }
           }
 
+          [[maybe_unused]] const auto lambda =
+              Number(1.) / Number(row_length - 1);
+
           [[maybe_unused]] state_type S_i;
           state_type F_iH;
 
@@ -797,8 +800,13 @@ namespace ryujin
             }
 
             if constexpr (View::have_source_terms) {
+              /*
+               * The diagonal P_ii is never visited in the limiter step. We
+               * thus distribute the difference m_i (S_iH - S_i) between
+               * high-order and low-order source over the stencil.
+               */
               F_iH -= m_ij * S_iH;
-              P_ij -= m_ij * /*sic!*/ S_i;
+              P_ij += m_i * lambda * (S_iH - S_i) - m_ij * S_iH;
             }
 
             /*
-- 
2.43.0


From 54563d244da33c6a06a33edd4c9b9b1f394bd0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 15/26] fix: quantities: decide once per write_out whether to
 append

The append flag was evaluated after the first manifold had been written,
so the files of further manifolds were appended to stale files.
---
 source/quantities.template.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/quantities.template.h b/source/quantities.template.h
index 05d482c..345e61f 100644
--- a/source/quantities.template.h
+++ b/source/quantities.template.h
@@ -583,6 +583,11 @@ namespace ryujin
      * space_averaged values to the corresponding log files:
      */
 
+    /* Start new time series files on the first call after a prepare(): */
+    const bool append = time_series_cycle_.has_value();
+    if (!append)
+      time_series_cycle_ = cycle;
+
     const auto write_out = [&](const auto &point_maps,
                                const auto &manifolds,
                                auto &statistics,
@@ -649,19 +654,13 @@ namespace ryujin
          */
 
         if (options.find("space_averaged") != std::string::npos) {
-          bool append = true;
-          if (!time_series_cycle_.has_value()) {
-            time_series_cycle_ = cycle;
-            append = false;
-          }
-
           const auto file_name =
               base_name_ + "-" + name + "-R" +
               Utilities::to_string(time_series_cycle_.value(), 4) +
               "-space_averaged_time_series.dat";
 
           auto &series = time_series[name];
-          internal_write_out_time_series(file_name, series, /*append*/ append);
+          internal_write_out_time_series(file_name, series, append);
           series.clear();
         }
       }
-- 
2.43.0


From ccf1f86568b4b15ba246e7b15519992f4a2d5adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 16/26] fix: SparsityPatternSIMD: clear the exchange pattern
 before it is set up again

A second reinit() kept the send and receive lists of the first one.
---
 source/sparse_matrix_simd.template.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/sparse_matrix_simd.template.h b/source/sparse_matrix_simd.template.h
index 2894113..7dc4eb5 100644
--- a/source/sparse_matrix_simd.template.h
+++ b/source/sparse_matrix_simd.template.h
@@ -149,6 +149,11 @@ namespace ryujin
 
     /* Compute the data exchange pattern: */
 
+    /* Drop the communication pattern of a previous reinit() call: */
+    entries_to_be_sent.clear();
+    receive_targets.clear();
+    send_targets.clear();
+
     if (sparsity.n_rows() > n_locally_owned_dofs) {
 
       /*
-- 
2.43.0


From f035694c73381093b9f395a20f2afcb03b8047be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 17/26] fix: scalar conservation: refuse a flux function with
 too few components

---
 source/scalar_conservation/flux_function.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/scalar_conservation/flux_function.h b/source/scalar_conservation/flux_function.h
index 6645e5e..ef8cd99 100644
--- a/source/scalar_conservation/flux_function.h
+++ b/source/scalar_conservation/flux_function.h
@@ -72,6 +72,10 @@ namespace ryujin
       double value(const double state,
                    const unsigned int direction) const override
       {
+        AssertThrow(direction < flux_function_->n_components,
+                    dealii::ExcMessage(
+                        "user specified flux description has fewer components "
+                        "than there are space dimensions"));
         return flux_function_->value(dealii::Point<1>(state), direction);
       }
 
@@ -79,6 +83,10 @@ namespace ryujin
       double gradient(const double state,
                       const unsigned int direction) const override
       {
+        AssertThrow(direction < flux_function_->n_components,
+                    dealii::ExcMessage(
+                        "user specified flux description has fewer components "
+                        "than there are space dimensions"));
         return flux_function_->gradient(dealii::Point<1>(state), direction)[0];
       }
 
-- 
2.43.0


From 0560fde4b6821d3bb99641ba6b99771bced5d18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:50 +0000
Subject: [PATCH 18/26] fix: refuse mesh adaptivity in one dimension

The shared triangulation used in 1D cannot be adapted; the run crashed.
---
 source/time_loop.template.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 0e3d6c4..02e2177 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -222,6 +222,11 @@ namespace ryujin
     std::cout << "TimeLoop<dim, Number>::run()" << std::endl;
 #endif
 
+    AssertThrow(have_distributed_triangulation<dim> || !enable_mesh_adaptivity_,
+                dealii::ExcMessage(
+                    "mesh adaptivity is not implemented for "
+                    "distributed::shared::Triangulation which we use in 1D"));
+
     /*
      * Attach log file and record runtime parameters:
      */
-- 
2.43.0


From c5fc0c1a495ae8b3d5b4d79586463c24c4149f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 19/26] fix: do not write a checkpoint of the analytic solution

With the error computation and full output enabled the analytic solution
overwrote the checkpoint of the computed one.
---
 source/time_loop.h          |  3 ++-
 source/time_loop.template.h | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/time_loop.h b/source/time_loop.h
index 6fa8743..f20f53b 100644
--- a/source/time_loop.h
+++ b/source/time_loop.h
@@ -122,7 +122,8 @@ namespace ryujin
     void output(StateVector &state_vector,
                 const std::string &name,
                 const Number t,
-                const unsigned int cycle);
+                const unsigned int cycle,
+                const bool checkpoint = true);
 
     void print_parameters(std::ostream &stream);
     void print_mpi_partition(std::ostream &stream);
diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 02e2177..365911c 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -335,7 +335,11 @@ namespace ryujin
             std::get<0>(analytic) =
                 initial_values_.interpolate_hyperbolic_vector(t);
           }
-          output(analytic, base_name_ + "-analytic_solution", t, timer_cycle);
+          output(analytic,
+                 base_name_ + "-analytic_solution",
+                 t,
+                 timer_cycle,
+                 /*checkpoint*/ false);
         }
 
         if (enable_compute_quantities_ &&
@@ -842,7 +846,8 @@ namespace ryujin
   void TimeLoop<Description, dim, Number>::output(StateVector &state_vector,
                                                   const std::string &name,
                                                   const Number t,
-                                                  const unsigned int cycle)
+                                                  const unsigned int cycle,
+                                                  const bool checkpoint)
   {
 #ifdef DEBUG_OUTPUT
     std::cout << "TimeLoop<dim, Number>::output(t = " << t << ")" << std::endl;
@@ -854,7 +859,8 @@ namespace ryujin
         (cycle % timer_output_levelsets_multiplier_ == 0) &&
         enable_output_levelsets_;
     const bool do_checkpointing =
-        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_;
+        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_ &&
+        checkpoint;
 
     /* There is nothing to do: */
     if (!(do_full_output || do_levelsets || do_checkpointing))
-- 
2.43.0


From bfe4f0a4b8b56ae3444a2b0c082cb1577304a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 20/26] fix: initial state "function": the third expression is
 a pressure

For arbitrary equations of state from_primitive_state() takes it as
specific internal energy.
---
 source/euler/initial_state_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/euler/initial_state_function.h b/source/euler/initial_state_function.h
index 51e71ec..86c29e7 100644
--- a/source/euler/initial_state_function.h
+++ b/source/euler/initial_state_function.h
@@ -112,7 +112,7 @@ namespace ryujin
         pressure_function_->set_time(t);
         full_primitive_state[1 + dim] = pressure_function_->value(point);
 
-        return view.from_primitive_state(full_primitive_state);
+        return view.from_initial_state(full_primitive_state);
       }
 
     private:
-- 
2.43.0


From 06453ae97e6e8b17b918e7918309d8dea4e82694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 21/26] fix: noh: the density of the exact solution depends on
 the reference velocity

---
 source/euler/initial_state_noh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/euler/initial_state_noh.h b/source/euler/initial_state_noh.h
index 3b7382e..5f834af 100644
--- a/source/euler/initial_state_noh.h
+++ b/source/euler/initial_state_noh.h
@@ -91,7 +91,7 @@ namespace ryujin
           p = 0.5 * rho0_ * u0_ * u0_;
           p *= std::pow(gamma_ + 1., dim) / std::pow(gamma_ - 1., dim - 1);
         } else {
-          rho = rho0_ * std::pow(1. + t / (norm + min), dim - 1);
+          rho = rho0_ * std::pow(1. + u0_ * t / (norm + min), dim - 1);
         }
 
         /* Set final state */
-- 
2.43.0


From c37711b67113514091071251a8fbc8033e3e6ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 22/26] fix: rotate initial states correctly in three
 dimensions

---
 source/initial_values.template.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/initial_values.template.h b/source/initial_values.template.h
index 8b563cb..9536246 100644
--- a/source/initial_values.template.h
+++ b/source/initial_values.template.h
@@ -93,6 +93,8 @@ namespace ryujin
       /* Roll second component of initial_direction onto x-axis: */
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
+        if constexpr (dim == 3) /* the first roll removed the z component */
+          n_x = std::hypot(initial_direction[0], initial_direction[2]);
         auto n_y = initial_direction[1];
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
@@ -119,6 +121,8 @@ namespace ryujin
     {
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
+        if constexpr (dim == 3)
+          n_x = std::hypot(initial_direction[0], initial_direction[2]);
         auto n_y = initial_direction[1];
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
-- 
2.43.0


From 16f971211537ef1a050559bc59c02092e722be89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 23/26] fix: icf like: use the ratio of specific heats of the
 equation

---
 source/euler/initial_state_icf_like.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/euler/initial_state_icf_like.h b/source/euler/initial_state_icf_like.h
index 9cca0d2..d051a22 100644
--- a/source/euler/initial_state_icf_like.h
+++ b/source/euler/initial_state_icf_like.h
@@ -83,6 +83,9 @@ namespace ryujin
 
         const auto convert_states = [&]() {
           const auto view = hyperbolic_system_.template view<dim, Number>();
+          if constexpr (View::have_gamma) {
+            gamma_ = view.gamma();
+          }
           state_inside_ = view.from_initial_state(primitive_inside_);
           state_outside_ = view.from_initial_state(primitive_outside_);
         };
-- 
2.43.0


From 1174969ab8a487897d247d2056b36b8486128c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 24/26] fix: shock front, icf like: density behind the shock of
 a covolume gas

---
 source/euler/initial_state_icf_like.h    | 3 ++-
 source/euler/initial_state_shock_front.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/euler/initial_state_icf_like.h b/source/euler/initial_state_icf_like.h
index d051a22..3255c31 100644
--- a/source/euler/initial_state_icf_like.h
+++ b/source/euler/initial_state_icf_like.h
@@ -117,7 +117,8 @@ namespace ryujin
 
           const Number rho_L =
               rho_R * (gamma_ + Number(1.)) * delta_mach * delta_mach /
-              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.));
+              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.) +
+               Number(2.) * b * rho_R * (delta_mach * delta_mach - Number(1.)));
           const Number u_L =
               (Number(1.) - rho_R / rho_L) * S3_ + rho_R / rho_L * u_R;
           const Number p_L = p_R *
diff --git a/source/euler/initial_state_shock_front.h b/source/euler/initial_state_shock_front.h
index ea0cd68..e784c0d 100644
--- a/source/euler/initial_state_shock_front.h
+++ b/source/euler/initial_state_shock_front.h
@@ -81,7 +81,8 @@ namespace ryujin
 
           const Number rho_L =
               rho_R * (gamma_ + Number(1.)) * delta_mach * delta_mach /
-              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.));
+              ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.) +
+               Number(2.) * b * rho_R * (delta_mach * delta_mach - Number(1.)));
           const Number u_L =
               (Number(1.) - rho_R / rho_L) * S3_ + rho_R / rho_L * u_R;
           const Number p_L = p_R *
-- 
2.43.0


From 13bc1b58a8144490fb5d5d504653ae7eee199b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 25/26] hooks: trace of the time loop, guarded by
 RYUJIN_VERIF_HOOKS

---
 source/time_loop.template.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 365911c..f7e8f8d 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -9,6 +9,12 @@
 #include "time_loop.h"
 #include "version_info.h"
 
+#ifdef RYUJIN_VERIF_HOOKS
+#include <ryujin_verif_hooks.h>
+#else
+#define RYUJIN_VERIF_HOOK(event, ...)
+#endif
+
 #include <deal.II/base/logstream.h>
 #include <deal.II/base/work_stream.h>
 #include <deal.II/distributed/solution_transfer.h>
@@ -308,6 +314,9 @@ namespace ryujin
       std::cout << "\n\n###   cycle = " << cycle << "   ###\n\n" << std::endl;
 #endif
 
+      RYUJIN_VERIF_HOOK(
+          loop, offline_data_, state_vector, t, timer_cycle, cycle);
+
       /* Accumulate quantities of interest: */
 
       if (enable_compute_quantities_) {
@@ -381,8 +390,10 @@ namespace ryujin
           print_info("performing mesh adaptation");
 
           hyperbolic_module_.prepare_state_vector(state_vector, t);
+          RYUJIN_VERIF_HOOK(adapt, 0, offline_data_, state_vector, t);
           adapt_mesh_and_transfer_state_vector(state_vector,
                                                prepare_compute_kernels);
+          RYUJIN_VERIF_HOOK(adapt, 1, offline_data_, state_vector, t);
         }
       }
 
@@ -395,6 +406,8 @@ namespace ryujin
 
       t += tau;
 
+      RYUJIN_VERIF_HOOK(step, tau, t);
+
       /* Print and record cycle statistics: */
       if (terminal_update_interval_ != Number(0.)) {
         const bool write_to_log_file = (t >= timer_cycle * timer_granularity_);
@@ -419,6 +432,8 @@ namespace ryujin
     /* We have actually performed one cycle less. */
     --cycle;
 
+    RYUJIN_VERIF_HOOK(finish, offline_data_, state_vector, t, cycle);
+
     computing_timer_["time loop"].stop();
 
     if (terminal_update_interval_ != Number(0.)) {
@@ -617,6 +632,8 @@ namespace ryujin
 
     const int ierr = MPI_Barrier(mpi_communicator_);
     AssertThrowMPI(ierr);
+
+    RYUJIN_VERIF_HOOK(checkpoint, offline_data_, state_vector, t, output_cycle);
   }
 
 
@@ -862,12 +879,22 @@ namespace ryujin
         (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_ &&
         checkpoint;
 
+    RYUJIN_VERIF_HOOK(output,
+                      name,
+                      t,
+                      cycle,
+                      do_full_output,
+                      do_levelsets,
+                      do_checkpointing);
+
     /* There is nothing to do: */
     if (!(do_full_output || do_levelsets || do_checkpointing))
       return;
 
     hyperbolic_module_.prepare_state_vector(state_vector, t);
 
+    RYUJIN_VERIF_HOOK(prepared, offline_data_, state_vector, t, cycle);
+
     /* Data output: */
     if (do_full_output || do_levelsets) {
       Scope scope(computing_timer_, "time step [X]   - perform vtu output");
-- 
2.43.0


From e97394bb8cf5b852c848533ad2da9450426a2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:17 +0000
Subject: [PATCH 26/26] fix: postprocessor: refuse the vorticity of a component
 that does not start a vector

The vorticity of the component with index i reads components i to
i + dim - 1; for the total energy (and whatever else comes too late)
these lie outside of the state.
---
 source/postprocessor.template.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/postprocessor.template.h b/source/postprocessor.template.h
index 628c423..8ac8181 100644
--- a/source/postprocessor.template.h
+++ b/source/postprocessor.template.h
@@ -73,7 +73,8 @@ namespace ryujin
 
     const auto populate = [&](const auto &strings,
                               auto &indices,
-                              const auto &pre) {
+                              const auto &pre,
+                              const unsigned int n_entries) {
       const auto &cons = View::component_names;
       const auto &prim = View::primitive_component_names;
       for (const auto &entry : strings) {
@@ -83,6 +84,9 @@ namespace ryujin
           const auto pos = std::find(std::begin(names), std::end(names), entry);
           if (!found && pos != std::end(names)) {
             const auto index = std::distance(std::begin(names), pos);
+            AssertThrow(index + n_entries <= names.size(),
+                        dealii::ExcMessage("Component »" + entry +
+                                           "« does not start a vector"));
             indices.push_back(std::make_pair(is_primitive, index));
             component_names_.push_back(pre + entry);
             found = true;
@@ -93,8 +97,8 @@ namespace ryujin
             dealii::ExcMessage("Invalid component name »" + entry + "«"));
       }
     };
-    populate(schlieren_quantities_, schlieren_indices_, "schlieren_");
-    populate(vorticity_quantities_, vorticity_indices_, "vorticity_");
+    populate(schlieren_quantities_, schlieren_indices_, "schlieren_", 1);
+    populate(vorticity_quantities_, vorticity_indices_, "vorticity_", dim);
 
     const auto &partitioner = offline_data_->scalar_partitioner();
 
-- 
2.43.0


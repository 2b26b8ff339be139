From 04acd19ff343484244f57439622383d9058befee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 01/28] fix: shallow water limiter: combine the kinetic energy
 bounds of both sides

---
 source/shallow_water/limiter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.h b/source/shallow_water/limiter.h
index 9c5b5f7..3952600 100644
--- a/source/shallow_water/limiter.h
+++ b/source/shallow_water/limiter.h
@@ -392,7 +392,7 @@ namespace ryujin
       return {std::min(h_min_l, h_min_r),
               std::max(h_max_l, h_max_r),
               std::min(h_small_l, h_small_r),
-              std::max(k_max_l, h_max_r),
+              std::max(k_max_l, k_max_r),
               std::max(v2_max_l, v2_max_r)};
     }
 
-- 
2.43.0


From e15fb68220edf9557adc4195fd27b45263f2615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 02/28] fix: shallow water limiter: keep the limited high-order
 update if only the water depth is limited

---
 source/shallow_water/limiter.template.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index 4932b5b..c890584 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -143,7 +143,7 @@ namespace ryujin
        */
       if (RYUJIN_UNLIKELY(!parameters.limit_on_square_velocity() &&
                           !parameters.limit_on_kinetic_energy()))
-        return {t_l, success};
+        return {t_r, success};
 
       /*
        * Limit the (negative) kinetic energy:
-- 
2.43.0


From b567a0d930effb3ecd47171e2b045aa424fef739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:22 +0000
Subject: [PATCH 03/28] fix: shallow water limiter: correct the derivative of
 the square velocity functional

---
 source/shallow_water/limiter.template.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/shallow_water/limiter.template.h b/source/shallow_water/limiter.template.h
index c890584..d34f53d 100644
--- a/source/shallow_water/limiter.template.h
+++ b/source/shallow_water/limiter.template.h
@@ -379,7 +379,7 @@ namespace ryujin
            *            - (|q_U|^2 + 2(q_U * q_P) t + |q_P|^2 t^2)
            *
            * d_psi(t) = 2 (h_U + t * h_P) * h_P v2_max
-           *            - 2 (q_U * q_P) - |q_P|^2 t
+           *            - 2 (q_U * q_P) - 2 |q_P|^2 t
            *
            * We can compute the root of this function efficiently by using our
            * standard quadratic_newton_step() function that will use the points
@@ -394,11 +394,11 @@ namespace ryujin
           const auto &q_P = view.momentum(P);
 
           const auto dpsi_l =
-              (h_U + t_l * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_l);
+              ScalarNumber(2.) * (h_U + t_l * h_P) * h_P * v2_max -
+              ScalarNumber(2.) * (q_U * q_P + q_P * q_P * t_l);
           const auto dpsi_r =
-              (h_U + t_r * h_P) * h_P * v2_max -
-              ScalarNumber(2.) * ((q_U * q_P) - q_P * q_P * t_r);
+              ScalarNumber(2.) * (h_U + t_r * h_P) * h_P * v2_max -
+              ScalarNumber(2.) * (q_U * q_P + q_P * q_P * t_r);
 
           quadratic_newton_step(
               t_l, t_r, psi_l, psi_r, dpsi_l, dpsi_r, Number(-1.));
-- 
2.43.0


From b9f55902fd41ef226fe5450dae3f91054b2ae42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 04/28] fix: euler_aeos Riemann solver: compare pressures
 consistently when pinfty is nonzero

---
 source/euler_aeos/riemann_solver.template.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/euler_aeos/riemann_solver.template.h b/source/euler_aeos/riemann_solver.template.h
index dcc446f..3e41537 100644
--- a/source/euler_aeos/riemann_solver.template.h
+++ b/source/euler_aeos/riemann_solver.template.h
@@ -459,14 +459,16 @@ namespace ryujin
                                         ((gamma_i + Number(1.)) * p_max +
                                          (gamma_i - Number(1.)) * (p_i + pinf));
 
-      const Number value_i = (p_max - p_i) / std::sqrt(radicand_inverse_i);
+      const Number value_i =
+          (p_max - (p_i + pinf)) / std::sqrt(radicand_inverse_i);
 
       const Number radicand_jnverse_j = ScalarNumber(0.5) * rho_j /
                                         (Number(1.) - interpolation_b * rho_j) *
                                         ((gamma_j + Number(1.)) * p_max +
                                          (gamma_j - Number(1.)) * (p_j + pinf));
 
-      const Number value_j = (p_max - p_j) / std::sqrt(radicand_jnverse_j);
+      const Number value_j =
+          (p_max - (p_j + pinf)) / std::sqrt(radicand_jnverse_j);
 
       return value_i + value_j + u_j - u_i;
     }
@@ -591,7 +593,7 @@ namespace ryujin
       std::cout << "a_right: " << a_j << std::endl;
 #endif
 
-      const Number p_max = std::max(p_i, p_j) + pinf;
+      const Number p_max = std::max(p_i, p_j);
       const Number phi_p_max = phi_of_p_max(riemann_data_i, riemann_data_j);
 
       if (!view.compute_strict_bounds()) {
-- 
2.43.0


From 2b26a6d1d02b9bf8d842e8a19891420e866f0149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 05/28] fix: euler_aeos: compute the heat capacity from the
 configured gamma and gas constant

---
 .../euler_aeos/equation_of_state_noble_abel_stiffened_gas.h  | 1 +
 source/euler_aeos/equation_of_state_polytropic_gas.h         | 5 ++++-
 source/euler_aeos/equation_of_state_van_der_waals.h          | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
index 56dbd99..aa609f2 100644
--- a/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
+++ b/source/euler_aeos/equation_of_state_noble_abel_stiffened_gas.h
@@ -56,6 +56,7 @@ namespace ryujin
 
         /* Update the EOS interpolation parameters on parameter read in: */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           this->interpolation_pinfty_ = pinf_;
           this->interpolation_q_ = q_;
diff --git a/source/euler_aeos/equation_of_state_polytropic_gas.h b/source/euler_aeos/equation_of_state_polytropic_gas.h
index b29d599..0503858 100644
--- a/source/euler_aeos/equation_of_state_polytropic_gas.h
+++ b/source/euler_aeos/equation_of_state_polytropic_gas.h
@@ -39,7 +39,10 @@ namespace ryujin
         this->add_parameter(
             "gas constant R", R_, "The specific gas constant R");
 
-        cv_ = R_ / (gamma_ - 1.);
+        /* Update the heat capacity on parameter read in: */
+        const auto compute_cv = [this] { cv_ = R_ / (gamma_ - 1.); };
+        compute_cv();
+        ParameterAcceptor::parse_parameters_call_back.connect(compute_cv);
       }
 
       /**
diff --git a/source/euler_aeos/equation_of_state_van_der_waals.h b/source/euler_aeos/equation_of_state_van_der_waals.h
index 9d7fb28..8c747ba 100644
--- a/source/euler_aeos/equation_of_state_van_der_waals.h
+++ b/source/euler_aeos/equation_of_state_van_der_waals.h
@@ -50,6 +50,7 @@ namespace ryujin
 
         /* Update the EOS interpolation parameters on parameter read in: */
         ParameterAcceptor::parse_parameters_call_back.connect([this] {
+          cv_ = R_ / (gamma_ - 1.);
           this->interpolation_b_ = b_;
           /* Note that this EOS allows for negative pressures. */
           if (b_ > 0.)
-- 
2.43.0


From 3624ba313487436c69a44014a57a63b5a709d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 06/28] fix: euler_aeos JWL: account for q_0 when inverting the
 pressure

---
 source/euler_aeos/equation_of_state_jones_wilkins_lee.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
index b4c29f8..7a73457 100644
--- a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
+++ b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
@@ -80,7 +80,7 @@ namespace ryujin
       /**
        * The specific internal energy is given by
        * \f{align}
-       *   \omega \rho e = p
+       *   \omega \rho (e + q_0) = p
        *   - A(1 - \omega / R_1 \rho / \rho_0) e^{(-R_1 \rho_0 / \rho)}
        *   - B(1 - \omega / R_2 \rho/ \rho_0) e^{(-R_2 \rho_0 / \rho)}
        * \f}
@@ -94,7 +94,7 @@ namespace ryujin
         const auto second_term =
             capB * (1. - omega / R2 * ratio) * std::exp(-R2 * 1. / ratio);
 
-        return (p - first_term - second_term) / (rho * omega);
+        return (p - first_term - second_term) / (rho * omega) - q_0;
       }
 
       /**
-- 
2.43.0


From 1e30b2a0e0986b8527c75583b5772d744790fd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 07/28] fix: euler_aeos JWL: correct exponents and energy
 offset in the speed of sound

---
 source/euler_aeos/equation_of_state_jones_wilkins_lee.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
index 7a73457..ffeadde 100644
--- a/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
+++ b/source/euler_aeos/equation_of_state_jones_wilkins_lee.h
@@ -125,14 +125,14 @@ namespace ryujin
         const auto t1 = omega * rho / (R1 * rho_0);
         const auto factor1 = omega * (1. - t1) * (1. + 1. / t1) - t1;
         const auto first_term =
-            capA / rho * factor1 * std::exp(-1. / t1 / omega);
+            capA / rho * factor1 * std::exp(-omega / t1);
 
         const auto t2 = omega * rho / (R2 * rho_0);
         const auto factor2 = omega * (1. - t2) * (1. + 1. / t2) - t2;
         const auto second_term =
-            capB / rho * factor2 * std::exp(-1. / t2 / omega);
+            capB / rho * factor2 * std::exp(-omega / t2);
 
-        const auto third_term = omega * (omega + 1.) * e;
+        const auto third_term = omega * (omega + 1.) * (e + q_0);
 
         return std::sqrt(first_term + second_term + third_term);
       }
-- 
2.43.0


From 38871392cf63e802e2dd67533463243c59e8387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:16 +0000
Subject: [PATCH 08/28] fix: dG: do not overwrite limiter bounds while
 neighbors still extend theirs

In step 5 the bounds extended over the stencil were written back into the
vector that is concurrently read to extend the bounds of neighboring degrees
of freedom. The outcome depended on the enumeration of the degrees of freedom,
and on the number of threads.
---
 source/hyperbolic_module.h          |  1 +
 source/hyperbolic_module.template.h | 12 ++++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/hyperbolic_module.h b/source/hyperbolic_module.h
index f8acc70..ea13c84 100644
--- a/source/hyperbolic_module.h
+++ b/source/hyperbolic_module.h
@@ -322,6 +322,7 @@ namespace ryujin
     static constexpr auto n_bounds =
         Description::template Limiter<dim, Number>::n_bounds;
     mutable Vectors::MultiComponentVector<Number, n_bounds> bounds_;
+    mutable Vectors::MultiComponentVector<Number, n_bounds> extended_bounds_;
 
     using HyperbolicVector =
         Vectors::MultiComponentVector<Number, problem_dimension>;
diff --git a/source/hyperbolic_module.template.h b/source/hyperbolic_module.template.h
index a485e03..339c5d7 100644
--- a/source/hyperbolic_module.template.h
+++ b/source/hyperbolic_module.template.h
@@ -66,6 +66,8 @@ namespace ryujin
     const auto &scalar_partitioner = offline_data_->scalar_partitioner();
     alpha_.reinit(scalar_partitioner);
     bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
+    if (offline_data_->discretization().have_discontinuous_ansatz())
+      extended_bounds_.reinit_with_scalar_partitioner(scalar_partitioner);
 
     r_.reinit(offline_data_->hyperbolic_vector_partitioner());
     using View =
@@ -933,7 +935,10 @@ namespace ryujin
           /*
            * In case of a discontinuous finite element ansatz we need to
            * extend bounds over the stencil. We do this by looping over the
-           * stencil once and taking the minimum/maximum:
+           * stencil once and taking the minimum/maximum. The result has to
+           * be stored in a separate vector because the original bounds are
+           * still needed for extending the bounds of neighboring degrees
+           * of freedom.
            */
           if constexpr (have_discontinuous_ansatz) {
             /* Skip diagonal. */
@@ -944,7 +949,7 @@ namespace ryujin
                   bounds,
                   bounds_.template get_tensor<T, std::array<T, n_bounds>>(js));
             }
-            bounds_.template write_tensor<T>(bounds, i);
+            extended_bounds_.template write_tensor<T>(bounds, i);
           }
 
           [[maybe_unused]] T m_i;
@@ -1038,6 +1043,9 @@ namespace ryujin
 
       LIKWID_MARKER_STOP(("time_step_" + std::to_string(step_no)).c_str());
       RYUJIN_PARALLEL_REGION_END
+
+      if (offline_data_->discretization().have_discontinuous_ansatz())
+        bounds_.swap(extended_bounds_);
     }
 
     /*
-- 
2.43.0


From 35c5f0fe8d858862958ec2ec9c1e2a45a96bdc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:55 +0000
Subject: [PATCH 09/28] fix: do not match fine with coarse faces when creating
 periodicity constraints

---
 source/offline_data.template.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/offline_data.template.h b/source/offline_data.template.h
index 72d5cbc..5bcd5ba 100644
--- a/source/offline_data.template.h
+++ b/source/offline_data.template.h
@@ -94,6 +94,15 @@ namespace ryujin
     for (const auto &[left, value] : periodic_faces) {
       const auto &[right, orientation] = value;
 
+      /*
+       * For a locally refined mesh the map also contains pairs of a fine
+       * face and (a part of) a coarse face. These must not be matched with
+       * each other, the respective constraints are already created by
+       * matching the parent of the fine face with the coarse face.
+       */
+      if (left.first->level() != right.first->level())
+        continue;
+
       typename DoFHandler<dim>::cell_iterator dof_cell_left(
           &left.first->get_triangulation(),
           left.first->level(),
-- 
2.43.0


From 65a4c023888415288b8dcb8ee99f5d7c02aff9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 10/28] fix: interpret the pressure expression of the function
 initial state as a pressure

For euler_aeos the third entry of a primitive state is the specific internal
energy, while the configuration file specifies a pressure. Use the conversion
of initial states instead, which is the identity for the polytropic case.
---
 source/euler/initial_state_function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/euler/initial_state_function.h b/source/euler/initial_state_function.h
index 51e71ec..86c29e7 100644
--- a/source/euler/initial_state_function.h
+++ b/source/euler/initial_state_function.h
@@ -112,7 +112,7 @@ namespace ryujin
         pressure_function_->set_time(t);
         full_primitive_state[1 + dim] = pressure_function_->value(point);
 
-        return view.from_primitive_state(full_primitive_state);
+        return view.from_initial_state(full_primitive_state);
       }
 
     private:
-- 
2.43.0


From 213793f172f60f9262249209680e1e7ab41887d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:25 +0000
Subject: [PATCH 11/28] fix: scalar_conservation limiter: keep the bar states
 inside the hull of both states

If the flux is (nearly) orthogonal to c_ij then d_ij is close to zero and
the bar state 1/2 (u_i + u_j) + 1/2 (f_j - f_i) . c_ij / d_ij is dominated
by cancellation. The resulting local bounds were arbitrarily wrong and the
limiter admitted states violating the maximum principle.
---
 source/scalar_conservation/limiter.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/source/scalar_conservation/limiter.h b/source/scalar_conservation/limiter.h
index 20805aa..6a36c1d 100644
--- a/source/scalar_conservation/limiter.h
+++ b/source/scalar_conservation/limiter.h
@@ -248,7 +248,21 @@ namespace ryujin
           ScalarNumber(0.5) * contract(add(flux_j, -flux_i), scaled_c_ij) +
           affine_shift;
 
-      const auto u_ij_bar = view.state(U_ij_bar);
+      /*
+       * The bar state (without affine shift) is a convex combination of u_i
+       * and u_j. Enforce this up to roundoff: If the flux is (nearly)
+       * orthogonal to c_ij then d_ij is close to zero and the quotient
+       * above is dominated by cancellation.
+       */
+      constexpr ScalarNumber eps = std::numeric_limits<ScalarNumber>::epsilon();
+      const auto slack =
+          ScalarNumber(100. * eps) * (std::abs(u_i) + std::abs(u_j));
+      const auto shift = view.state(affine_shift);
+      const auto u_min_ij = std::min(u_i, u_j) - slack + shift;
+      const auto u_max_ij = std::max(u_i, u_j) + slack + shift;
+
+      const auto u_ij_bar =
+          std::min(std::max(view.state(U_ij_bar), u_min_ij), u_max_ij);
 
       /* Bounds: */
 
-- 
2.43.0


From 8752d599caa6f0b67ec27dee3587179960fab6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:21 +0000
Subject: [PATCH 12/28] fix: euler_aeos limiter: combine_bounds: account for
 different values of gamma

The minima of the surrogate entropy are computed with different values of
gamma_min. Merging them without a conversion produced bounds that excluded
admissible (low-order) states when the density is less than one.
---
 source/euler_aeos/limiter.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/euler_aeos/limiter.h b/source/euler_aeos/limiter.h
index 78ab06d..d00b92d 100644
--- a/source/euler_aeos/limiter.h
+++ b/source/euler_aeos/limiter.h
@@ -438,10 +438,30 @@ namespace ryujin
       const auto &[rho_min_l, rho_max_l, s_min_l, gamma_min_l] = bounds_left;
       const auto &[rho_min_r, rho_max_r, s_min_r, gamma_min_r] = bounds_right;
 
+      const auto gamma_min = std::min(gamma_min_l, gamma_min_r);
+
+      /*
+       * The minima of the specific entropy have been computed with
+       * different values of gamma. For a given state we have
+       *
+       *   s(gamma_min) = s(gamma_l) * (rho / (1 - b rho))^(gamma_l - gamma_min)
+       *
+       * Thus, lower the minimum accordingly if the density is less than one:
+       */
+
+      const auto scale = [&](const Number &rho_min, const Number &gamma) {
+        const auto rho = std::max(Number(0.), rho_min);
+        return std::min(Number(1.),
+                        ryujin::pow(rho, Number(gamma - gamma_min)));
+      };
+
+      const Number s_min = std::min(scale(rho_min_l, gamma_min_l) * s_min_l,
+                                    scale(rho_min_r, gamma_min_r) * s_min_r);
+
       return {std::min(rho_min_l, rho_min_r),
               std::max(rho_max_l, rho_max_r),
-              std::min(s_min_l, s_min_r),
-              std::min(gamma_min_l, gamma_min_r)};
+              s_min,
+              gamma_min};
     }
 
 
-- 
2.43.0


From 92a9d7ae6dc44bc08187a25410034f650b050829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:42 +0000
Subject: [PATCH 13/28] fix: checkpoint: populate constrained degrees of
 freedom before writing the state

---
 source/time_loop.template.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 0e3d6c4..8033501 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -564,6 +564,9 @@ namespace ryujin
     for (auto &it : states) {
       it.reinit(scalar_partitioner);
       U.extract_component(it, d++);
+      /* Populate constrained degrees of freedom: */
+      offline_data_.affine_constraints().distribute(it);
+      it.update_ghost_values();
     }
 
     /* Create SolutionTransfer object, attach state vector and write out: */
-- 
2.43.0


From 551ce29c0bac62bb8b7409307137e7e7c74de7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:22 +0000
Subject: [PATCH 14/28] fix: checkpoint: do not overwrite the checkpoint with
 the analytic solution

---
 source/time_loop.h          |  3 ++-
 source/time_loop.template.h | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/source/time_loop.h b/source/time_loop.h
index 6fa8743..60551a9 100644
--- a/source/time_loop.h
+++ b/source/time_loop.h
@@ -122,7 +122,8 @@ namespace ryujin
     void output(StateVector &state_vector,
                 const std::string &name,
                 const Number t,
-                const unsigned int cycle);
+                const unsigned int cycle,
+                const bool write_checkpoints = true);
 
     void print_parameters(std::ostream &stream);
     void print_mpi_partition(std::ostream &stream);
diff --git a/source/time_loop.template.h b/source/time_loop.template.h
index 8033501..d190bd6 100644
--- a/source/time_loop.template.h
+++ b/source/time_loop.template.h
@@ -330,7 +330,11 @@ namespace ryujin
             std::get<0>(analytic) =
                 initial_values_.interpolate_hyperbolic_vector(t);
           }
-          output(analytic, base_name_ + "-analytic_solution", t, timer_cycle);
+          output(analytic,
+                 base_name_ + "-analytic_solution",
+                 t,
+                 timer_cycle,
+                 /*write_checkpoints*/ false);
         }
 
         if (enable_compute_quantities_ &&
@@ -840,7 +844,8 @@ namespace ryujin
   void TimeLoop<Description, dim, Number>::output(StateVector &state_vector,
                                                   const std::string &name,
                                                   const Number t,
-                                                  const unsigned int cycle)
+                                                  const unsigned int cycle,
+                                                  const bool write_checkpoints)
   {
 #ifdef DEBUG_OUTPUT
     std::cout << "TimeLoop<dim, Number>::output(t = " << t << ")" << std::endl;
@@ -852,7 +857,8 @@ namespace ryujin
         (cycle % timer_output_levelsets_multiplier_ == 0) &&
         enable_output_levelsets_;
     const bool do_checkpointing =
-        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_;
+        (cycle % timer_checkpoint_multiplier_ == 0) && enable_checkpointing_ &&
+        write_checkpoints;
 
     /* There is nothing to do: */
     if (!(do_full_output || do_levelsets || do_checkpointing))
-- 
2.43.0


From 2e62fbc9807ffe2a4fd6b62fc96a864538524eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:33 +0000
Subject: [PATCH 15/28] fix: quantities: start a new time series file for every
 manifold

---
 source/quantities.template.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/source/quantities.template.h b/source/quantities.template.h
index 05d482c..10c6c45 100644
--- a/source/quantities.template.h
+++ b/source/quantities.template.h
@@ -583,6 +583,11 @@ namespace ryujin
      * space_averaged values to the corresponding log files:
      */
 
+    /* Start new time series files on the first writeout: */
+    const bool append = time_series_cycle_.has_value();
+    if (!append)
+      time_series_cycle_ = cycle;
+
     const auto write_out = [&](const auto &point_maps,
                                const auto &manifolds,
                                auto &statistics,
@@ -649,12 +654,6 @@ namespace ryujin
          */
 
         if (options.find("space_averaged") != std::string::npos) {
-          bool append = true;
-          if (!time_series_cycle_.has_value()) {
-            time_series_cycle_ = cycle;
-            append = false;
-          }
-
           const auto file_name =
               base_name_ + "-" + name + "-R" +
               Utilities::to_string(time_series_cycle_.value(), 4) +
-- 
2.43.0


From 7beb7bcf1a8890f71841a00aada50607f6ccd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:05 +0000
Subject: [PATCH 16/28] fix: offline data: find all coupling boundary pairs on
 locally refined meshes in parallel

---
 source/offline_data.template.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/offline_data.template.h b/source/offline_data.template.h
index 5bcd5ba..2918f46 100644
--- a/source/offline_data.template.h
+++ b/source/offline_data.template.h
@@ -1436,6 +1436,22 @@ namespace ryujin
       }   /* f */
     }     /* cell */
 
+    /*
+     * A degree of freedom that only couples via hanging node constraints
+     * might not belong to any locally relevant cell. Thus, query the
+     * respective owner for all ghost indices:
+     */
+
+    ScalarVector on_boundary(scalar_partitioner_);
+    for (const auto i : locally_relevant_boundary_indices)
+      if (i < n_locally_owned_)
+        on_boundary.local_element(i) = Number(1.);
+    on_boundary.update_ghost_values();
+
+    for (unsigned int i = n_locally_owned_; i < n_locally_relevant_; ++i)
+      if (on_boundary.local_element(i) != Number(0.))
+        locally_relevant_boundary_indices.insert(i);
+
     /*
      * Now, collect all coupling boundary pairs:
      */
-- 
2.43.0


From 7a91e42a988d1091717ef154f34147fe8a76a338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:53 +0000
Subject: [PATCH 17/28] fix: initial values: rotate the initial direction
 consistently in 3D

After the third component of the direction has been rolled onto the
xy-plane the second rotation has to act on the rotated direction.
---
 source/initial_values.template.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/initial_values.template.h b/source/initial_values.template.h
index 8b563cb..d14048c 100644
--- a/source/initial_values.template.h
+++ b/source/initial_values.template.h
@@ -93,6 +93,9 @@ namespace ryujin
       /* Roll second component of initial_direction onto x-axis: */
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
+        /* The first rotation aligned (n_x, n_z) with the x-axis: */
+        if constexpr (dim == 3)
+          n_x = std::hypot(initial_direction[0], initial_direction[2]);
         auto n_y = initial_direction[1];
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
@@ -119,6 +122,8 @@ namespace ryujin
     {
       if constexpr (dim >= 2) {
         auto n_x = initial_direction[0];
+        if constexpr (dim == 3)
+          n_x = std::hypot(initial_direction[0], initial_direction[2]);
         auto n_y = initial_direction[1];
         const auto norm = std::sqrt(n_x * n_x + n_y * n_y);
         n_x /= norm;
-- 
2.43.0


From e60a41ac8ec8226414418a8105314d2ff83c6302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:53 +0000
Subject: [PATCH 18/28] fix: Noh initial state: account for the reference
 velocity in the density

The exact solution ahead of the shock is rho_0 (1 + u_0 t / r)^(d-1).
---
 source/euler/initial_state_noh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/euler/initial_state_noh.h b/source/euler/initial_state_noh.h
index 3b7382e..5f834af 100644
--- a/source/euler/initial_state_noh.h
+++ b/source/euler/initial_state_noh.h
@@ -91,7 +91,7 @@ namespace ryujin
           p = 0.5 * rho0_ * u0_ * u0_;
           p *= std::pow(gamma_ + 1., dim) / std::pow(gamma_ - 1., dim - 1);
         } else {
-          rho = rho0_ * std::pow(1. + t / (norm + min), dim - 1);
+          rho = rho0_ * std::pow(1. + u0_ * t / (norm + min), dim - 1);
         }
 
         /* Set final state */
-- 
2.43.0


From 0e357db99e00f84a0a14c5ce44503a1abd417067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:53 +0000
Subject: [PATCH 19/28] fix: shock front initial states: account for the
 covolume in the density jump

The Rankine-Hugoniot density ratio holds for (1 / rho - b).
---
 source/euler/initial_state_icf_like.h    | 7 +++++--
 source/euler/initial_state_shock_front.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/euler/initial_state_icf_like.h b/source/euler/initial_state_icf_like.h
index 9cca0d2..537a04a 100644
--- a/source/euler/initial_state_icf_like.h
+++ b/source/euler/initial_state_icf_like.h
@@ -112,9 +112,12 @@ namespace ryujin
           auto S3_ = mach_number_ * a_R;
           const Number delta_mach = mach_R - mach_number_;
 
-          const Number rho_L =
-              rho_R * (gamma_ + Number(1.)) * delta_mach * delta_mach /
+          /* (1 / rho_R - b) / (1 / rho_L - b) */
+          const Number ratio =
+              (gamma_ + Number(1.)) * delta_mach * delta_mach /
               ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.));
+          const Number rho_L =
+              rho_R * ratio / (Number(1.) + b * rho_R * (ratio - Number(1.)));
           const Number u_L =
               (Number(1.) - rho_R / rho_L) * S3_ + rho_R / rho_L * u_R;
           const Number p_L = p_R *
diff --git a/source/euler/initial_state_shock_front.h b/source/euler/initial_state_shock_front.h
index ea0cd68..7abb0f7 100644
--- a/source/euler/initial_state_shock_front.h
+++ b/source/euler/initial_state_shock_front.h
@@ -79,9 +79,12 @@ namespace ryujin
           S3_ = mach_number_ * a_R;
           const Number delta_mach = mach_R - mach_number_;
 
-          const Number rho_L =
-              rho_R * (gamma_ + Number(1.)) * delta_mach * delta_mach /
+          /* (1 / rho_R - b) / (1 / rho_L - b) */
+          const Number ratio =
+              (gamma_ + Number(1.)) * delta_mach * delta_mach /
               ((gamma_ - Number(1.)) * delta_mach * delta_mach + Number(2.));
+          const Number rho_L =
+              rho_R * ratio / (Number(1.) + b * rho_R * (ratio - Number(1.)));
           const Number u_L =
               (Number(1.) - rho_R / rho_L) * S3_ + rho_R / rho_L * u_R;
           const Number p_L = p_R *
-- 
2.43.0


From 09e112fb4dc3fb25f01bf65e8985d0f728d0027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:53 +0000
Subject: [PATCH 20/28] fix: icf like initial state: use the ratio of specific
 heats of the equation

---
 source/euler/initial_state_icf_like.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/euler/initial_state_icf_like.h b/source/euler/initial_state_icf_like.h
index 537a04a..5fa395e 100644
--- a/source/euler/initial_state_icf_like.h
+++ b/source/euler/initial_state_icf_like.h
@@ -83,6 +83,9 @@ namespace ryujin
 
         const auto convert_states = [&]() {
           const auto view = hyperbolic_system_.template view<dim, Number>();
+          if constexpr (View::have_gamma) {
+            gamma_ = view.gamma();
+          }
           state_inside_ = view.from_initial_state(primitive_inside_);
           state_outside_ = view.from_initial_state(primitive_outside_);
         };
-- 
2.43.0


From b0bfc7a66016b5490479f5378601ffaf87c449dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 21/28] fix: vtu output: write every cell of a level set only
 once

Ghost cells were selected for output as well so that cells close to a
partition boundary were written by several ranks.
---
 source/vtu_output.template.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/vtu_output.template.h b/source/vtu_output.template.h
index b2f1c2c..e75b4d2 100644
--- a/source/vtu_output.template.h
+++ b/source/vtu_output.template.h
@@ -165,7 +165,7 @@ namespace ryujin
             std::make_shared<FunctionParser<dim>>(expression));
 
       data_out->set_cell_selection([level_set_functions](const auto &cell) {
-        if (!cell->is_active() || cell->is_artificial())
+        if (!cell->is_active() || !cell->is_locally_owned())
           return false;
 
         for (const auto &function : level_set_functions) {
-- 
2.43.0


From b9eeeb776492668b4f40eb8ab11bf0cc1ca9d7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:08 +0000
Subject: [PATCH 22/28] fix: postprocessor: exclude constrained degrees of
 freedom from bounds

Their entries hold a stale, already normalized value.
---
 source/postprocessor.template.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postprocessor.template.h b/source/postprocessor.template.h
index 628c423..5e27f29 100644
--- a/source/postprocessor.template.h
+++ b/source/postprocessor.template.h
@@ -236,6 +236,9 @@ namespace ryujin
       for (unsigned int d = 0; d < n_quantities; ++d) {
         auto &[q_max, q_min] = bounds_[d];
         for (unsigned int i = 0; i < n_owned; ++i) {
+          /* Skip constrained degrees of freedom: */
+          if (sparsity_simd.row_length(i) == 1)
+            continue;
           const auto q = quantities_[d].local_element(i);
           q_max = std::max(q_max, std::abs(q));
           q_min = std::min(q_min, std::abs(q));
-- 
2.43.0


From 2c3b3481ce92fc9c2e3ba7d4f9ebe0a271a795cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:06 +0000
Subject: [PATCH 23/28] fix: geometry step: create matching meshes for every
 step position

The upper block was subdivided into 15 equal columns and the block in front
of the step into three: for any step position other than a fifth of the
length the vertices of the two blocks did not match, were not merged, and
the computational domain silently contained an interior slip wall.
---
 source/geometry_step.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/source/geometry_step.h b/source/geometry_step.h
index 2b208bf..ebddbbe 100644
--- a/source/geometry_step.h
+++ b/source/geometry_step.h
@@ -41,20 +41,34 @@ namespace ryujin
     {
       using namespace dealii;
 
-      dealii::Triangulation<2, 2> tria1, tria2, tria3;
-      tria3.set_mesh_smoothing(triangulation.get_mesh_smoothing());
+      /*
+       * Split the upper part at the step so that the vertices of all three
+       * blocks match irrespective of where the step is located:
+       */
+
+      dealii::Triangulation<2, 2> tria1, tria2, tria3, tria4;
+      tria4.set_mesh_smoothing(triangulation.get_mesh_smoothing());
 
       GridGenerator::subdivided_hyper_rectangle(
-          tria1, {15, 4}, Point<2>(0., step_height), Point<2>(length, height));
+          tria1,
+          {3, 4},
+          Point<2>(0., step_height),
+          Point<2>(step_position, height));
 
       GridGenerator::subdivided_hyper_rectangle(
           tria2,
+          {12, 4},
+          Point<2>(step_position, step_height),
+          Point<2>(length, height));
+
+      GridGenerator::subdivided_hyper_rectangle(
+          tria3,
           {3, 1},
           Point<2>(0., 0.),
           Point<2>(step_position, step_height));
 
-      GridGenerator::merge_triangulations(tria1, tria2, tria3);
-      triangulation.copy_triangulation(tria3);
+      GridGenerator::merge_triangulations({&tria1, &tria2, &tria3}, tria4);
+      triangulation.copy_triangulation(tria4);
 
       /*
        * Set boundary ids:
-- 
2.43.0


From b812def086e77a1abc321e0add8d078aab825ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:06 +0000
Subject: [PATCH 24/28] fix: geometry tank: correct the default reservoir width

The default width (8.1 centimeters) is smaller than the width of the flume
(24 centimeters) so that no mesh can be created with default parameters;
the width of the reservoir of the experiment is 81 centimeters.
---
 source/geometry_tank.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/geometry_tank.h b/source/geometry_tank.h
index 516c927..25a5b07 100644
--- a/source/geometry_tank.h
+++ b/source/geometry_tank.h
@@ -140,7 +140,7 @@ namespace ryujin
                             reservoir_length_,
                             "length of water reservoir [meters]");
 
-        reservoir_width_ = 8.1 / 100.;
+        reservoir_width_ = 81. / 100.;
         this->add_parameter("reservoir width",
                             reservoir_width_,
                             "width of water reservoir [meters]");
-- 
2.43.0


From 41bc36be72caa00804b0eab6f5a7e910601e04a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:22 +0000
Subject: [PATCH 25/28] fix: geometry annulus: keep the outer radius on the
 spherical manifold

Vertices on the outer radius were compared without a tolerance: depending on
rounding part of the faces on the outer arc was not attached to the
spherical manifold and ended up as straight segments.
---
 source/geometry_annulus.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/geometry_annulus.h b/source/geometry_annulus.h
index a1694ad..d63c1b5 100644
--- a/source/geometry_annulus.h
+++ b/source/geometry_annulus.h
@@ -59,7 +59,8 @@ namespace ryujin
           for (unsigned int v : cell->vertex_indices()) {
             const auto vertex = cell->vertex(v);
             const auto distance = vertex.norm();
-            if (!(inner_radius - eps <= distance && distance <= outer_radius)) {
+            if (!(inner_radius - eps <= distance &&
+                  distance <= outer_radius + eps)) {
               cell_on_annulus = false;
               break;
             }
@@ -78,7 +79,7 @@ namespace ryujin
               const auto vertex = face->vertex(v);
               const auto distance = vertex.norm();
               if (!(inner_radius - eps <= distance &&
-                    distance <= outer_radius)) {
+                    distance <= outer_radius + eps)) {
                 face_on_annulus = false;
                 break;
               }
-- 
2.43.0


From e4ba01ae3a0ef3eb9152d24db12875c5d9923ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:55 +0000
Subject: [PATCH 26/28] fix: navier stokes: exclude constrained degrees of
 freedom from the internal energy check

Constrained degrees of freedom do not take part in the linear solve: the
initial vector is set to zero there, and the multigrid preconditioner leaves
arbitrary small values behind. Consequently, on meshes with periodic
boundaries or hanging nodes the check for the minimum principle either
reported a violation where none happened (and forced a restart), or never
noticed anything but a negative internal energy.
---
 .../navier_stokes/parabolic_solver.template.h | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/source/navier_stokes/parabolic_solver.template.h b/source/navier_stokes/parabolic_solver.template.h
index 6ad2a25..5c67855 100644
--- a/source/navier_stokes/parabolic_solver.template.h
+++ b/source/navier_stokes/parabolic_solver.template.h
@@ -239,6 +239,23 @@ namespace ryujin
 
       DiagonalMatrix<dim, Number> diagonal_matrix;
 
+      /*
+       * Compute the global minimum of the internal energy. Constrained
+       * degrees of freedom are not part of the linear system and do not
+       * carry a meaningful value; thus exclude them.
+       */
+      const auto minimal_internal_energy = [&]() {
+        const auto &sparsity_simd = offline_data_->sparsity_pattern_simd();
+        Number e_min = std::numeric_limits<Number>::max();
+        for (unsigned int i = 0; i < n_owned; ++i) {
+          /* Skip constrained degrees of freedom: */
+          if (sparsity_simd.row_length(i) == 1)
+            continue;
+          e_min = std::min(e_min, internal_energy_.local_element(i));
+        }
+        return Utilities::MPI::min(e_min, mpi_communicator_);
+      };
+
 #ifdef DEBUG_OUTPUT
       std::cout << "        perform time-step with tau = " << tau << std::endl;
 #endif
@@ -426,10 +443,7 @@ namespace ryujin
 
         /* Compute the global minimum of the internal energy: */
 
-        // .begin() and .end() denote the locally owned index range:
-        e_min_old =
-            *std::min_element(internal_energy_.begin(), internal_energy_.end());
-        e_min_old = Utilities::MPI::min(e_min_old, mpi_communicator_);
+        e_min_old = minimal_internal_energy();
 
         // FIXME: create a meaningful relaxation based on global mesh size min.
         constexpr Number eps = std::numeric_limits<Number>::epsilon();
@@ -761,10 +775,7 @@ namespace ryujin
           Scope scope(computing_timer_,
                       "time step [P] _ - synchronization barriers");
 
-          // .begin() and .end() denote the locally owned index range:
-          auto e_min_new = *std::min_element(internal_energy_.begin(),
-                                             internal_energy_.end());
-          e_min_new = Utilities::MPI::min(e_min_new, mpi_communicator_);
+          const auto e_min_new = minimal_internal_energy();
 
           if (e_min_new < e_min_old) {
 #ifdef DEBUG_OUTPUT
-- 
2.43.0


From fe16657eebbde4e5c8396a2e6b4d00f2fe0b44c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 27/28] fix: navier stokes: restart the fallback linear solver
 from the initial vector

If the multigrid solver does not converge we switch to the more robust plain
conjugate gradient method. That method, however, was started from whatever
vector the multigrid solver left behind, which might very well contain NaNs
that then ended up in the solution.
---
 source/navier_stokes/parabolic_solver.template.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/navier_stokes/parabolic_solver.template.h b/source/navier_stokes/parabolic_solver.template.h
index 5c67855..d603679 100644
--- a/source/navier_stokes/parabolic_solver.template.h
+++ b/source/navier_stokes/parabolic_solver.template.h
@@ -472,6 +472,8 @@ namespace ryujin
          * too many iterations we better switch to the more robust plain
          * conjugate gradient method.
          */
+        const auto initial_velocity = velocity_;
+
         try {
           if (!use_gmg_velocity_)
             throw SolverControl::NoConvergence(0, 0.);
@@ -506,6 +508,9 @@ namespace ryujin
 
         } catch (SolverControl::NoConvergence &) {
 
+          /* Discard whatever the multigrid solver left behind: */
+          velocity_ = initial_velocity;
+
           SolverControl solver_control(1000, tolerance_velocity);
           SolverCG<BlockVector> solver(solver_control);
           solver.solve(
@@ -719,6 +724,8 @@ namespace ryujin
                                     : internal_energy_rhs_.l2_norm()) *
             tolerance_;
 
+        const auto initial_internal_energy = internal_energy_;
+
         try {
           if (!use_gmg_internal_energy_)
             throw SolverControl::NoConvergence(0, 0.);
@@ -754,6 +761,9 @@ namespace ryujin
 
         } catch (SolverControl::NoConvergence &) {
 
+          /* Discard whatever the multigrid solver left behind: */
+          internal_energy_ = initial_internal_energy;
+
           SolverControl solver_control(1000, tolerance_internal_energy);
           SolverCG<ScalarVector> solver(solver_control);
           solver.solve(energy_operator,
-- 
2.43.0


From a89b1ccdc483df4e6733e6a04c52be217a07dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:46 +0000
Subject: [PATCH 28/28] fix: navier stokes: set up the level densities if
 multigrid is only used for the internal energy

The densities on the levels were only initialized if the multigrid
preconditioner was enabled for the velocity. Otherwise, they remained zero
and the level matrices for the internal energy became singular.
---
 source/navier_stokes/parabolic_solver.template.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/navier_stokes/parabolic_solver.template.h b/source/navier_stokes/parabolic_solver.template.h
index d603679..8b4e8eb 100644
--- a/source/navier_stokes/parabolic_solver.template.h
+++ b/source/navier_stokes/parabolic_solver.template.h
@@ -390,6 +390,10 @@ namespace ryujin
          * refreshes will render the approximation better, at some additional
          * cost.
          */
+        if ((use_gmg_velocity_ || use_gmg_internal_energy_) && reinitialize_gmg)
+          mg_transfer_velocity_.interpolate_to_mg(
+              offline_data_->dof_handler(), level_density_, density_);
+
         if (use_gmg_velocity_ && reinitialize_gmg) {
           MGLevelObject<typename PreconditionChebyshev<
               VelocityMatrix<dim, float, Number>,
@@ -400,9 +404,6 @@ namespace ryujin
 
           level_velocity_matrices_.resize(level_matrix_free_.min_level(),
                                           level_matrix_free_.max_level());
-          mg_transfer_velocity_.interpolate_to_mg(
-              offline_data_->dof_handler(), level_density_, density_);
-
           for (unsigned int level = level_matrix_free_.min_level();
                level <= level_matrix_free_.max_level();
                ++level) {
-- 
2.43.0


From ccb269b3c6d91be252ddef39d4e49d0f627e53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 1/7] fix: apply the spherical metric factor to the exterior
 flux in the RKDG LLF flux

---
 .../numerical_fluxes/rkdg_swe_LLF_flux.hpp                  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
index 9b577c6..619e205 100644
--- a/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
+++ b/source/problem/SWE/discretization_RKDG/numerical_fluxes/rkdg_swe_LLF_flux.hpp
@@ -52,9 +52,9 @@ void LLF_flux(const double gravity,
     double uvh_ex = u_ex * q_ex[SWE::Variables::qy];
     double pe_ex  = gravity * (std::pow(q_ex[SWE::Variables::ze], 2) / 2 + q_ex[SWE::Variables::ze] * bath);
 
-    Fn_ex[SWE::Variables::ze] = q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
-    Fn_ex[SWE::Variables::qx] = (uuh_ex + pe_ex) * nx + uvh_ex * ny;
-    Fn_ex[SWE::Variables::qy] = uvh_ex * nx + (vvh_ex + pe_ex) * ny;
+    Fn_ex[SWE::Variables::ze] = sp * q_ex[SWE::Variables::qx] * nx + q_ex[SWE::Variables::qy] * ny;
+    Fn_ex[SWE::Variables::qx] = sp * (uuh_ex + pe_ex) * nx + uvh_ex * ny;
+    Fn_ex[SWE::Variables::qy] = sp * uvh_ex * nx + (vvh_ex + pe_ex) * ny;
 
     F_hat = 0.5 * (Fn_in + Fn_ex + max_eigenvalue * (q_in - q_ex));
 }
-- 
2.43.0


From 7093b23d40d39d15ba3a05808a0622fee3dd1d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:54 +0000
Subject: [PATCH 2/7] fix: use the given gravity in the single point
 Lax-Friedrichs stabilization parameter

---
 .../SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
index abf025b..f3ae417 100644
--- a/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
+++ b/source/problem/SWE/problem_stabilization_parameters/swe_stab_param_LF.hpp
@@ -35,7 +35,7 @@ void get_tau_LF(double gravity,
     double nx = surface_normal[GlobalCoord::x];
     double ny = surface_normal[GlobalCoord::y];
 
-    double c  = std::sqrt(Global::g * h);
+    double c  = std::sqrt(gravity * h);
     double un = u * nx + v * ny;
 
     tau = (c + std::abs(un)) * IdentityMatrix<double>(3);
-- 
2.43.0


From ffa13cdb0a7c747faf762d1f7168bae18b4383c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 3/7] fix: reflect off land along the spherical metric normal
 so that no water crosses the wall

---
 .../boundary_conditions/rkdg_swe_bc_land.hpp  | 41 +++++++------------
 .../rkdg_swe_dbc_distributed_levee.hpp        |  6 ++-
 .../rkdg_swe_is_levee.hpp                     |  7 +++-
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
index 8bce928..460d0c3 100644
--- a/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
+++ b/source/problem/SWE/discretization_RKDG/boundary_conditions/rkdg_swe_bc_land.hpp
@@ -24,6 +24,7 @@ class Land {
 
     void GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+               const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                Column<HybMatrix<double, SWE::n_variables>>&& q_ex);
 };
 
@@ -41,21 +42,12 @@ template <typename StepperType, typename BoundaryType>
 void Land::ComputeFlux(const StepperType& stepper, BoundaryType& bound) {
     auto& boundary = bound.data.boundary[bound.bound_id];
 
-    auto n_x = row(bound.surface_normal, GlobalCoord::x);
-    auto n_y = row(bound.surface_normal, GlobalCoord::y);
-    auto t_x = -n_y;
-    auto t_y = n_x;
-
-    auto qn_ex = -(vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), n_x) +
-                   vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), n_y));
-    auto qt_ex = vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qx), t_x) +
-                 vec_cw_mult(row(boundary.q_at_gp, SWE::Variables::qy), t_y);
-
-    row(this->q_ex, SWE::Variables::ze) = row(boundary.q_at_gp, SWE::Variables::ze);
-    row(this->q_ex, SWE::Variables::qx) = vec_cw_mult(qn_ex, n_x) + vec_cw_mult(qt_ex, t_x);
-    row(this->q_ex, SWE::Variables::qy) = vec_cw_mult(qn_ex, n_y) + vec_cw_mult(qt_ex, t_y);
-
     for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
+        this->GetEX(column(bound.surface_normal, gp),
+                    column(boundary.q_at_gp, gp),
+                    column(boundary.aux_at_gp, gp),
+                    column(this->q_ex, gp));
+
         LLF_flux(Global::g,
                  column(boundary.q_at_gp, gp),
                  column(this->q_ex, gp),
@@ -70,28 +62,25 @@ void Land::ComputeFlux(const Column<HybMatrix<double, SWE::n_dimensions>>& surfa
                        const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                        Column<HybMatrix<double, SWE::n_variables>>&& F_hat) {
     // *** //
-    double n_x = surface_normal[GlobalCoord::x];
-    double n_y = surface_normal[GlobalCoord::y];
-    double t_x = -n_y;
-    double t_y = n_x;
-
-    double qn_ex = -(q_in[SWE::Variables::qx] * n_x + q_in[SWE::Variables::qy] * n_y);
-    double qt_ex = q_in[SWE::Variables::qx] * t_x + q_in[SWE::Variables::qy] * t_y;
-
-    this->q_ex(SWE::Variables::ze, 0) = q_in[SWE::Variables::ze];
-    this->q_ex(SWE::Variables::qx, 0) = qn_ex * n_x + qt_ex * t_x;
-    this->q_ex(SWE::Variables::qy, 0) = qn_ex * n_y + qt_ex * t_y;
+    this->GetEX(surface_normal, q_in, aux_in, column(this->q_ex, 0));
 
     LLF_flux(Global::g, q_in, column(this->q_ex, 0), aux_in, surface_normal, std::move(F_hat));
 }
 
 void Land::GetEX(const Column<HybMatrix<double, SWE::n_dimensions>>& surface_normal,
                  const Column<HybMatrix<double, SWE::n_variables>>& q_in,
+                 const Column<HybMatrix<double, SWE::n_auxiliaries>>& aux_in,
                  Column<HybMatrix<double, SWE::n_variables>>&& q_ex) {
     double n_x, n_y, t_x, t_y, qn_in, qt_in, qn_ex, qt_ex;
 
-    n_x = surface_normal[GlobalCoord::x];
+    // Spherical projection: the wall normal is the direction of the mass flux through the edge
+    n_x = aux_in[SWE::Auxiliaries::sp] * surface_normal[GlobalCoord::x];
     n_y = surface_normal[GlobalCoord::y];
+
+    double n_abs = std::hypot(n_x, n_y);
+
+    n_x /= n_abs;
+    n_y /= n_abs;
     t_x = -n_y;
     t_y = n_x;
 
diff --git a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
index 2ed7e4b..ebc3d6d 100644
--- a/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/dist_boundary_conditions/rkdg_swe_dbc_distributed_levee.hpp
@@ -100,8 +100,10 @@ void DistributedLevee::ComputeFlux(DistributedBoundaryType& dbound) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary
-            this->land_boundary.GetEX(
-                column(dbound.surface_normal, gp), column(boundary.q_at_gp, gp), column(this->q_ex, gp));
+            this->land_boundary.GetEX(column(dbound.surface_normal, gp),
+                                      column(boundary.q_at_gp, gp),
+                                      column(boundary.aux_at_gp, gp),
+                                      column(this->q_ex, gp));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
 
diff --git a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
index 3fc8cac..9c4a20f 100644
--- a/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
+++ b/source/problem/SWE/discretization_RKDG/interface_specializations/rkdg_swe_is_levee.hpp
@@ -90,12 +90,15 @@ void Levee::ComputeFlux(InterfaceType& intface) {
             std::abs(h_above_levee_in - h_above_levee_ex) <= H_tolerance) {          // equal within tolerance
 
             // reflective boundary in
-            this->land_boundary.GetEX(
-                column(intface.surface_normal_in, gp), column(boundary_in.q_at_gp, gp), column(this->q_in_ex, gp));
+            this->land_boundary.GetEX(column(intface.surface_normal_in, gp),
+                                      column(boundary_in.q_at_gp, gp),
+                                      column(boundary_in.aux_at_gp, gp),
+                                      column(this->q_in_ex, gp));
 
             // reflective boundary ex
             this->land_boundary.GetEX(column(intface.surface_normal_ex, gp_ex),
                                       column(boundary_ex.q_at_gp, gp_ex),
+                                      column(boundary_ex.aux_at_gp, gp_ex),
                                       column(this->q_ex_ex, gp_ex));
         } else if (h_above_levee_in > h_above_levee_ex) {  // overtopping from in to ex
             double n_x, n_y, t_x, t_y, qn_in, qt_in;
-- 
2.43.0


From 5d2ceb1fae95bf593c7c48ebd7b94ba1a3a1870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:48 +0000
Subject: [PATCH 4/7] fix: convert tide and flow phases to radians in the
 implicit HDG kernels

---
 .../boundary_conditions/ihdg_swe_bc_flow.hpp                  | 4 ++--
 .../boundary_conditions/ihdg_swe_bc_tide.hpp                  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
index a6455f1..4f36ea7 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_flow.hpp
@@ -156,8 +156,8 @@ void Flow::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
     for (uint con = 0; con < this->frequency.size(); ++con) {
         for (uint gp = 0; gp < columns(boundary.q_at_gp); ++gp) {
             this->qn[gp] += stepper.GetRampNext() * this->forcing_fact[con] * this->amplitude_gp[con][gp] *
-                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() + this->equilib_arg[con] -
-                                this->phase_gp[con][gp]);
+                            cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
+                                (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
diff --git a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
index 23c7fc5..89c7a82 100644
--- a/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
+++ b/source/problem/SWE/discretization_IHDG/boundary_conditions/ihdg_swe_bc_tide.hpp
@@ -153,7 +153,7 @@ void Tide::ComputeGlobalKernels(const StepperType& stepper, EdgeBoundaryType& ed
             this->q_ex(SWE::Variables::ze, gp) += stepper.GetRampNext() * this->forcing_fact[con] *
                                                   this->amplitude_gp[con][gp] *
                                                   cos(this->frequency[con] * stepper.GetTimeAtNextStage() +
-                                                      this->equilib_arg[con] - this->phase_gp[con][gp]);
+                                                      (this->equilib_arg[con] - this->phase_gp[con][gp]) * PI / 180);
         }
     }
 
-- 
2.43.0


From 605adb27919853413b371f176ac27e0f9346f941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 5/7] fix: SSP-RK stage times counted every stage one or more
 stages too early

---
 source/simulation/stepper/explicit_ssp_rk_stepper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
index f6b8872..f796085 100644
--- a/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
+++ b/source/simulation/stepper/explicit_ssp_rk_stepper.cpp
@@ -260,10 +260,10 @@ void ESSPRKStepper::InitializeCoefficients() {
     // Compute the time dependent parameters
 
     for (uint i = 0; i < this->nstages; ++i) {
-        for (uint k = 0; k < i; ++k) {
+        for (uint k = 0; k <= i; ++k) {
             double casum = 0.;
-            for (uint l = k + 1; l < i; ++l) {
-                casum += this->crk.at(l).at(k) * this->ark.at(i).at(l);
+            for (uint l = k + 1; l <= i; ++l) {
+                casum += this->crk.at(l - 1).at(k) * this->ark.at(i).at(l);
             }
             this->crk.at(i).at(k) = this->brk.at(i).at(k) + casum;
         }
-- 
2.43.0


From 86ffd1bb7c19284d4f5cc4f124e839a57af89d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 6/7] fix: include the hydrostatic source in the implicit HDG
 source Jacobian

---
 .../kernels_processor/ihdg_swe_proc_source.hpp                | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index a999ba1..4ca053d 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -26,6 +26,10 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
 
     set_constant(internal.dsource_dq_at_gp, 0.0);
 
+    // hydrostatic balance g * ze * grad(bath) of the momentum equations
+    row(internal.dsource_dq_at_gp, JacobianVariables::qx_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::x);
+    row(internal.dsource_dq_at_gp, JacobianVariables::qy_ze) = Global::g * row(internal.db_at_gp, GlobalCoord::y);
+
     if (SWE::SourceTerms::bottom_friction) {
         double Cf      = SWE::SourceTerms::Cf;
         double dCf_dze = 0.0;
-- 
2.43.0


From 0f826b26804b63388d22fa440f5875dc0e23daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 7/7] fix: friction Jacobian of the implicit HDG scheme was
 0*inf at zero velocity

---
 .../kernels_processor/ihdg_swe_proc_source.hpp           | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
index 4ca053d..0dddcd7 100644
--- a/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
+++ b/source/problem/SWE/discretization_IHDG/kernels_processor/ihdg_swe_proc_source.hpp
@@ -51,8 +51,13 @@ void Problem::local_source_kernel(const ProblemStepperType& stepper, ElementType
                 }
             }
 
-            double bottom_friction_stress = Cf * std::hypot(u, v) / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
-            double C                      = Cf / (std::hypot(u, v) * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
+            double speed                  = std::hypot(u, v);
+            double bottom_friction_stress = Cf * speed / internal.aux_at_gp(SWE::Auxiliaries::h, gp);
+
+            // friction is quadratic in velocity, its derivative vanishes at rest
+            double C = 0.0;
+            if (speed > 0.0)
+                C = Cf / (speed * internal.aux_at_gp(SWE::Auxiliaries::h, gp));
 
             internal.dsource_dq_at_gp(JacobianVariables::qx_ze, gp) -=
                 -2.0 * bottom_friction_stress * u +
-- 
2.43.0


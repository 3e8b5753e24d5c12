From aae1db46548e634575c2b09c5c8cc114f1557c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 01/36] fix: create the global speed of time variable with
 add_variable

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 9cd3d64..824c55d 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -648,7 +648,7 @@ class NosnocProblem(NosnocFormulationObject):
         # add global speed of time if necessary
         if self.opts.speed_of_time_variables == SpeedOfTimeVariableMode.GLOBAL:
             sot = ca.SX.sym('sot', 1)
-            self.add_variables(sot, self.ind_sot, self.opts.speed_of_time_min, self.opts.speed_of_time_max, 1.0)
+            self.add_variable(sot, self.ind_sot, [self.opts.speed_of_time_min], [self.opts.speed_of_time_max], [1.0])
 
         # Generate control_stages
         prev_fe = self.fe0
-- 
2.43.0


From fc8a46d8f4c0bca02fac7cb9ab2daaf056155e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 02/36] fix: do not share the IPOPT options between all
 NosnocOpts instances

---
 nosnoc/nosnoc_opts.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index b69bb1a..d195559 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Union, Optional
 from dataclasses import dataclass, field
 
@@ -124,6 +125,10 @@ class NosnocOpts:
         doc="Maximum amount of iterations for the subsolver."
     )
 
+    def __post_init__(self):
+        # every instance owns its IPOPT options
+        self.opts_casadi_nlp = deepcopy(self.opts_casadi_nlp)
+
     def __repr__(self) -> str:
         out = ''
         for k, v in self.__dict__.items():
-- 
2.43.0


From 7a70d889bde77eb1722763ea997847bfa471a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 03/36] fix: report switch times as points of the time grid
 instead of step sizes

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a2b3628..a1d3fa5 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -534,6 +534,6 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
                 switch_indices.append(i)
             theta_prev = theta
 
-    results["switch_times"] = np.array([time_steps[i] for i in switch_indices])
+    results["switch_times"] = np.array([t_grid[i + 1] for i in switch_indices])
 
     return results
-- 
2.43.0


From 2c375dfdcfe29210ba155fbb674c94926ceb950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 04/36] fix: impose the boundary switching equations only where
 boundary multipliers exist

---
 nosnoc/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 824c55d..122819f 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -505,7 +505,9 @@ class FiniteElement(FiniteElementBase):
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         # g_z_all constraint for boundary point and continuity of algebraic variables.
-        if not opts.right_boundary_point_explicit and opts.use_fesd:
+        # NOTE: the last element of a control stage has no algebraic variables at its boundary point
+        if (not opts.right_boundary_point_explicit and opts.use_fesd and
+                self.fe_idx < opts.Nfe_list[self.ctrl_idx] - 1):
             self.add_constraint(
                 model.g_z_switching_fun(self.w[self.ind_x[-1]], self.rk_stage_z(-1), Uk, self.p))
 
-- 
2.43.0


From 0033e1c8b4780bff562f5a5b712fdb6fadf8df70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 05/36] fix: order the initial step multipliers like their
 parameters

---
 nosnoc/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 6c7f4a0..1d83e6e 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -257,6 +257,7 @@ class NosnocModel:
         g_switching = ca.SX.zeros((0, 1))
         g_convex = ca.SX.zeros((0, 1))  # equation for the convex multiplers 1 = e' \theta
         lambda00_expr = ca.SX.zeros(0, 0)
+        lambda00_p_expr = ca.SX.zeros(0, 0)
         std_compl_res = ca.SX.zeros(1)  # residual of standard complementarity
 
         # Note: this is the order of z used by FiniteElement
@@ -296,8 +297,10 @@ class NosnocModel:
                     self.c[ii] - lambda_p[ii] + lambda_n[ii])
                 std_compl_res += ca.transpose(lambda_n[ii]) @ alpha_ii
                 std_compl_res += ca.transpose(lambda_p[ii]) @ (np.ones(n_c_sys[ii]) - alpha_ii)
-                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0),
-                                           ca.fmax(self.c[ii], 0))
+                lambda00_expr = ca.vertcat(lambda00_expr, -ca.fmin(self.c[ii], 0))
+                lambda00_p_expr = ca.vertcat(lambda00_p_expr, ca.fmax(self.c[ii], 0))
+            # Note: all lambda_n before all lambda_p, as in FiniteElementBase.Lambda
+            lambda00_expr = ca.vertcat(lambda00_expr, lambda00_p_expr)
         else:
             raise NotImplementedError()
 
-- 
2.43.0


From 1cc7861a9ea271886e33d665f8e2741372f58375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 06/36] fix: impose the horizon length also for a single
 control stage on a free grid

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 122819f..f498ee6 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -836,7 +836,7 @@ class NosnocProblem(NosnocFormulationObject):
                 self.cost = sigma_p * self.cost + s_elastic
 
         # Terminal numerical time
-        if opts.N_stages > 1 and opts.use_fesd and not opts.equidistant_control_grid:
+        if opts.use_fesd and not opts.equidistant_control_grid:
             all_h = [fe.h for stage in self.stages for fe in stage]
             self.add_constraint(sum(all_h) - opts.terminal_time)
 
-- 
2.43.0


From 25acee49239493d317a1b8f4242ef3aade927dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 07/36] fix: handle speed of time and binary variables in the
 polishing step

---
 nosnoc/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index a1d3fa5..df939e7 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -212,7 +212,8 @@ class NosnocSolverBase(ABC):
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
                           prob.ind_theta + prob.ind_mu)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
-                               prob.ind_v + prob.ind_z + prob.ind_elastic)
+                               prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_sot +
+                               prob.ind_bool)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
-- 
2.43.0


From ffa91cdacf7b3f1b0b50939920b4eec334348fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 08/36] fix: never fix the sign-free mu in the polishing step

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index df939e7..cc9ba57 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -210,10 +210,10 @@ class NosnocSolverBase(ABC):
         eps_sigma = 1e1 * opts.comp_tol
 
         ind_set = flatten(prob.ind_lam + prob.ind_lambda_n + prob.ind_lambda_p + prob.ind_alpha +
-                          prob.ind_theta + prob.ind_mu)
+                          prob.ind_theta)
         ind_dont_set = flatten(prob.ind_h + prob.ind_u + prob.ind_x + prob.ind_v_global +
                                prob.ind_v + prob.ind_z + prob.ind_elastic + prob.ind_sot +
-                               prob.ind_bool)
+                               prob.ind_bool + prob.ind_mu)
         # sanity check
         ind_all = ind_set + ind_dont_set
         for iw in range(len(w_guess)):
-- 
2.43.0


From 55567ac3eb508df6bb0010d30deb68a75aeb358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 09/36] fix: report the signed objective value

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index cc9ba57..26dc80c 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -257,7 +257,7 @@ class NosnocSolverBase(ABC):
             status = solver_stats['return_status']
             nlp_iter = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
             w_opt = sol['x'].full().flatten()
 
             complementarity_residual = prob.comp_res(w_opt, self.p_val).full()[0][0]
@@ -407,7 +407,7 @@ class NosnocSolver(NosnocSolverBase):
             status = solver_stats['return_status']
             nlp_iter[ii] = solver_stats['iter_count']
             nlp_res = ca.norm_inf(sol['g']).full()[0][0]
-            cost_val = ca.norm_inf(sol['f']).full()[0][0]
+            cost_val = sol['f'].full()[0][0]
 
             # process iterate
             w_opt = sol['x'].full().flatten()
-- 
2.43.0


From b63914a4d134d2b64716064144eda4b325b90fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 10/36] fix: report the objective value of the polished
 solution

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 26dc80c..c556ff6 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -267,7 +267,7 @@ class NosnocSolverBase(ABC):
             if status not in ['Solve_Succeeded', 'Solved_To_Acceptable_Level']:
                 print(f"Warning: IPOPT exited with status {status}")
 
-        return w_opt, cpu_time_nlp, nlp_iter, status
+        return w_opt, cpu_time_nlp, nlp_iter, status, cost_val
 
     def create_function_calculate_vector_field(self, sigma, p=[], v=[]):
         """Create a function to calculate the vector field."""
@@ -433,7 +433,7 @@ class NosnocSolver(NosnocSolverBase):
             sigma_k = self.homotopy_sigma_update(sigma_k)
 
         if opts.do_polishing_step:
-            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status = \
+            w_opt, cpu_time_nlp[n_iter_polish - 1], nlp_iter[n_iter_polish - 1], status, cost_val = \
                                             self.polish_solution(self.solver, w_opt)
 
         # collect results
-- 
2.43.0


From 627bb26b14ca887a708549456bc5b8c32637b2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 11/36] fix: issue the warnings about unsupported option
 combinations

---
 nosnoc/nosnoc_opts.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index d195559..0246a8c 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -1,6 +1,7 @@
 from copy import deepcopy
 from typing import Union, Optional
 from dataclasses import dataclass, field
+from warnings import warn
 
 import numpy as np
 
@@ -146,7 +147,7 @@ class NosnocOpts:
 
         if self.time_freezing:
             if self.n_s < 3:
-                Warning("Problem might be illposed if n_s < 3 and time freezing")
+                warn("Problem might be illposed if n_s < 3 and time freezing")
             # TODO: Extend checks
 
         if self.max_iter_homotopy == 0:
@@ -178,17 +179,17 @@ class NosnocOpts:
         if (self.cross_comp_mode == CrossComplementarityMode.SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA
                 and self.mpcc_mode
                 in [MpccMode.FISCHER_BURMEISTER, MpccMode.FISCHER_BURMEISTER_IP_AUG]):
-            Warning(
+            warn(
                 "UNSUPPORTED option combination comp_mode: SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA and mpcc_mode: MpccMode.FISCHER_BURMEISTER"
             )
         if self.mpcc_mode == MpccMode.FISCHER_BURMEISTER and self.constraint_handling != ConstraintHandling.LEAST_SQUARES:
-            Warning(
+            warn(
                 "UNSUPPORTED option combination comp_mode: mpcc_mode == MpccMode.FISCHER_BURMEISTER and constraint_handling != ConstraintHandling.LEAST_SQUARES"
             )
         if (self.step_equilibration
                 in [StepEquilibrationMode.DIRECT, StepEquilibrationMode.DIRECT_COMPLEMENTARITY] and
                 self.constraint_handling != ConstraintHandling.LEAST_SQUARES):
-            Warning(
+            warn(
                 "UNSUPPORTED option combination: StepEquilibrationMode.DIRECT* and constraint_handling != ConstraintHandling.LEAST_SQUARES"
             )
         return
-- 
2.43.0


From efcb10f8c2b94b2d904ff8a6bc8c34e017c90560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 12/36] fix: let the simulation loop stop on failure

---
 nosnoc/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/helpers.py b/nosnoc/helpers.py
index 7d1e377..309b289 100644
--- a/nosnoc/helpers.py
+++ b/nosnoc/helpers.py
@@ -2,7 +2,7 @@ from typing import Optional
 
 import numpy as np
 from .solver import NosnocSolver
-from .nosnoc_types import SpeedOfTimeVariableMode
+from .nosnoc_types import SpeedOfTimeVariableMode, Status
 
 
 class NosnocSimLooper:
@@ -93,7 +93,7 @@ class NosnocSimLooper:
             if self.print_level > 0:
                 print(f"Sim step {i + 1}/{self.Nsim}\t status: {results['status']}")
 
-            if (stop_on_failure and results["status"] == "Infeasible_Problem_Detected"):
+            if (stop_on_failure and results["status"] != Status.SUCCESS):
                 return False
 
         return True
-- 
2.43.0


From 973d366fa8a54f45b0fd392f3b4a072da7f13235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 13/36] fix: allow step subsystems with different numbers of
 regions

---
 nosnoc/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 1d83e6e..2f50134 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -250,7 +250,7 @@ class NosnocModel:
                             upsilon_ij *= (0.5 * (1 - S_temp[j, k]) +
                                            S_temp[j, k] * alpha[ii][k])
                     upsilon_temp = ca.vertcat(upsilon_temp, upsilon_ij)
-                upsilon = ca.horzcat(upsilon, upsilon_temp)
+                upsilon.append(upsilon_temp)
 
         # start empty
         g_lift = ca.SX.zeros((0, 1))
@@ -288,7 +288,7 @@ class NosnocModel:
         elif opts.pss_mode == PssMode.STEP:
             for ii in range(n_sys):
                 if self.F is not None:
-                    f_x = f_x + self.F[ii] @ upsilon[:, ii]
+                    f_x = f_x + self.F[ii] @ upsilon[ii]
                     alpha_ii = alpha[ii]
                 else:
                     alpha_ii = self.alpha[ii]
-- 
2.43.0


From efcd1d2d0b0b39acba5d74d10dd85338e18f8af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 14/36] fix: refuse least squares handling of constraints with
 nonzero upper bound

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index f498ee6..7cecf05 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -855,7 +855,7 @@ class NosnocProblem(NosnocFormulationObject):
         if opts.constraint_handling == ConstraintHandling.LEAST_SQUARES:
             self.g_lsq = copy(self.g)
             for ii in range(casadi_length(self.g)):
-                if self.lbg[ii] != 0.0:
+                if self.lbg[ii] != 0.0 or self.ubg[ii] != 0.0:
                     raise Exception(
                         f"least_squares constraint handling only supported if all lbg, ubg == 0.0, got {self.lbg[ii]=}, {self.ubg[ii]=}, {self.g[ii]=}"
                     )
-- 
2.43.0


From 8d5661afc1c518c6d8ac0546748ab6b425137fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 15/36] fix: reject unsupported numbers of Gauss-Legendre
 stages explicitly

---
 nosnoc/rk_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/rk_utils.py b/nosnoc/rk_utils.py
index 5045996..361235b 100644
--- a/nosnoc/rk_utils.py
+++ b/nosnoc/rk_utils.py
@@ -1046,6 +1046,8 @@ def generate_butcher_tableu(n_s, irk_scheme):
                 0.918015553663318,
                 0.984080119753813,
             ])
+        else:
+            raise NotImplementedError()
 
     else:
         raise NotImplementedError()
-- 
2.43.0


From ed851cdf3776849e6fbb01c263830e2d01717e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 16/36] fix: exclude the left boundary from irk_time_points in
 integral representation

---
 nosnoc/nosnoc_opts.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nosnoc/nosnoc_opts.py b/nosnoc/nosnoc_opts.py
index 0246a8c..e5a4154 100644
--- a/nosnoc/nosnoc_opts.py
+++ b/nosnoc/nosnoc_opts.py
@@ -163,6 +163,7 @@ class NosnocOpts:
             self.B_irk = B_irk
             self.C_irk = C_irk
             self.D_irk = D_irk
+            irk_time_points = irk_time_points[1:]  # without the left boundary point
         elif (self.irk_representation
               in [IrkRepresentation.DIFFERENTIAL, IrkRepresentation.DIFFERENTIAL_LIFT_X]):
             A_irk, b_irk, irk_time_points, _ = generate_butcher_tableu(self.n_s, self.irk_scheme)
-- 
2.43.0


From c52f209d192c4b184616ab7892317165c64001f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 17/36] fix: initialize all finite elements with RK4_SMOOTHENED
 if Nfe_list is given

---
 nosnoc/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c556ff6..5e4a806 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -125,7 +125,7 @@ class NosnocSolverBase(ABC):
         elif opts.initialization_strategy == InitializationStrategy.RK4_SMOOTHENED:
             # print(f"updating w0 with RK4 smoothened")
             # NOTE: assume N_stages = 1 and STEWART
-            dt_fe = opts.terminal_time / (opts.N_stages * opts.N_finite_elements)
+            dt_fe = opts.terminal_time / (opts.N_stages * opts.Nfe_list[0])
             irk_time_grid = np.array(
                 [opts.irk_time_points[0]] +
                 [opts.irk_time_points[k] - opts.irk_time_points[k - 1] for k in range(1, opts.n_s)])
@@ -133,7 +133,7 @@ class NosnocSolverBase(ABC):
 
             x_rk4_current = x0
             db_updated_indices = list()
-            for i in range(opts.N_finite_elements):
+            for i in range(opts.Nfe_list[0]):
                 Xrk4 = rk4_on_timegrid(self.model.f_x_smooth_fun,
                                        x0=x_rk4_current,
                                        t_grid=rk4_t_grid)
-- 
2.43.0


From acb4f372c4a47ff2853cfd4ce657e16e3312e6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 18/36] fix: copy the initial guess instead of writing into the
 array of the caller

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 5e4a806..f2589cd 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -94,7 +94,7 @@ class NosnocSolverBase(ABC):
             else:
                 raise Exception('set for theta only implemented for value of shape (sum(Nfe_list), ntheta)')
         elif field == 'w':
-            prob.w0 = value
+            prob.w0 = np.array(value, dtype=float)
             if self.opts.initialization_strategy is not InitializationStrategy.EXTERNAL:
                 raise Warning(
                     'full initialization w might be overwritten due to InitializationStrategy != EXTERNAL.'
-- 
2.43.0


From 8e30ab431c1bcf8e1871fa02438ebf1702a7cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 19/36] fix: enforce nonnegative multipliers for two-sided
 elastic and boolean mode

---
 nosnoc/problem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 7cecf05..680d8c2 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -281,7 +281,8 @@ class FiniteElement(FiniteElementBase):
         else:
             self.h = h0
 
-        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ]:
+        if opts.mpcc_mode in [MpccMode.SCHOLTES_EQ, MpccMode.SCHOLTES_INEQ, MpccMode.ELASTIC_INEQ, MpccMode.ELASTIC_EQ,
+                              MpccMode.ELASTIC_TWO_SIDED, MpccMode.BOOLEAN]:
             lb_dual = 0.0
         else:
             lb_dual = -np.inf
-- 
2.43.0


From 03ebf04e200ab98b4ebc75a8843736a2bb70a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 20/36] fix: impose control stage complementarities for every
 element layout

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 680d8c2..a7b024a 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -541,7 +541,7 @@ class FiniteElement(FiniteElementBase):
             stage_comps = self.ocp.g_rk_comp_fun(X_fe[j], Uk, z, self.p, self.model.v_global)  # TODO maybe should include stage z
             a, b = ca.horzsplit(stage_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-        if self.fe_idx == opts.N_finite_elements-1:
+        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1:
             ctrl_comps = self.ocp.g_ctrl_comp_fun(Uk, self.p, self.model.v_global)
             a, b = ca.horzsplit(ctrl_comps)
             self.create_complementarity([a], b, sigma_p, tau, s_elastic)
-- 
2.43.0


From 1d16a272ae3578a6962c013d46e77e453042fc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 21/36] fix: impose stage path constraints also at explicit
 boundary stages

---
 nosnoc/problem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index a7b024a..a3dda1c 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -494,13 +494,15 @@ class FiniteElement(FiniteElementBase):
 
         # Generic path constraints
         end_allowance = 0 if opts.right_boundary_point_explicit else 1
-        if self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe:
+        g_path_at_end = self.fe_idx == opts.Nfe_list[self.ctrl_idx]-1 or opts.g_path_at_fe
+        if g_path_at_end:
             end_idx = opts.n_s + end_allowance - 1
             gqj = ocp.g_path_fun(X_fe[end_idx], Uk, self.p, model.v_global)
             self.add_constraint(gqj, ocp.lbg, ocp.ubg)
 
         if opts.g_path_at_stg:
-            end_allowance = 1 if opts.right_boundary_point_explicit else 0
+            # NOTE: the last stage might already be covered as boundary point
+            end_allowance = 1 if opts.right_boundary_point_explicit and g_path_at_end else 0
             for j in range(opts.n_s - end_allowance):
                 gqj = ocp.g_path_fun(X_fe[j], Uk, self.p, model.v_global)
                 self.add_constraint(gqj, ocp.lbg, ocp.ubg)
-- 
2.43.0


From 0cec7b7fd07b194f4699959af6835b7fffd68236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 22/36] fix: flag initial guesses above their upper bound in
 print

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index a3dda1c..005e79b 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -880,7 +880,7 @@ class NosnocProblem(NosnocFormulationObject):
             if self.lbw[i] > self.ubw[i]:
                 extra_info = " BOUND ERROR!"
                 errors += 1
-            elif self.w0[i] < self.lbw[i] or self.ubw[i] > self.ubw[i]:
+            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:
                 extra_info = " W0 ERROR!"
                 errors += 1
 
-- 
2.43.0


From 3818c4c71a491bea364f50efae373cc401a232af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 23/36] fix: honour use_upper_bound_h

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index 005e79b..f9d5a7e 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -275,7 +275,7 @@ class FiniteElement(FiniteElementBase):
         h0 = np.array([h_ctrl_stage / np.array(opts.Nfe_list[ctrl_idx])])
         if opts.use_fesd:
             self.h = ca.SX.sym(f'h_{ctrl_idx}_{fe_idx}')
-            ubh = (1 + opts.gamma_h) * h0
+            ubh = (1 + opts.gamma_h) * h0 if opts.use_upper_bound_h else np.inf * np.ones(1)
             lbh = (1 - opts.gamma_h) * h0
             self.add_step_size_variable(self.h, lbh, ubh, h0)
         else:
-- 
2.43.0


From 3e041a9c8858c366d1be03c3d89d6cd43e4d7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 24/36] fix: pair all detected switching functions with the
 multipliers of the automatic model

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9b9c05a..9c06053 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -57,7 +57,7 @@ class NosnocAutoModel:
         """
         if self._detect_additive():
             self._reformulate_nonlin()
-            return NosnocModel(x=self.x, f_x=[self.f], c=self.c, alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
+            return NosnocModel(x=self.x, f_x=[self.f], c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)], x0=self.x0, u=self.u)
         else:
             self._reformulate_linear()
             return NosnocModel(x=self.x, F=self.F, c=self.c, S=self.S, x0=self.x0, u=self.u)
-- 
2.43.0


From 24ae1ebd93c21b2bb4c99b42a6d2097016ccc3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 25/36] fix: return three values and one sign convention when
 rebuilding a minimum

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 9c06053..486b909 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -147,7 +147,7 @@ class NosnocAutoModel:
             if node.is_op(ca.OP_FMAX):
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
-                return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[-1], [1]]), node.dep(0)-node.dep(1), np.array([[-1], [1]])
+                return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
-- 
2.43.0


From df50a71d6aad2de143cd01d5cbd41a9539d8b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 26/36] fix: do not count dynamics twice if a switching
 function occurs in several components

---
 nosnoc/auto_model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 486b909..d0bd217 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -102,14 +102,14 @@ class NosnocAutoModel:
                 comps = collated[c_str]
                 f_ij = [ca.SX(0), ca.SX(0)]
                 for f, c, S in comps:
-                    cS_map[c] = S
+                    cS_map[c_str] = (c, S)
                     f_ij[0] += f[0]
                     f_ij[1] += f[1]
                 f_i[c_str] = ca.horzcat(*f_ij)
             fs.append(f_i)
 
-        for c, S in cS_map.items():
-            self.F.append(casadi_vertcat_list([f_i[c.str()] for f_i in fs]))
+        for c_str, (c, S) in cS_map.items():
+            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))
             self.c.append(c)
             self.S.append(S)
         self.F[0][:, 0] += f_common
-- 
2.43.0


From aba89a34569cd64c72c810818bcfe9175aadea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 27/36] fix: allow rows without smooth components in the
 automatic model

---
 nosnoc/auto_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index d0bd217..f14bd54 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -80,7 +80,7 @@ class NosnocAutoModel:
             nsm.append(nonsmooth_components)
             sm.append(smooth_components)
         # each smooth component is part of the common dynamics this is added to the first element
-        f_common = casadi_vertcat_list([casadi_sum_list(f) for f in sm])
+        f_common = casadi_vertcat_list([casadi_sum_list(f) if f else ca.SX(0) for f in sm])
 
         # Extract all the Additive components and categorize them by switching function
         collated_components = []
-- 
2.43.0


From 6a6841245ec7014eb8f72bfe4416f605f76c627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 28/36] fix: reject components with several switching functions
 instead of dropping some

---
 nosnoc/auto_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index f14bd54..2b7e024 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -152,6 +152,8 @@ class NosnocAutoModel:
                 # binary operator
                 l_children, l_c, l_S = self._rebuild_additive_component(node.dep(0))
                 r_children, r_c, r_S = self._rebuild_additive_component(node.dep(1))
+                if l_c is not None and r_c is not None:
+                    raise NotImplementedError('products of switching functions are not supported.')
                 c = l_c if l_c is not None else r_c
                 S = l_S if l_S is not None else r_S
                 return [ca.SX.binary(node.op(), lc, rc) for lc, rc in product(l_children, r_children)], c, S
-- 
2.43.0


From 65d19dc2a8dc98385b7f2b9f099f03f4905f6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 29/36] fix: reject nested nonsmooth functions in the automatic
 model

---
 nosnoc/auto_model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nosnoc/auto_model.py b/nosnoc/auto_model.py
index 2b7e024..9c7748b 100644
--- a/nosnoc/auto_model.py
+++ b/nosnoc/auto_model.py
@@ -138,6 +138,7 @@ class NosnocAutoModel:
         elif node.n_dep() == 1:
             # unary operator
             if node.is_op(ca.OP_SIGN):
+                self._require_smooth(node.dep(0))
                 return [ca.SX(1), ca.SX(-1)], node.dep(0), np.array([[1], [-1]])
             else:
                 # In this case do nothing
@@ -145,8 +146,10 @@ class NosnocAutoModel:
                 return [ca.SX.unary(node.op(), child) for child in children], c, S
         else:
             if node.is_op(ca.OP_FMAX):
+                self._require_smooth(node.dep(0), node.dep(1))
                 return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             elif node.is_op(ca.OP_FMIN):
+                self._require_smooth(node.dep(0), node.dep(1))
                 return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1), np.array([[1], [-1]])
             else:
                 # binary operator
@@ -165,6 +168,7 @@ class NosnocAutoModel:
         elif node.n_dep() == 1:
             # unary operator
             if node.is_op(ca.OP_SIGN):
+                self._require_smooth(node.dep(0))
                 # TODO need to process multiple layers, i.e. a nonsmooth function of nonsmooth inputs. Not handled for now
                 #      but may be useful to detect at least.
 
@@ -184,6 +188,7 @@ class NosnocAutoModel:
             # TODO: add more switching functions
         else:
             if node.is_op(ca.OP_FMAX):
+                self._require_smooth(node.dep(0), node.dep(1))
                 # get c and alpha for this nonsmoothness
                 alpha, fresh = self._find_matching_expr_nonlin(node.dep(0)-node.dep(1))
                 if fresh:
@@ -194,6 +199,7 @@ class NosnocAutoModel:
                 eq_expr = alpha*node.dep(0) + (1-alpha)*node.dep(1)
                 return eq_expr
             elif node.is_op(ca.OP_FMIN):
+                self._require_smooth(node.dep(0), node.dep(1))
                 # get c and alpha for this nonsmoothness
                 alpha, fresh = self._find_matching_expr_nonlin(node.dep(0)-node.dep(1))
                 if fresh:
@@ -219,6 +225,10 @@ class NosnocAutoModel:
             # create a fresh alpha
             return ca.SX.sym(f'alpha_{len(self.alpha)}'), True
 
+    def _require_smooth(self, *nodes: ca.SX) -> None:
+        if not all(self._check_smooth(node) for node in nodes):
+            raise NotImplementedError('nested nonsmooth functions are not supported.')
+
     def _check_additive(self, node: ca.SX) -> bool:
         if node.n_dep() == 1:
             # If negated go down one level
-- 
2.43.0


From 44829c4f80c5bbf035ab1dd5c993e0f78776c79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 30/36] fix: define the vector field function used by
 create_function_calculate_vector_field

---
 nosnoc/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index f2589cd..dca9f12 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -274,6 +274,9 @@ class NosnocSolverBase(ABC):
         if self.opts.pss_mode != PssMode.STEWART:
             raise NotImplementedError()
 
+        model = self.model
+        F_fun = ca.Function('F_fun', [model.x, model.z, model.u, model.p, model.v_global],
+                            [ca.horzcat(*model.F)])
         shape = self.model.g_Stewart_fun.size_out(0)
         g = ca.SX.sym('g', shape[0])
         mu = ca.SX.sym('mu', 1)
@@ -289,7 +292,7 @@ class NosnocSolverBase(ABC):
         def fun(x, u, z=[0]):
             g  = self.model.g_Stewart_fun(x, z, p)
             theta = theta_fun(0, g)[:-1]
-            F = self.model.F_fun(x, u, p, v)
+            F = F_fun(x, z, u, p, v)
             return np.dot(F, theta)
 
         return fun
-- 
2.43.0


From a347883476e371027d17b4a5003107498f2d0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 31/36] fix: provide the mu_list needed by plot_iterates

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index dca9f12..312c6ec 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -490,7 +490,7 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
 
     results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
     results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
-    # results["mu_list"] = [w_opt[ind] for ind in ind_mu_all]
+    results["mu_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_mu)]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
         w_opt[flatten_layer(ind)] for ind in get_cont_algebraic_indices(prob.ind_alpha)
-- 
2.43.0


From cc9a9bccd589717579abc026e102bd8f194c0d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:45 +0000
Subject: [PATCH 32/36] fix: allow dumping problems with least squares
 constraint handling

---
 nosnoc/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/problem.py b/nosnoc/problem.py
index f9d5a7e..fee112a 100644
--- a/nosnoc/problem.py
+++ b/nosnoc/problem.py
@@ -908,7 +908,7 @@ class NosnocProblem(NosnocFormulationObject):
             data = {
                 key: self.__dict__[key] for key in self.__dict__
                 if key not in [
-                    "w", "p", "cost", "g", "model", "ocp", "stages", "fe0"
+                    "w", "p", "cost", "g", "g_lsq", "model", "ocp", "stages", "fe0"
                 ]
             }
             data["f"] = ca.Function("f", [self.w, self.p], [self.cost])
-- 
2.43.0


From b26d107e79a9922ee2df6d75e0cceb00285269d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 33/36] fix: collect the results of subsystems with different
 numbers of regions

---
 nosnoc/solver.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 312c6ec..53f81bf 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -473,6 +473,13 @@ class NosnocSolver(NosnocSolverBase):
         return results
 
 
+def get_sys_values(w_opt: np.ndarray, ind_sys: list) -> np.ndarray:
+    """Values of all subsystems: one row per subsystem if all have equal size, flat otherwise."""
+    if any(len(ind) != len(ind_sys[0]) for ind in ind_sys):
+        return w_opt[flatten(ind_sys)]
+    return w_opt[ind_sys]
+
+
 def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> dict:
     opts = prob.opts
 
@@ -488,8 +495,12 @@ def get_results_from_primal_vector(prob: NosnocProblem, w_opt: np.ndarray) -> di
     if opts.speed_of_time_variables != SpeedOfTimeVariableMode.NONE:
         results["sot"] = [w_opt[ind] for ind in prob.ind_sot]
 
-    results["theta_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_theta)]
-    results["lambda_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_lam)]
+    results["theta_list"] = [
+        get_sys_values(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_theta)
+    ]
+    results["lambda_list"] = [
+        get_sys_values(w_opt, ind) for ind in get_cont_algebraic_indices(prob.ind_lam)
+    ]
     results["mu_list"] = [w_opt[ind] for ind in get_cont_algebraic_indices(prob.ind_mu)]
     # if opts.pss_mode == PssMode.STEP:
     results["alpha_list"] = [
-- 
2.43.0


From 8b55aee6f3021630d866c8a954f8e592a5f63b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:49 +0000
Subject: [PATCH 34/36] fix: reject sign matrices and switching functions of
 inconsistent size

---
 nosnoc/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nosnoc/model.py b/nosnoc/model.py
index 2f50134..9846214 100644
--- a/nosnoc/model.py
+++ b/nosnoc/model.py
@@ -166,10 +166,14 @@ class NosnocModel:
                     raise ValueError("model.S should be a list.")
                 if len(self.c) != len(self.S):
                     raise ValueError("model.c and model.S should have the same length!")
+                if len(self.F) != len(self.S):
+                    raise ValueError("model.F and model.S should have the same length!")
                 for i, (fi, Si) in enumerate(zip(self.F, self.S)):
                     if fi.shape[1] != Si.shape[0]:
                         raise ValueError(
                             f"model.F item {i} and S {i} should have the same number of columns")
+                    if Si.shape[1] != n_c_sys[i]:
+                        raise ValueError(f"model.S item {i} should have one column per entry of model.c")
         else:  # Only check Step because Stewart is not allowed for general inclusions
             if opts.pss_mode == PssMode.STEWART:
                 raise ValueError("model formulation with general inclusions using model.f_x is not supported with PssMode.STEWART")
-- 
2.43.0


From c3178c5bf1809f8f577d08d5974bda55bf2b5cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:08 +0000
Subject: [PATCH 35/36] fix: sign in the Fischer-Burmeister function of the
 vector field helper

---
 nosnoc/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index 53f81bf..c031b9b 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -285,7 +285,7 @@ class NosnocSolverBase(ABC):
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
-                ca.sqrt(lam * lam - theta*theta + sigma*sigma) - (lam + theta),
+                ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
                 ca.sum1(theta)-1
             )
         ))
-- 
2.43.0


From 6b3ebcbbff1fbdba835dc7da3f805841afcd8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:18 +0000
Subject: [PATCH 36/36] fix: vector field helper of models with several
 subsystems

---
 nosnoc/solver.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nosnoc/solver.py b/nosnoc/solver.py
index c031b9b..f2a04fd 100644
--- a/nosnoc/solver.py
+++ b/nosnoc/solver.py
@@ -279,19 +279,20 @@ class NosnocSolverBase(ABC):
                             [ca.horzcat(*model.F)])
         shape = self.model.g_Stewart_fun.size_out(0)
         g = ca.SX.sym('g', shape[0])
-        mu = ca.SX.sym('mu', 1)
+        n_f_sys, n_sys = model.dims.n_f_sys, model.dims.n_sys
+        mu = ca.SX.sym('mu', n_sys)
         theta = ca.SX.sym('theta', shape[0])
-        lam = g - mu * np.ones(shape)
+        lam = g - ca.vertcat(*[mu[ii] * np.ones(n_f_sys[ii]) for ii in range(n_sys)])
         theta_fun = ca.rootfinder("lambda_fun", "newton", dict(
             x=ca.vertcat(theta, mu), p=g,
             g=ca.vertcat(
                 ca.sqrt(lam * lam + theta*theta + sigma*sigma) - (lam + theta),
-                ca.sum1(theta)-1
+                *[ca.sum1(theta[sum(n_f_sys[:ii]):sum(n_f_sys[:ii + 1])]) - 1 for ii in range(n_sys)]
             )
         ))
         def fun(x, u, z=[0]):
             g  = self.model.g_Stewart_fun(x, z, p)
-            theta = theta_fun(0, g)[:-1]
+            theta = theta_fun(0, g)[:shape[0]]
             F = F_fun(x, z, u, p, v)
             return np.dot(F, theta)
 
-- 
2.43.0


From 554641f4de04ed4dd9999686ba32f4ca62940146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:16 +0000
Subject: [PATCH 01/27] fix: accept exactly the documented values for
 cost_ext_fun_type_e

---
 interfaces/acados_template/acados_template/acados_ocp_cost.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_cost.py b/interfaces/acados_template/acados_template/acados_ocp_cost.py
index e4b6afe..ab681b0 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_cost.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_cost.py
@@ -488,7 +488,7 @@ class AcadosOcpCost:
 
     @cost_ext_fun_type_e.setter
     def cost_ext_fun_type_e(self, cost_ext_fun_type_e):
-        if cost_ext_fun_type_e in self.__cost_ext_fun_type:
+        if cost_ext_fun_type_e in self.__cost_ext_fun_types:
             self.__cost_ext_fun_type_e = cost_ext_fun_type_e
         else:
             raise ValueError('Invalid cost_ext_fun_type value. Possible values are:\n\n' \
-- 
2.43.0


From 554e0903a2d891524768fbf96fe8e91c463c951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:16 +0000
Subject: [PATCH 02/27] fix: globalization_fixed_step_length must be a float in
 [0, 1]

---
 .../acados_template/acados_template/acados_ocp_options.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index f8bada2..75d5286 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -583,7 +583,7 @@ class AcadosOcpOptions:
 
     @globalization_fixed_step_length.setter
     def globalization_fixed_step_length(self, globalization_fixed_step_length):
-        if isinstance(globalization_fixed_step_length, float) and globalization_fixed_step_length >= 0 or globalization_fixed_step_length <= 1.0:
+        if isinstance(globalization_fixed_step_length, float) and globalization_fixed_step_length >= 0 and globalization_fixed_step_length <= 1.0:
             self.__globalization_fixed_step_length = globalization_fixed_step_length
         else:
             raise ValueError('Invalid globalization_fixed_step_length value. globalization_fixed_step_length must be a float in [0, 1].')
-- 
2.43.0


From 0a660b47c61c7b6147ed5d1c02fd692db9303ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:59 +0000
Subject: [PATCH 03/27] fix: complementarity residual used a stale value at
 stages without inequalities if tau_min is nonzero

---
 acados/ocp_nlp/ocp_nlp_common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d708b51..fc8b10b 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3767,6 +3767,11 @@ void ocp_nlp_res_compute(ocp_nlp_dims *dims, ocp_nlp_opts *opts, ocp_nlp_in *in,
             blasfeo_dvecnrm_inf(2 * ni[i], res->res_comp + i, 0, &tmp_res);
             blasfeo_dvecse(1, tmp_res, &res->tmp, i);
             }
+            else
+            {
+                // no inequalities at this stage
+                blasfeo_dvecse(1, 0.0, &res->tmp, i);
+            }
         }
     }
     else
-- 
2.43.0


From 556e8d07cfecf0693b688b5a61992a25d292b153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:46 +0000
Subject: [PATCH 04/27] fix: ocp_nlp_res tmp vector is indexed up to N but had
 only N elements

---
 acados/ocp_nlp/ocp_nlp_common.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index fc8b10b..36299fd 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -3600,7 +3600,7 @@ acados_size_t ocp_nlp_res_calculate_size(ocp_nlp_dims *dims)
     size += 1 * blasfeo_memsize_dvec(nv[N]);      // res_stat
     size += 2 * blasfeo_memsize_dvec(2 * ni[N]);  // res_ineq res_comp
 
-    size += 1 * blasfeo_memsize_dvec(N);      // tmp
+    size += 1 * blasfeo_memsize_dvec(N + 1);  // tmp
 
     size += 8;   // initial align
     size += 8;   // blasfeo_struct align
@@ -3666,7 +3666,7 @@ ocp_nlp_res *ocp_nlp_res_assign(ocp_nlp_dims *dims, void *raw_memory)
         assign_and_advance_blasfeo_dvec_mem(2 * ni[i], res->res_comp + i, &c_ptr);
     }
 
-    assign_and_advance_blasfeo_dvec_mem(N, &res->tmp, &c_ptr);
+    assign_and_advance_blasfeo_dvec_mem(N + 1, &res->tmp, &c_ptr);
 
     res->memsize = ocp_nlp_res_calculate_size(dims);
 
-- 
2.43.0


From 1b4612b085fece17f413c2ffd06247d9965c4e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:23 +0000
Subject: [PATCH 05/27] fix: DDP trial iterate used the wrong structure for
 full_step_dual and scaled the destination's multipliers

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index e9349b8..1509e37 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -354,7 +354,6 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
     int *ni = dims->ni;
     int *nz = dims->nz;
 
-    ocp_nlp_globalization_opts *globalization_opts = opts->globalization;
     struct blasfeo_dvec *tmp_vec;
     ocp_qp_xcond_solver_config *xcond_solver_config = config->qp_solver;
 
@@ -399,7 +398,7 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
     for (i = 0; i < N+1; i++)
     {
         // update dual variables
-        if (globalization_opts->full_step_dual)
+        if (full_step_dual)
         {
             blasfeo_dveccp(2*ni[i], qp_out->lam+i, 0, out_destination->lam+i, 0);
             if (i < N)
@@ -410,12 +409,10 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
         else
         {
             // update duals with alpha step
-            blasfeo_dvecsc(2*ni[i], 1.0-alpha, out_destination->lam+i, 0);
-            blasfeo_daxpy(2*ni[i], alpha, qp_out->lam+i, 0, out_destination->lam+i, 0, out_destination->lam+i, 0);
+            blasfeo_daxpby(2*ni[i], 1.0-alpha, out->lam+i, 0, alpha, qp_out->lam+i, 0, out_destination->lam+i, 0);
             if (i < N)
             {
-                blasfeo_dvecsc(nx[i+1], 1.0-alpha, out_destination->pi+i, 0);
-                blasfeo_daxpy(nx[i+1], alpha, qp_out->pi+i, 0, out_destination->pi+i, 0, out_destination->pi+i, 0);
+                blasfeo_daxpby(nx[i+1], 1.0-alpha, out->pi+i, 0, alpha, qp_out->pi+i, 0, out_destination->pi+i, 0);
             }
         }
 
-- 
2.43.0


From e20999e1c8f25f88d52bcea84b14b39d026a0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 06/27] fix: check the number of columns of Vz_0, Vz and C_e

---
 interfaces/acados_template/acados_template/acados_ocp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 1402b8d..75544d3 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -300,6 +300,8 @@ class AcadosOcp:
                 raise ValueError('inconsistent dimension: Vx_0 should have nx columns.')
             if cost.Vu_0.shape[1] != dims.nu and ny_0 != 0:
                 raise ValueError('inconsistent dimension: Vu_0 should have nu columns.')
+            if dims.nz != 0 and cost.Vz_0.shape[1] != dims.nz and ny_0 != 0:
+                raise ValueError('inconsistent dimension: Vz_0 should have nz columns.')
             if cost.yref_0.shape[0] != ny_0:
                 raise ValueError('inconsistent dimension: regarding W_0, yref_0.' + \
                                 f'\nGot W_0[{cost.W_0.shape}], yref_0[{cost.yref_0.shape}]\n')
@@ -373,6 +375,8 @@ class AcadosOcp:
                 raise ValueError('inconsistent dimension: Vx should have nx columns.')
             if cost.Vu.shape[1] != dims.nu and ny != 0:
                 raise ValueError('inconsistent dimension: Vu should have nu columns.')
+            if dims.nz != 0 and cost.Vz.shape[1] != dims.nz and ny != 0:
+                raise ValueError('inconsistent dimension: Vz should have nz columns.')
             if cost.yref.shape[0] != ny:
                 raise ValueError('inconsistent dimension: regarding W, yref.' + \
                                 f'\nGot W[{cost.W.shape}], yref[{cost.yref.shape}]\n')
@@ -602,6 +606,9 @@ class AcadosOcp:
         else:
             dims.ng_e = ng_e
 
+        if ng_e > 0 and constraints.C_e.shape[1] != dims.nx:
+            raise ValueError(f'inconsistent dimension nx, regarding C_e, got C_e.shape[1] = {constraints.C_e.shape[1]}.')
+
         nh_e = 0 if is_empty(model.con_h_expr_e) else casadi_length(model.con_h_expr_e)
 
         if constraints.uh_e.shape[0] != nh_e or constraints.lh_e.shape[0] != nh_e:
-- 
2.43.0


From 1e3f0e136020586790ebb5565b491e3fb0955bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 07/27] fix: reject negative constraint indices

---
 interfaces/acados_template/acados_template/acados_ocp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 75544d3..9903b25 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1190,6 +1190,14 @@ class AcadosOcp:
         if opts.qp_solver == 'PARTIAL_CONDENSING_QPDUNES':
             self.remove_x0_elimination()
 
+        # indices have to be nonnegative
+        idx_fields = ['idxbx_e', 'idxsbx_e', 'idxsg_e', 'idxsh_e', 'idxsphi_e']
+        if opts.N_horizon > 0:
+            idx_fields += ['idxbx_0', 'idxbxe_0', 'idxbx', 'idxbu', 'idxsbx', 'idxsbu', 'idxsg', 'idxsh_0', 'idxsh', 'idxsphi_0', 'idxsphi']
+        for field in idx_fields:
+            if any(getattr(constraints, field) < 0):
+                raise ValueError(f'{field} = {getattr(constraints, field)} contains negative values.')
+
         self._make_consistent_constraints_initial()
         self._make_consistent_constraints_path()
         self._make_consistent_constraints_terminal()
-- 
2.43.0


From 2d205b4bb0486e2ff723345fc7450cd38ab8a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 08/27] fix: reject time_steps that sum up to less than tf or
 are not of length N

---
 interfaces/acados_template/acados_template/acados_ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 9903b25..f57e992 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1007,6 +1007,8 @@ class AcadosOcp:
             opts.shooting_nodes = np.concatenate((np.array([0.]), np.cumsum(opts.time_steps)))
 
         elif not is_empty(opts.time_steps):
+            if np.shape(opts.time_steps)[0] != opts.N_horizon:
+                raise ValueError('inconsistent dimension N, regarding time_steps.')
             # compute shooting nodes from time_steps for convenience
             opts.shooting_nodes = np.concatenate((np.array([0.]), np.cumsum(opts.time_steps)))
 
@@ -1026,7 +1028,7 @@ class AcadosOcp:
             opts.time_steps = time_steps
 
         tf = np.sum(opts.time_steps)
-        if (tf - opts.tf) / tf > 1e-13:
+        if abs((tf - opts.tf) / tf) > 1e-13:
             raise ValueError(f'Inconsistent discretization: {opts.tf}'
                 f' = tf != sum(opts.time_steps) = {tf}.')
 
-- 
2.43.0


From d05bcde13374bbaa4e37cfdaa823ea890b6b2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 09/27] fix: one-sided initial nonlinear constraints are also
 rejected for QP solvers without support

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index f57e992..c8b25e5 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1236,7 +1236,7 @@ class AcadosOcp:
         if opts.qp_solver not in ["PARTIAL_CONDENSING_HPIPM", "FULL_CONDENSING_HPIPM", "FULL_CONDENSING_DAQP"]:
             # loop over all bound vectors
             if opts.N_horizon > 0:
-                fields_to_check = ['lbx_0', 'ubx_0', 'lbx', 'ubx', 'lbx_e', 'ubx_e', 'lg', 'ug', 'lg_e', 'ug_e', 'lh', 'uh', 'lh_e', 'uh_e', 'lbu', 'ubu', 'lphi', 'uphi', 'lphi_e', 'uphi_e']
+                fields_to_check = ['lbx_0', 'ubx_0', 'lbx', 'ubx', 'lbx_e', 'ubx_e', 'lg', 'ug', 'lg_e', 'ug_e', 'lh_0', 'uh_0', 'lh', 'uh', 'lh_e', 'uh_e', 'lbu', 'ubu', 'lphi_0', 'uphi_0', 'lphi', 'uphi', 'lphi_e', 'uphi_e']
             else:
                 fields_to_check = ['lbx_0', 'ubx_0', 'lbx_e', 'ubx_e', 'lg_e', 'ug_e', 'lh_e', 'uh_e', 'lphi_e', 'uphi_e']
             for field in fields_to_check:
-- 
2.43.0


From aef41298dd0a7d04e940a125d60bf49ff2c069eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:54 +0000
Subject: [PATCH 10/27] fix: compare idxbxe_0 with 0:nx without broadcasting

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index c8b25e5..c2a4b5a 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -501,7 +501,7 @@ class AcadosOcp:
         if constraints.has_x0 and dims.nbx_0 != dims.nx:
             raise ValueError(f"x0 should have shape nx = {dims.nx}.")
 
-        if constraints.has_x0 and not np.all(constraints.idxbxe_0 == np.arange(dims.nx)):
+        if constraints.has_x0 and not np.array_equal(constraints.idxbxe_0, np.arange(dims.nx)):
             raise ValueError(f"idxbxe_0 should be 0:{dims.nx} if x0 is set.")
 
         dims.nbxe_0 = constraints.idxbxe_0.shape[0]
-- 
2.43.0


From ceb2fb12e01c0879613afac350cd2db0834a117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:05 +0000
Subject: [PATCH 11/27] fix: cost expression of CONVEX_OVER_NONLINEAR costs
 ignored yref

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index c2a4b5a..eef863e 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2676,7 +2676,7 @@ class AcadosOcp:
             psi_expr = getattr(self.model, f"cost_psi_expr{suffix}")
             r_in_psi_expr = getattr(self.model, f"cost_r_in_psi_expr{suffix}")
             y_expr = getattr(self.model, f"cost_y_expr{suffix}")
-            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr)
+            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr - yref)
 
         else:
             raise ValueError(f"Unknown cost type {cost_type}.")
-- 
2.43.0


From 70ac3ca6f56de040f5cd2afb5699bd13682a0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:05 +0000
Subject: [PATCH 12/27] fix: copying the path cost to stage 0 also copies the
 custom outer Hessian

---
 interfaces/acados_template/acados_template/acados_ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index eef863e..56abb46 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1763,6 +1763,7 @@ class AcadosOcp:
         model.cost_expr_ext_cost_custom_hess_0 = model.cost_expr_ext_cost_custom_hess
         model.cost_psi_expr_0 = model.cost_psi_expr
         model.cost_r_in_psi_expr_0 = model.cost_r_in_psi_expr
+        model.cost_conl_custom_outer_hess_0 = model.cost_conl_custom_outer_hess
         return
 
     def translate_nls_cost_to_conl(self):
-- 
2.43.0


From 3bf288176e3076a6802749d4fe378b4d8f0bf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:05 +0000
Subject: [PATCH 13/27] fix: translate_to_feasibility_problem dropped the
 general linear constraints

---
 interfaces/acados_template/acados_template/acados_ocp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 56abb46..b9c28b1 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2311,6 +2311,9 @@ class AcadosOcp:
             (model.u[constraints.idxbu], constraints.lbu, constraints.ubu),
             (model.con_h_expr, constraints.lh, constraints.uh),
         ]
+        if len(constraints.lg) > 0:
+            g_expr = ca.sparsify(ca.DM(constraints.C)) @ model.x + ca.sparsify(ca.DM(constraints.D)) @ model.u
+            expr_bound_list.append((g_expr, constraints.lg, constraints.ug))
 
         if casadi_length(model.con_phi_expr) > 0:
             phi_o_r_expr = ca.substitute(model.con_phi_expr, model.con_r_in_phi, model.con_r_expr)
@@ -2326,6 +2329,8 @@ class AcadosOcp:
             (model.x[constraints.idxbx_e], constraints.lbx_e, constraints.ubx_e),
             (model.con_h_expr_e, constraints.lh_e, constraints.uh_e),
         ]
+        if len(constraints.lg_e) > 0:
+            expr_bound_list_e.append((ca.sparsify(ca.DM(constraints.C_e)) @ model.x, constraints.lg_e, constraints.ug_e))
 
         if casadi_length(model.con_phi_expr_e) > 0:
             phi_o_r_expr_e = ca.substitute(model.con_phi_expr_e, model.con_r_in_phi_e, model.con_r_expr_e)
@@ -2342,6 +2347,8 @@ class AcadosOcp:
             (model.u[constraints.idxbu], constraints.lbu, constraints.ubu),
             (model.con_h_expr_0, constraints.lh_0, constraints.uh_0),
         ]
+        if len(constraints.lg) > 0:
+            expr_bound_list_0.append((g_expr, constraints.lg, constraints.ug))
 
         # initial state constraint
         if (keep_x0 or parametric_x0) and not constraints.has_x0:
-- 
2.43.0


From a87d2464a082746cee728a21d6dedd9b5e85a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:11 +0000
Subject: [PATCH 14/27] fix: Jacobian of the constraint h with respect to z has
 to be exported transposed

The C side (ocp_nlp_constraints_bgh) expects a matrix of size nz x nh, as for ux;
the untransposed Jacobian is misread whenever nh or nz differ from 1. The MATLAB
interface already exports the transposed Jacobian.
---
 .../acados_template/casadi_function_generation.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/casadi_function_generation.py b/interfaces/acados_template/acados_template/casadi_function_generation.py
index a8093b0..c359a91 100644
--- a/interfaces/acados_template/acados_template/casadi_function_generation.py
+++ b/interfaces/acados_template/acados_template/casadi_function_generation.py
@@ -780,7 +780,7 @@ def generate_c_code_constraint(context: GenerateContext, model: AcadosModel, con
             fun_name = model.name + '_constr_h_fun_jac_uxt_zt'
 
         jac_ux_t = ca.transpose(ca.jacobian(con_h_expr, ca.vertcat(u,x)))
-        jac_z_t = ca.jacobian(con_h_expr, z)
+        jac_z_t = ca.transpose(ca.jacobian(con_h_expr, z))
         context.add_function_definition(fun_name, [x, u, z, p], \
                 [con_h_expr, jac_ux_t, jac_z_t], constraints_dir, 'constr')
 
-- 
2.43.0


From 940b5902ceec8e97368a64763e414516139a918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:22 +0000
Subject: [PATCH 15/27] fix: Vz of the nonlinear least-squares cost holds a
 matrix of size ny x nz

The external function writes, and dgemm_nt reads, ny rows and nz columns, while
nz x ny was allocated: with ny > nz the following workspace matrix was overwritten.
---
 acados/ocp_nlp/ocp_nlp_cost_nls.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 200d0bd..8897eaa 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -711,7 +711,7 @@ acados_size_t ocp_nlp_cost_nls_workspace_calculate_size(void *config_, void *dim
     size += 1 * blasfeo_memsize_dmat(nu + nx, ny);       // tmp_nv_ny
     size += 1 * blasfeo_memsize_dmat(nu + nx, nu + nx);  // tmp_nv_nv
     size += 1 * blasfeo_memsize_dmat(nu + nx, ny);  // Cyt_tilde
-    size += 1 * blasfeo_memsize_dmat(nz, ny);           // Vz
+    size += 1 * blasfeo_memsize_dmat(ny, nz);           // Vz
     size += 1 * blasfeo_memsize_dvec(ny);                // tmp_ny
     size += 1 * blasfeo_memsize_dvec(2*ns);              // tmp_2ns
     size += 1 * blasfeo_memsize_dvec(nz);           // tmp_nz
@@ -749,7 +749,7 @@ static void ocp_nlp_cost_nls_cast_workspace(void *config_, void *dims_, void *op
     assign_and_advance_blasfeo_dmat_mem(nu + nx, nu + nx, &work->tmp_nv_nv, &c_ptr);
 
     // Vz
-    assign_and_advance_blasfeo_dmat_mem(nz, ny, &work->Vz, &c_ptr);
+    assign_and_advance_blasfeo_dmat_mem(ny, nz, &work->Vz, &c_ptr);
 
     // Cyt_tilde
     assign_and_advance_blasfeo_dmat_mem(nu + nx, ny, &work->Cyt_tilde, &c_ptr);
-- 
2.43.0


From 69be0d78b96b8acd5f917002c306e49a16e02d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:03 +0000
Subject: [PATCH 16/27] fix: size of Vz in the linear least-squares cost model
 was computed for the transposed matrix

---
 acados/ocp_nlp/ocp_nlp_cost_ls.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index e2b5442..1b5293e 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -173,7 +173,7 @@ acados_size_t ocp_nlp_cost_ls_model_calculate_size(void *config_, void *dims_)
 
     size += 1 * blasfeo_memsize_dmat(ny, ny);           // W
     size += 1 * blasfeo_memsize_dmat(nu + nx, ny);      // Cyt
-    size += 1 * blasfeo_memsize_dmat(nz, ny);           // Vz
+    size += 1 * blasfeo_memsize_dmat(ny, nz);           // Vz
     size += 1 * blasfeo_memsize_dvec(ny);               // y_ref
     size += 2 * blasfeo_memsize_dvec(2 * ns);           // Z, z
     make_int_multiple_of(8, &size);
-- 
2.43.0


From 6878b248a7d9fcdd884c8d9378eb2d3bc10eb41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:52 +0000
Subject: [PATCH 17/27] fix: sizes of dims and opts structures are multiples of
 8, the structures placed behind them were misaligned

---
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 2 ++
 acados/ocp_nlp/ocp_nlp_cost_conl.c       | 2 ++
 acados/ocp_nlp/ocp_nlp_cost_nls.c        | 2 ++
 acados/ocp_nlp/ocp_nlp_dynamics_disc.c   | 2 ++
 acados/ocp_nlp/ocp_nlp_reg_common.c      | 3 +++
 acados/sim/sim_irk_integrator.c          | 2 ++
 acados/sim/sim_lifted_irk_integrator.c   | 2 ++
 7 files changed, 15 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index fec1c56..63e18c4 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -50,6 +50,8 @@ acados_size_t ocp_nlp_constraints_bgp_dims_calculate_size(void *config_)
 {
     acados_size_t size = sizeof(ocp_nlp_constraints_bgp_dims);
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index b805f3d..7f40b06 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -54,6 +54,8 @@ acados_size_t ocp_nlp_cost_conl_dims_calculate_size(void *config_)
 {
     acados_size_t size = sizeof(ocp_nlp_cost_conl_dims);
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 8897eaa..c8085eb 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -53,6 +53,8 @@ acados_size_t ocp_nlp_cost_nls_dims_calculate_size(void *config_)
 {
     acados_size_t size = sizeof(ocp_nlp_cost_nls_dims);
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
diff --git a/acados/ocp_nlp/ocp_nlp_dynamics_disc.c b/acados/ocp_nlp/ocp_nlp_dynamics_disc.c
index 0e4750a..0c9c298 100644
--- a/acados/ocp_nlp/ocp_nlp_dynamics_disc.c
+++ b/acados/ocp_nlp/ocp_nlp_dynamics_disc.c
@@ -174,6 +174,8 @@ acados_size_t ocp_nlp_dynamics_disc_opts_calculate_size(void *config_, void *dim
 
     size += sizeof(ocp_nlp_dynamics_disc_opts);
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
diff --git a/acados/ocp_nlp/ocp_nlp_reg_common.c b/acados/ocp_nlp/ocp_nlp_reg_common.c
index a334b4a..8f9670c 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_common.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_common.c
@@ -36,6 +36,7 @@
 #include <math.h>
 
 #include "acados/utils/math.h"
+#include "acados/utils/mem.h"
 
 #include "acados/ocp_nlp/ocp_nlp_reg_common.h"
 
@@ -69,6 +70,8 @@ acados_size_t ocp_nlp_reg_dims_calculate_size(int N)
 
     size += 5*(N+1)*sizeof(int); // nx nu nbu nbx ng
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 91c1794..9d6b069 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -58,6 +58,8 @@ acados_size_t sim_irk_dims_calculate_size()
 {
     acados_size_t size = sizeof(sim_irk_dims);
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 00bdc42..7d05685 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -57,6 +57,8 @@ acados_size_t sim_lifted_irk_dims_calculate_size()
 {
     acados_size_t size = sizeof(sim_lifted_irk_dims);
 
+    make_int_multiple_of(8, &size);
+
     return size;
 }
 
-- 
2.43.0


From e01566d1c66efbb7c4730112094361df212b2d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:24 +0000
Subject: [PATCH 18/27] fix: DDP could report success for an iterate whose
 residuals were not evaluated

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 1509e37..e612728 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -448,7 +448,9 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
 
     // We do not need to check for the complementarity condition and for the
     // inequalities since we have an unconstrainted OCP
-    if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq)
+    // NOTE: at max_iter the residuals are only evaluated with eval_residual_at_max_iter
+    bool residuals_evaluated = ddp_iter < nlp_opts->max_iter || nlp_opts->eval_residual_at_max_iter;
+    if (residuals_evaluated && nlp_res->inf_norm_res_eq < nlp_opts->tol_eq)
     { // Check that iterate must be dynamically feasible
         if (nlp_res->inf_norm_res_stat < nlp_opts->tol_stat)
         {// Check Stationarity
-- 
2.43.0


From 821a36d98a4440a828554dc6f022c0c46dd331b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:46 +0000
Subject: [PATCH 19/27] fix: timeout heuristic AVERAGE starts with the time of
 the first iteration instead of averaging it with zero

---
 acados/ocp_nlp/ocp_nlp_sqp.c                  | 2 +-
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index c9bf0fc..5b19bc1 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -622,7 +622,7 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
                         mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter > mem->timeout_estimated_per_iteration_time ? timeout_time_prev_iter : mem->timeout_estimated_per_iteration_time;
                         break;
                     case AVERAGE:
-                        if (nlp_mem->iter == 0)
+                        if (nlp_mem->iter == 1)
                         {
                             mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter;
                         }
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 297afc8..76337e8 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1699,7 +1699,7 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
                         mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter > mem->timeout_estimated_per_iteration_time ? timeout_time_prev_iter : mem->timeout_estimated_per_iteration_time;
                         break;
                     case AVERAGE:
-                        if (nlp_mem->iter == 0)
+                        if (nlp_mem->iter == 1)
                         {
                             mem->timeout_estimated_per_iteration_time = timeout_time_prev_iter;
                         }
-- 
2.43.0


From da2c405299cab52ab62954667cccafaa4e2adff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 20/27] fix: repeated RTI feedback steps wrote QP statistics
 behind the statistics array

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1169d4..ea63825 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -618,8 +618,11 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     }
 
     // save statistics
-    mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-    mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    if (nlp_mem->iter < mem->stat_m)
+    {
+        mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+        mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    }
 
     if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
     {
-- 
2.43.0


From e4f1ec511d82a3d41e9b3e77eab11eb0af2b8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:05 +0000
Subject: [PATCH 21/27] fix: AS-RTI level A took a step along the solution of a
 failed QP

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index ea63825..23182b0 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -889,6 +889,16 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             print_ocp_qp_out(nlp_mem->qp_out);
         }
 
+        if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
+        {
+#ifndef ACADOS_SILENT
+            printf("\nSQP_RTI: QP solver returned error status %d (%s) QP iteration %d.\n",
+                qp_status, status_to_string(qp_status), qp_iter);
+#endif
+            nlp_mem->status = ACADOS_QP_FAILURE;
+            return;
+        }
+
         // update variables
         double step_size;
         globalization_status = config->globalization->find_acceptable_iterate(config, dims, nlp_in, nlp_out, nlp_mem, mem, nlp_work, nlp_opts, &step_size);
-- 
2.43.0


From 51c796255549d6308bcb69893ee6fa875c5aaa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 22/27] fix: merit function gradient: extract the column, not a
 row offset, of DCt

---
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index 7a7e428..3f12d45 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -258,7 +258,7 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     else if (j < nb[i] + ng[i])
                     {
                         // merit_grad_ineq += weight * mem->qp_in->DCt_j * dux
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - nb[i], 0, &tmp_vec_nxu, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - nb[i], &tmp_vec_nxu, 0);
                         merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint lower contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
@@ -269,7 +269,7 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     }
                     else if (j < 2*nb[i] + 2*ng[i])
                     {
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - 2*nb[i] - ng[i], 0, &tmp_vec_nxu, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - 2*nb[i] - ng[i], &tmp_vec_nxu, 0);
                         merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint upper contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
-- 
2.43.0


From bafc5909c559337bdb22d055431f8ffc2b301d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 23/27] fix: merit function gradient: sign of the lower
 constraint contributions

---
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index 3f12d45..4b18f62 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -253,13 +253,13 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     if (j < nb[i])
                     {
                         // printf("lower idxb[%d] = %d dir %f, constraint_val %f, nb = %d\n", j, idxb[j], BLASFEO_DVECEL(mem->qp_out->ux, idxb[j]), constraint_val, nb[i]);
-                        merit_grad_ineq += weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
+                        merit_grad_ineq -= weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
                     }
                     else if (j < nb[i] + ng[i])
                     {
-                        // merit_grad_ineq += weight * mem->qp_in->DCt_j * dux
+                        // merit_grad_ineq -= weight * mem->qp_in->DCt_j * dux
                         blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - nb[i], &tmp_vec_nxu, 0);
-                        merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
+                        merit_grad_ineq -= weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint lower contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
                     else if (j < 2*nb[i] + ng[i])
-- 
2.43.0


From 2bd9b24c1c3aa36e231be0cc96c9416242aec248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 24/27] fix: second order correction: dynamics value at the
 full step enters with positive sign

---
 acados/ocp_nlp/ocp_nlp_common.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 36299fd..1cfba11 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4271,8 +4271,7 @@ int ocp_nlp_perform_second_order_correction(ocp_nlp_config *config, ocp_nlp_dims
             // add - \nabla c_i(x_k)^T * p_k
             // c_i = f(x_k, u_k) - x_{k+1} (see dynamics module)
             blasfeo_dgemv_t(nx[ii]+nu[ii], nx[ii+1], -1.0, qp_in->BAbt+ii, 0, 0,
-                            qp_out->ux+ii, 0, -1.0, tmp_fun_vec, 0, qp_in->b+ii, 0);
-            // NOTE: not sure why it is - tmp_fun_vec here!
+                            qp_out->ux+ii, 0, 1.0, tmp_fun_vec, 0, qp_in->b+ii, 0);
             blasfeo_dvecad(nx[ii+1], 1.0, qp_out->ux+ii+1, nu[ii+1], qp_in->b+ii, 0);
         }
 
-- 
2.43.0


From 6df2c1b06a54ec6987c92b1236ce076f9779eb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:57 +0000
Subject: [PATCH 25/27] fix: second order correction: sign and range of the
 slack contribution

---
 acados/ocp_nlp/ocp_nlp_common.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index 1cfba11..84f09ec 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4297,17 +4297,17 @@ int ocp_nlp_perform_second_order_correction(ocp_nlp_config *config, ocp_nlp_dims
         // add slack contributions
         // d[nb:nb+ng] += slack[idx]
         // qp_in->idxs_rev
-        for (int j = 0; j < nb[ii]+ng[ii]; j++)
+        for (int j = nb[ii]; j < nb[ii]+ng[ii]; j++)
         {
             int slack_index = qp_in->idxs_rev[ii][j];
             if (slack_index >= 0)
             {
                 // add slack contribution for lower and upper constraint
                 // lower
-                BLASFEO_DVECEL(qp_in->d+ii, j) -=
+                BLASFEO_DVECEL(qp_in->d+ii, j) +=
                         BLASFEO_DVECEL(qp_out->ux+ii, slack_index+nx[ii]+nu[ii]);
                 // upper
-                BLASFEO_DVECEL(qp_in->d+ii, j+nb[ii]+ng[ii]) -=
+                BLASFEO_DVECEL(qp_in->d+ii, j+nb[ii]+ng[ii]) +=
                         BLASFEO_DVECEL(qp_out->ux+ii, slack_index+nx[ii]+nu[ii]+ns[ii]);
             }
         }
-- 
2.43.0


From 8a7271e37c5f6ed6c693cb794701279a845d9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:20 +0000
Subject: [PATCH 26/27] fix: NLS and CONL cost with integrator_cost: scale the
 slack penalty in the cost value, as in its gradient

The integrator already scales memory->fun; the slack part was added unscaled,
while its gradient is scaled with model->scaling.
---
 acados/ocp_nlp/ocp_nlp_cost_conl.c | 8 ++++++--
 acados/ocp_nlp/ocp_nlp_cost_nls.c  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index 7f40b06..d16c9a7 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -849,7 +849,9 @@ void ocp_nlp_cost_conl_update_qp_matrices(void *config_, void *dims_, void *mode
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, memory->ux, nu+nx, &work->tmp_2ns, 0);
     // fun += .5 * (tmp_2ns .* slack)
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
+    // NOTE: with integrator_cost, memory->fun is already scaled (in the integrator) and only the slack part is scaled here
+    double slack_scaling = opts->integrator_cost ? model->scaling : 1.0;
+    memory->fun += 0.5 * slack_scaling * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0)
@@ -1039,7 +1041,9 @@ void ocp_nlp_cost_conl_compute_fun(void *config_, void *dims_, void *model_,
     // slack update function value
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, ux, nu+nx, &work->tmp_2ns, 0);
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
+    // NOTE: with integrator_cost, memory->fun is already scaled (in the integrator) and only the slack part is scaled here
+    double slack_scaling = opts->integrator_cost ? model->scaling : 1.0;
+    memory->fun += 0.5 * slack_scaling * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0 && opts->integrator_cost == 0)
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index c8085eb..52eb24a 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -1009,7 +1009,9 @@ void ocp_nlp_cost_nls_update_qp_matrices(void *config_, void *dims_, void *model
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, memory->ux, nu+nx, &work->tmp_2ns, 0);
     // fun += .5 * (tmp_2ns .* slack)
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
+    // NOTE: with integrator_cost, memory->fun is already scaled (in the integrator) and only the slack part is scaled here
+    double slack_scaling = opts->integrator_cost ? model->scaling : 1.0;
+    memory->fun += 0.5 * slack_scaling * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, memory->ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0)
@@ -1128,7 +1130,9 @@ void ocp_nlp_cost_nls_compute_fun(void *config_, void *dims_, void *model_,
     // slack update function value
     blasfeo_dveccpsc(2*ns, 2.0, &model->z, 0, &work->tmp_2ns, 0);
     blasfeo_dvecmulacc(2*ns, &model->Z, 0, ux, nu+nx, &work->tmp_2ns, 0);
-    memory->fun += 0.5 * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
+    // NOTE: with integrator_cost, memory->fun is already scaled (in the integrator) and only the slack part is scaled here
+    double slack_scaling = opts->integrator_cost ? model->scaling : 1.0;
+    memory->fun += 0.5 * slack_scaling * blasfeo_ddot(2*ns, &work->tmp_2ns, 0, ux, nu+nx);
 
     // scale
     if (model->scaling!=1.0 && opts->integrator_cost == 0)
-- 
2.43.0


From 14f730d7bfc80c5bfd3ac2cd16e9205ea972944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:20 +0000
Subject: [PATCH 27/27] fix: external cost: cross terms of the Hessian with
 respect to (u,x) and z

dsyr2k_ln was called with the nz x (nu+nx) matrix in place of an (nu+nx) x nz one,
i.e. it read the wrong elements, also outside of the matrix.
---
 acados/ocp_nlp/ocp_nlp_cost_external.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_external.c b/acados/ocp_nlp/ocp_nlp_cost_external.c
index e1b3374..1b3f223 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_external.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_external.c
@@ -815,8 +815,9 @@ void ocp_nlp_cost_external_update_qp_matrices(void *config_, void *dims_, void *
             // H = d2l_dxu2 + dz_dux.T * d2l_dz2 * dz_dux + d2l_dux_dz * dz_dux + (d2l_dux_dz * dz_dux).T
             // the term d2z_dux2 is dropped!
 
-            // compute and add cross terms (NOTE: only lower triangular is computed)
-            blasfeo_dsyr2k_ln(nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
+            // compute and add cross terms
+            blasfeo_dgemm_nn(nu+nx, nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
+            blasfeo_dgemm_tt(nu+nx, nu+nx, nz, model->scaling, &work->tmp_nz_nunx, 0, 0, memory->dzdux_tran, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
 
             // hessian contribution from z
             blasfeo_dgemm_nt(nz, nu+nx, nz, 1., &work->tmp_nz_nz, 0, 0, memory->dzdux_tran, 0, 0, 0.0, &work->tmp_nz_nunx, 0, 0, &work->tmp_nz_nunx, 0, 0);
-- 
2.43.0


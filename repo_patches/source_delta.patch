From 99cdb64c94525a92862163706978e6b65e36c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 001/166] fix: GNSF structure detection for models with a
 single state

x[1] was only used to have some scalar function input, but does not exist for nx == 1.
---
 interfaces/acados_template/acados_template/gnsf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 9eda0b2..6ef1ce8 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -897,8 +897,8 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_xi = ca.jacobian(fii, var)
             if jac_fii_xi.is_constant():
                 # jacobian value
-                jac_fii_xi_fun = ca.Function("jac_fii_xi_fun", [x[1]], [jac_fii_xi])
-                # x[1] as input just to have a scalar input and call the function as follows:
+                jac_fii_xi_fun = ca.Function("jac_fii_xi_fun", [x[0]], [jac_fii_xi])
+                # x[0] as input just to have a scalar input and call the function as follows:
                 gnsf["A"][ii, ix] = jac_fii_xi_fun(0).full()
             else:
                 gnsf["A"][ii, ix] = 0
@@ -932,7 +932,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_ui = ca.jacobian(fii, var)
             if jac_fii_ui.is_constant():  # i.e. hessian is structural zero:
                 # jacobian value
-                jac_fii_ui_fun = ca.Function("jac_fii_ui_fun", [x[1]], [jac_fii_ui])
+                jac_fii_ui_fun = ca.Function("jac_fii_ui_fun", [x[0]], [jac_fii_ui])
                 gnsf["B"][ii, iu] = jac_fii_ui_fun(0).full()
             else:
                 gnsf["B"][ii, iu] = 0
@@ -967,7 +967,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
             jac_fii_ki = ca.jacobian(fii, var)
             if jac_fii_ki.is_constant():
                 # jacobian value
-                jac_fii_ki_fun = ca.Function("jac_fii_ki_fun", [x[1]], [jac_fii_ki])
+                jac_fii_ki_fun = ca.Function("jac_fii_ki_fun", [x[0]], [jac_fii_ki])
                 gnsf["E"][ii, ik] = -jac_fii_ki_fun(0).full()
             else:
                 gnsf["E"][ii, ik] = 0
@@ -995,7 +995,7 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
         fii = gnsf["phi_expr"][ii]
         if fii.is_constant():
             # function value goes into c
-            fii_fun = ca.Function("fii_fun", [x[1]], [fii])
+            fii_fun = ca.Function("fii_fun", [x[0]], [fii])
             gnsf["c"][ii] = fii_fun(0).full()
         else:
             gnsf["c"][ii] = 0
-- 
2.43.0


From 48b81ecf10313b40fb08a088a90a5faa70015b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 002/166] fix: GNSF reformulation check must tolerate rounding
 errors

A relative error of a few eps is normal for two equivalent formulations, with a
tolerance of 1e-14 correct transcriptions ended up in the debugger.
---
 interfaces/acados_template/acados_template/gnsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 6ef1ce8..9b1ed80 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -587,7 +587,7 @@ def check_reformulation(model, gnsf, print_info):
     # if for all points the relative error is <= TOL, the function will return::
     # 1, otherwise it will give an error.
 
-    TOL = 1e-14
+    TOL = 1e-10
     num_eval = 10
 
     # get dimensions
-- 
2.43.0


From a2ee8d2faf90a2cbaea9b6f24561f303a8bac208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:30 +0000
Subject: [PATCH 003/166] fix: set external cost Hessian option only on stages
 with external cost

The option was set on all stages 0..N-1 if the path cost is EXTERNAL, also on the
initial stage if that has another cost type, which ends the process, and never on
an EXTERNAL initial stage with another path cost type. In the multi-phase template
it was read uninitialized if only the terminal cost is EXTERNAL.
---
 .../c_templates_tera/acados_multi_solver.in.c             | 8 +++++---
 .../acados_template/c_templates_tera/acados_solver.in.c   | 5 ++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 39e9d60..f743c62 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2716,7 +2716,7 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 
 
     /* Stage varying options */
-    int ext_cost_num_hess;
+    int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
     bool output_z_val = true;
     bool sens_algebraic_val = true;
     sim_collocation_type collocation_type;
@@ -2788,9 +2788,11 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
 {%- endif %}
 {%- endif %}{# mocp_opts.integrator_type[jj] != "DISCRETE" #}
 
+{%- if jj == 0 and cost[0].cost_type_0 == "EXTERNAL" %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost[jj].cost_type == "EXTERNAL" %}
-    ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
+    for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index bcc0b35..fddfd58 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2932,8 +2932,11 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 {% endif %}
 
     int ext_cost_num_hess = {{ solver_options.ext_cost_num_hess }};
+{%- if cost.cost_type_0 == "EXTERNAL" and solver_options.N_horizon > 0 %}
+    ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, 0, "cost_numerical_hessian", &ext_cost_num_hess);
+{%- endif %}
 {%- if cost.cost_type == "EXTERNAL" and solver_options.N_horizon > 0 %}
-    for (int i = 0; i < N; i++)
+    for (int i = 1; i < N; i++)
     {
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "cost_numerical_hessian", &ext_cost_num_hess);
     }
-- 
2.43.0


From cb0fba8ddb2be367449a494f007aa2e68a2bae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:39 +0000
Subject: [PATCH 004/166] fix: slack bound multipliers in the BGP stationarity
 residual with idxs_rev

The multipliers of the slack bounds were only added for the idxs formulation.
---
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index fec1c56..de2ffe2 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1341,9 +1341,9 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
         {
             blasfeo_dvecex_sp(ns, 1.0, model->idxs, memory->lam, 0, &memory->adj, nu + nx);
             blasfeo_dvecex_sp(ns, 1.0, model->idxs, memory->lam, nb+ng+nphi, &memory->adj, nu+nx+ns);
-            blasfeo_daxpy(2 * ns, 1.0, memory->lam, 2 * nb + 2 * ng + 2 * nphi, &memory->adj, nu + nx,
-                        &memory->adj, nu + nx);
         }
+        blasfeo_daxpy(2 * ns, 1.0, memory->lam, 2 * nb + 2 * ng + 2 * nphi, &memory->adj, nu + nx,
+                    &memory->adj, nu + nx);
     }
 
     if (opts->compute_hess)
-- 
2.43.0


From 84e17c9d08bac6c66fb5f5c5db1fd99b28a827bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:38 +0000
Subject: [PATCH 005/166] fix: algebraic variables in nonlinear constraints
 together with general linear ones

The contribution dz/d(u,x) * dh/dz was added at row ng, column 0 of DCt instead of
row 0, column ng: wrong Jacobians of both constraint kinds and an access outside of
the matrix for ng > 0.
---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c | 4 ++--
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index ab948bd..c1127ca 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1400,7 +1400,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
-            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, ng, 0);
+            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, 0, ng);
         }
         else
         {
@@ -1436,7 +1436,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
-            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, ng, 0);
+            blasfeo_dgead(nu+nx, nh, 1.0, &work->tmp_nv_nh, 0, 0, memory->DCt, 0, ng);
         }
     }
 
diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index de2ffe2..bdb1c96 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1293,7 +1293,7 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
 
         // update DCt
         blasfeo_dgemm_nn(nu+nx, nphi, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nphi, 0, 0, 0.0, &work->tmp_nv_nphi, 0, 0, &work->tmp_nv_nphi, 0, 0);
-        blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, ng, 0);
+        blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, 0, ng);
         // update memory->fun
         blasfeo_dgemv_t(nu+nx, nphi, -1.0, &work->tmp_nv_nphi, 0, 0, memory->ux, 0, 1.0, &memory->fun, 0, &memory->fun, 0);
     }
-- 
2.43.0


From bcbe5a04ef2b5a9c4cbe0819fbe5c1a88fa8bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:35 +0000
Subject: [PATCH 006/166] fix: transpose the Jacobian of h with respect to z

The C code expects nz x nh (as generated by the MATLAB interface), nh x nz was
generated: wrong constraint Jacobians and out of bounds writes unless nh == nz == 1.
---
 .../acados_template/casadi_function_generation.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/casadi_function_generation.py b/interfaces/acados_template/acados_template/casadi_function_generation.py
index a8093b0..c359a91 100644
--- a/interfaces/acados_template/acados_template/casadi_function_generation.py
+++ b/interfaces/acados_template/acados_template/casadi_function_generation.py
@@ -780,7 +780,7 @@ def generate_c_code_constraint(context: GenerateContext, model: AcadosModel, con
             fun_name = model.name + '_constr_h_fun_jac_uxt_zt'
 
         jac_ux_t = ca.transpose(ca.jacobian(con_h_expr, ca.vertcat(u,x)))
-        jac_z_t = ca.jacobian(con_h_expr, z)
+        jac_z_t = ca.transpose(ca.jacobian(con_h_expr, z))
         context.add_function_definition(fun_name, [x, u, z, p], \
                 [con_h_expr, jac_ux_t, jac_z_t], constraints_dir, 'constr')
 
-- 
2.43.0


From 04fd28dbaeeac443e37b8c5eb12eaf31e08692b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:32 +0000
Subject: [PATCH 007/166] fix: DDP must start at the initial state to report
 success

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index e9349b8..b627228 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -449,10 +449,10 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
         return true;
     }
 
-    // We do not need to check for the complementarity condition and for the
-    // inequalities since we have an unconstrainted OCP
-    if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq)
-    { // Check that iterate must be dynamically feasible
+    // We do not need to check for the complementarity condition, since the
+    // only inequalities are the ones that fix the initial state
+    if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq && nlp_res->inf_norm_res_ineq < nlp_opts->tol_ineq)
+    { // Check that iterate must be dynamically feasible and start at the initial state
         if (nlp_res->inf_norm_res_stat < nlp_opts->tol_stat)
         {// Check Stationarity
             nlp_mem->status = ACADOS_SUCCESS;
@@ -651,7 +651,8 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         }
 
         // Check if initial guess was infeasible
-        if ((infeasible_initial_guess == true) && (nlp_res->inf_norm_res_eq > nlp_opts->tol_eq))
+        if ((infeasible_initial_guess == true) && (nlp_res->inf_norm_res_eq > nlp_opts->tol_eq
+                                                   || nlp_res->inf_norm_res_ineq > nlp_opts->tol_ineq))
         {
             if (nlp_opts->print_level > 0)
             {
-- 
2.43.0


From a4477eb400097004606b5fd68e38ae624ccb2290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:48 +0000
Subject: [PATCH 008/166] fix: dimension of the convex-over-nonlinear
 constraint at the initial stage

---
 .../acados_template/c_templates_tera/acados_solver.in.c          | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index fddfd58..1c0a560 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -327,6 +327,7 @@ static ocp_nlp_dims* {{ name }}_acados_create_setup_dimensions({{ name }}_solver
     nsh[0] = NSH0;
     nsphi[0] = NSPHI0;
     nphi[0] = NPHI0;
+    nr[0] = {{ dims.nr_0 }};
 
 
     // terminal - common
-- 
2.43.0


From b7e1b520278f36d389a945dbea23c5657a72053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:33 +0000
Subject: [PATCH 009/166] fix: mixed derivatives of external cost with respect
 to algebraic and other variables

---
 acados/ocp_nlp/ocp_nlp_cost_external.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_external.c b/acados/ocp_nlp/ocp_nlp_cost_external.c
index e1b3374..96a4369 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_external.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_external.c
@@ -815,8 +815,9 @@ void ocp_nlp_cost_external_update_qp_matrices(void *config_, void *dims_, void *
             // H = d2l_dxu2 + dz_dux.T * d2l_dz2 * dz_dux + d2l_dux_dz * dz_dux + (d2l_dux_dz * dz_dux).T
             // the term d2z_dux2 is dropped!
 
-            // compute and add cross terms (NOTE: only lower triangular is computed)
-            blasfeo_dsyr2k_ln(nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
+            // compute and add cross terms, tmp_nz_nunx = d2l_dz_dux: nz * (nu+nx)
+            blasfeo_dgemm_nn(nu+nx, nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
+            blasfeo_dgemm_tt(nu+nx, nu+nx, nz, model->scaling, &work->tmp_nz_nunx, 0, 0, memory->dzdux_tran, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
 
             // hessian contribution from z
             blasfeo_dgemm_nt(nz, nu+nx, nz, 1., &work->tmp_nz_nz, 0, 0, memory->dzdux_tran, 0, 0, 0.0, &work->tmp_nz_nunx, 0, 0, &work->tmp_nz_nunx, 0, 0);
-- 
2.43.0


From c7bbe1e1a6b27fbb854e7978b3552cbf950a4243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:52 +0000
Subject: [PATCH 010/166] fix: AcadosSimOptions accepts the documented
 collocation type EXPLICIT_RUNGE_KUTTA

---
 interfaces/acados_template/acados_template/acados_sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim.py b/interfaces/acados_template/acados_template/acados_sim.py
index ef86479..3635a67 100644
--- a/interfaces/acados_template/acados_template/acados_sim.py
+++ b/interfaces/acados_template/acados_template/acados_sim.py
@@ -266,7 +266,7 @@ class AcadosSimOptions:
 
     @collocation_type.setter
     def collocation_type(self, collocation_type):
-        collocation_types = ('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE')
+        collocation_types = ('GAUSS_RADAU_IIA', 'GAUSS_LEGENDRE', 'EXPLICIT_RUNGE_KUTTA')
         if collocation_type in collocation_types:
             self.__collocation_type = collocation_type
         else:
-- 
2.43.0


From 1dfe4ab02ba6442a43c0b089f8e4d34bd881fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 011/166] fix: pass sim_method_jac_reuse of AcadosSim to the
 integrator

---
 .../acados_template/c_templates_tera/acados_sim_solver.in.c     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
index 3614489..1543249 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_sim_solver.in.c
@@ -334,6 +334,8 @@ int {{ name }}_acados_sim_create({{ name }}_sim_solver_capsule * capsule)
     sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "num_stages", &tmp_int);
     tmp_int = {{ solver_options.sim_method_num_steps }};
     sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "num_steps", &tmp_int);
+    tmp_bool = {{ solver_options.sim_method_jac_reuse }};
+    sim_opts_set({{ name }}_sim_config, {{ name }}_sim_opts, "jac_reuse", &tmp_bool);
 
     // options that are not available to AcadosOcpSolver
     //  (in OCP they will be determined by other options, like exact_hessian)
-- 
2.43.0


From a73a2b7d2eb9c621a396afc2e661db78dabbd3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 012/166] fix: AcadosOcpSolver.set and set_flat reject arrays
 with a wrong number of elements

---
 .../acados_template/acados_ocp_solver.py            | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 006d00b..8c6710a 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1260,8 +1260,8 @@ class AcadosOcpSolver:
             raise ValueError(f'AcadosOcpSolver.get_flat(field={field_}): \'{field_}\' is an invalid argument.')
         dims = self.__acados_lib.ocp_nlp_dims_get_total_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, field)
 
-        if len(value_) != dims:
-            raise ValueError(f'AcadosOcpSolver.set_flat(field={field_}, value): value has wrong length, expected {dims}, got {len(value_)}.')
+        if len(value_) != dims or np.size(value_) != dims:
+            raise ValueError(f'AcadosOcpSolver.set_flat(field={field_}, value): value has wrong length, expected {dims}, got {np.shape(value_)}.')
 
         value_ = value_.astype(float)
         value_data = cast(value_.ctypes.data, POINTER(c_double))
@@ -2021,6 +2021,11 @@ class AcadosOcpSolver:
 
         # treat parameters separately
         if field_ == 'p':
+            dims = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, \
+                self.nlp_dims, self.nlp_out, stage_, field)
+            if value_.shape[0] != dims or value_.size != dims:
+                raise RuntimeError(f'AcadosOcpSolver.set(): mismatching dimension for field "p" '
+                                   f'with dimension {dims} (you have {value_.shape})')
             value_data = cast(value_.ctypes.data, POINTER(c_double))
             assert getattr(self.shared_lib, f"{self.ocp.name}_acados_update_params")(self.capsule, stage, value_data, value_.shape[0])==0
         else:
@@ -2031,9 +2036,9 @@ class AcadosOcpSolver:
             dims = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, \
                 self.nlp_dims, self.nlp_out, stage_, field)
 
-            if value_.shape[0] != dims:
+            if value_.shape[0] != dims or value_.size != dims:
                 msg = f'AcadosOcpSolver.set(): mismatching dimension for field "{field_}" '
-                msg += f'with dimension {dims} (you have {value_.shape[0]})'
+                msg += f'with dimension {dims} (you have {value_.shape})'
                 raise RuntimeError(msg)
 
             value_data = cast(value_.ctypes.data, POINTER(c_double))
-- 
2.43.0


From d47918ded75b29b4d45c0469dd84e3c1ae0257e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 013/166] fix: set_params_sparse rejects negative indices
 instead of writing out of bounds

---
 interfaces/acados_template/acados_template/acados_ocp_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 8c6710a..16983f2 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2643,6 +2643,8 @@ class AcadosOcpSolver:
         p_dimension = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, stage_, "p".encode('utf-8'))
         if any(idx_values_ >= p_dimension):
             raise ValueError(f'idx_values_ contains value >= np = {p_dimension} for stage {stage_}.')
+        if any(idx_values_ < 0):
+            raise ValueError(f'idx_values_ contains negative value for stage {stage_}.')
 
         stage = c_int(stage_)
         n_update = c_int(len(param_values_))
-- 
2.43.0


From c397f675010fe4b3605b3f9fc1c7245ac183e2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 014/166] fix: do not alias the saved p_global values with user
 arrays

---
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 16983f2..816995d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -287,7 +287,7 @@ class AcadosOcpSolver:
         # Store a reference to the OCP formulation instead of re-loading its data from json.
         self.__ocp = ocp
         self.__save_p_global = save_p_global
-        self.__p_global_values = ocp.p_global_values if save_p_global else np.array([])
+        self.__p_global_values = np.copy(ocp.p_global_values) if save_p_global else np.array([])
 
         if check_reuse_possible and (not generate or not build):
             # Check if existing code can be reused
@@ -1235,7 +1235,7 @@ class AcadosOcpSolver:
         if field_ == 'p_global':
             if not self.__save_p_global:
                 raise ValueError(f'The field \'{field_}\' is not stored within the solver by default. Please set the option \'save_p_global=True\' when instantiating the solver.')
-            return self.__p_global_values
+            return np.copy(self.__p_global_values)
 
         field = field_.encode('utf-8')
 
@@ -2679,7 +2679,7 @@ class AcadosOcpSolver:
 
         status = getattr(self.shared_lib, f"{self.ocp.name}_acados_set_p_global_and_precompute_dependencies")(self.capsule, c_data, data_len)
         if self.__save_p_global:
-            self.__p_global_values = data_
+            self.__p_global_values = np.copy(data_)
 
         return status
 
-- 
2.43.0


From f13937256a91f7357b534cd05b3b76b6cd65517d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:33 +0000
Subject: [PATCH 015/166] fix: set_params_sparse accepts any iterable of
 indices as documented

---
 interfaces/acados_template/acados_template/acados_ocp_solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 816995d..9e3b25a 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -2641,6 +2641,7 @@ class AcadosOcpSolver:
                  f' Got sizes idx {param_values_.shape[0]}, param_values {len(idx_values_)}.')
 
         p_dimension = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, stage_, "p".encode('utf-8'))
+        idx_values_ = np.array(list(idx_values_), dtype=np.intc)
         if any(idx_values_ >= p_dimension):
             raise ValueError(f'idx_values_ contains value >= np = {p_dimension} for stage {stage_}.')
         if any(idx_values_ < 0):
-- 
2.43.0


From c16ee6b8f34c02dd25e32e91c9c1ca299e5a3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 016/166] fix: pass
 globalization_funnel_fraction_switching_condition to the solver

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c  | 3 +++
 .../acados_template/c_templates_tera/acados_solver.in.c        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index f743c62..cabe92e 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2447,6 +2447,9 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     double globalization_funnel_sufficient_decrease_factor = {{ solver_options.globalization_funnel_sufficient_decrease_factor }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_sufficient_decrease_factor", &globalization_funnel_sufficient_decrease_factor);
 
+    double globalization_funnel_fraction_switching_condition = {{ solver_options.globalization_funnel_fraction_switching_condition }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_fraction_switching_condition", &globalization_funnel_fraction_switching_condition);
+
     double globalization_funnel_kappa = {{ solver_options.globalization_funnel_kappa }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_kappa", &globalization_funnel_kappa);
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 1c0a560..76ad050 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2538,6 +2538,9 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     double globalization_funnel_sufficient_decrease_factor = {{ solver_options.globalization_funnel_sufficient_decrease_factor }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_sufficient_decrease_factor", &globalization_funnel_sufficient_decrease_factor);
 
+    double globalization_funnel_fraction_switching_condition = {{ solver_options.globalization_funnel_fraction_switching_condition }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_fraction_switching_condition", &globalization_funnel_fraction_switching_condition);
+
     double globalization_funnel_kappa = {{ solver_options.globalization_funnel_kappa }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_kappa", &globalization_funnel_kappa);
 
-- 
2.43.0


From 24dd143661a97545a017845ec87f675512d07b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 017/166] fix: generated solvers set warm start options and
 tau_min also to their disabled value

RTI warm starts from the NLP iterate by default in C, reset_solver_options did not restore
disabled values, and the multi-phase template confused warm_start_first_qp and
warm_start_first_qp_from_nlp.
---
 .../c_templates_tera/acados_multi_solver.in.c      | 14 ++++----------
 .../c_templates_tera/acados_solver.in.c            | 12 +++---------
 2 files changed, 7 insertions(+), 19 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index cabe92e..79686df 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2475,15 +2475,11 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     int globalization_full_step_dual = {{ solver_options.globalization_full_step_dual }};
     ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_full_step_dual", &globalization_full_step_dual);
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
+    bool nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp);
-    {%- endif %}
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp_from_nlp);
-    {%- endif %}
+    bool nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
+    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp_from_nlp", &nlp_solver_warm_start_first_qp_from_nlp);
 
     double levenberg_marquardt = {{ solver_options.levenberg_marquardt }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "levenberg_marquardt", &levenberg_marquardt);
@@ -2557,7 +2553,7 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_t0_init", &qp_solver_t0_init);
 {%- endif %}
 
-{% if solver_options.tau_min > 0 %}
+{% if solver_options.tau_min > 0 or solver_options.qp_solver is containing("HPIPM") %}
     double tau_min = {{ solver_options.tau_min }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "tau_min", &tau_min);
 {%- endif %}
@@ -2699,10 +2695,8 @@ ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "allow_direction_mode_switch_to_no
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_tol_comp", &qp_solver_tol_comp);
     {%- endif %}
 
-    {%- if solver_options.qp_solver_warm_start %}
     int qp_solver_warm_start = {{ solver_options.qp_solver_warm_start }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_warm_start", &qp_solver_warm_start);
-    {%- endif %}
 
     int print_level = {{ solver_options.print_level }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "print_level", &print_level);
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 76ad050..48869c9 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2693,15 +2693,11 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
 {%- endif %}{# solver_options.integrator_type != "DISCRETE" #}
 {%- endif %}{# solver_options.N_horizon > 0 #}
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp %}
-    int nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
+    bool nlp_solver_warm_start_first_qp = {{ solver_options.nlp_solver_warm_start_first_qp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp", &nlp_solver_warm_start_first_qp);
-    {%- endif %}
 
-    {%- if solver_options.nlp_solver_warm_start_first_qp_from_nlp %}
-    int nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
+    bool nlp_solver_warm_start_first_qp_from_nlp = {{ solver_options.nlp_solver_warm_start_first_qp_from_nlp }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "warm_start_first_qp_from_nlp", &nlp_solver_warm_start_first_qp_from_nlp);
-    {%- endif %}
 
     double levenberg_marquardt = {{ solver_options.levenberg_marquardt }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "levenberg_marquardt", &levenberg_marquardt);
@@ -2775,7 +2771,7 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_t0_init", &qp_solver_t0_init);
 {%- endif %}
 
-{% if solver_options.tau_min > 0 %}
+{% if solver_options.tau_min > 0 or solver_options.qp_solver is containing("HPIPM") %}
     double tau_min = {{ solver_options.tau_min }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "tau_min", &tau_min);
 {%- endif %}
@@ -2917,10 +2913,8 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_tol_comp", &qp_solver_tol_comp);
     {%- endif %}
 
-    {%- if solver_options.qp_solver_warm_start %}
     int qp_solver_warm_start = {{ solver_options.qp_solver_warm_start }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_warm_start", &qp_solver_warm_start);
-    {%- endif %}
 
     int print_level = {{ solver_options.print_level }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "print_level", &print_level);
-- 
2.43.0


From 0c085cdb7801d9db2d198caf86894a27ae63a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 018/166] fix: HPIPM complementarity relaxation must be reset
 when tau_min is set back to zero

---
 acados/dense_qp/dense_qp_hpipm.c | 8 +++-----
 acados/ocp_qp/ocp_qp_hpipm.c     | 8 +++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/acados/dense_qp/dense_qp_hpipm.c b/acados/dense_qp/dense_qp_hpipm.c
index 0e4417f..3e7128f 100644
--- a/acados/dense_qp/dense_qp_hpipm.c
+++ b/acados/dense_qp/dense_qp_hpipm.c
@@ -305,11 +305,9 @@ int dense_qp_hpipm(void *config, void *qp_in_, void *qp_out_, void *opts_, void
     int ns = qp_in->dim->ns;
     blasfeo_dvecse(nv+2*ns, 0.0, qp_out->v, 0);
 
-    if (opts->m_relax)
-    {
-        d_dense_qp_set_m_all(&opts->m_relax, qp_in);
-        // d_dense_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
-    }
+    // NOTE: set also if m_relax is 0.0, as it might have been larger in a previous call
+    d_dense_qp_set_m_all(&opts->m_relax, qp_in);
+    // d_dense_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
     /* use this to send some QPs to Gianluca :) */
     // printf("\ncodegen HPIPM QP\n");
     // d_dense_qp_dim_codegen("failing_dense_data.c", "w", qp_in->dim);
diff --git a/acados/ocp_qp/ocp_qp_hpipm.c b/acados/ocp_qp/ocp_qp_hpipm.c
index 1a570e7..1d57a6b 100644
--- a/acados/ocp_qp/ocp_qp_hpipm.c
+++ b/acados/ocp_qp/ocp_qp_hpipm.c
@@ -335,11 +335,9 @@ int ocp_qp_hpipm(void *config_, void *qp_in_, void *qp_out_, void *opts_, void *
         blasfeo_dvecse(nu[ii]+nx[ii]+2*ns[ii], 0.0, qp_out->ux+ii, 0);
     }
 
-    if (opts->m_relax)
-    {
-        d_ocp_qp_set_m_all(&opts->m_relax, qp_in);
-        // d_ocp_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
-    }
+    // NOTE: set also if m_relax is 0.0, as it might have been larger in a previous call
+    d_ocp_qp_set_m_all(&opts->m_relax, qp_in);
+    // d_ocp_qp_ipm_arg_set("tau_min", &opts->m_relax, opts->hpipm_opts);
 
     // solve ipm
     acados_tic(&qp_timer);
-- 
2.43.0


From c13304234e8d8fcb56cff128622232d2493c44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 019/166] fix: NaN of a former iterate must not survive in
 matrices overwritten with beta = 0

BLASFEO gemm and syrk kernels multiply the old entries by beta = 0, such that NaN entries are kept.
---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c        |  3 +++
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c        |  2 ++
 acados/ocp_nlp/ocp_nlp_cost_conl.c              |  6 ++++++
 acados/ocp_nlp/ocp_nlp_cost_external.c          |  1 +
 acados/ocp_nlp/ocp_nlp_cost_ls.c                |  5 +++++
 acados/ocp_nlp/ocp_nlp_cost_nls.c               | 10 ++++++++++
 acados/ocp_nlp/ocp_nlp_reg_convexify.c          |  3 +++
 acados/ocp_nlp/ocp_nlp_reg_project_reduc_hess.c |  3 +++
 acados/sim/sim_gnsf.c                           |  9 +++++++++
 acados/sim/sim_irk_integrator.c                 |  8 ++++++++
 acados/sim/sim_lifted_irk_integrator.c          |  1 +
 11 files changed, 51 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index c1127ca..ecf20fa 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1379,6 +1379,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
                     ext_fun_type_in, ext_fun_in, ext_fun_type_out, ext_fun_out);
 
             // tmp_nv_nv += dzdxu^T * (hess_z * dzdxu)
+            blasfeo_dgese(nz, nu+nx, 0.0, &work->tmp_nz_nv, 0, 0);
             blasfeo_dgemm_nt(nz, nu+nx, nz, 1.0, &work->hess_z, 0, 0, memory->dzduxt, 0, 0,
                              0.0, &work->tmp_nz_nv, 0, 0, &work->tmp_nz_nv, 0, 0);
             blasfeo_dgemm_nn(nu+nx, nu+nx, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nv, 0, 0,
@@ -1397,6 +1398,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             blasfeo_dgead(nu+nx, nu+nx, 1.0, &work->tmp_nv_nv, 0, 0, memory->RSQrq, 0, 0);
 
             // tmp_nv_nh = dzduxt * jac_z_tran
+            blasfeo_dgese(nu+nx, nh, 0.0, &work->tmp_nv_nh, 0, 0);
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
@@ -1433,6 +1435,7 @@ void ocp_nlp_constraints_bgh_update_qp_matrices(void *config_, void *dims_, void
             // (dhdu + dhdz*dzdu)*(u - \bar{u})
 
             // tmp_nv_nh = dzduxt * jac_z_tran
+            blasfeo_dgese(nu+nx, nh, 0.0, &work->tmp_nv_nh, 0, 0);
             blasfeo_dgemm_nn(nu+nx, nh, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nh, 0, 0, 0.0,
                              &work->tmp_nv_nh, 0, 0, &work->tmp_nv_nh, 0, 0);
             // update DCt
diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index bdb1c96..72ce71b 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -1292,6 +1292,7 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
         // (dphidu + dphidz*dzdu)*(u - \bar{u})
 
         // update DCt
+        blasfeo_dgese(nu+nx, nphi, 0.0, &work->tmp_nv_nphi, 0, 0);
         blasfeo_dgemm_nn(nu+nx, nphi, nz, 1.0, memory->dzduxt, 0, 0, &work->tmp_nz_nphi, 0, 0, 0.0, &work->tmp_nv_nphi, 0, 0, &work->tmp_nv_nphi, 0, 0);
         blasfeo_dgead(nu+nx, nphi, 1.0, &work->tmp_nv_nphi, 0, 0, memory->DCt, 0, ng);
         // update memory->fun
@@ -1303,6 +1304,7 @@ void ocp_nlp_constraints_bgp_update_qp_matrices(void *config_, void *dims_, void
         double lam_i = blasfeo_dvecex1(memory->lam,
                 2 * (nb + ng) + nphi + i);
 
+        blasfeo_dgese(nv, nr, 0.0, &work->tmp_nv_nr, 0, 0);
         blasfeo_dgemm_nt(nv, nr, nr, lam_i, &work->jac_r_ux_tran,
                 0, 0, &work->tmp_nr_nphi_nr, nr * i, 0, 0.0,
                 &work->tmp_nv_nr, 0, 0, &work->tmp_nv_nr, 0, 0);
diff --git a/acados/ocp_nlp/ocp_nlp_cost_conl.c b/acados/ocp_nlp/ocp_nlp_cost_conl.c
index b805f3d..f25cd6c 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_conl.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_conl.c
@@ -823,6 +823,7 @@ void ocp_nlp_cost_conl_update_qp_matrices(void *config_, void *dims_, void *mode
             if (memory->outer_hess_is_diag)
             {
                 // tmp_nv_ny = Jt_ux * W_chol_diag
+                blasfeo_dgese(nu+nx, ny, 0.0, &work->tmp_nv_ny, 0, 0);
                 blasfeo_dgemm_nd(nu+nx, ny, 1.0, &work->Jt_ux, 0, 0, &memory->W_chol_diag, 0, 0., &work->tmp_nv_ny, 0, 0, &work->tmp_nv_ny, 0, 0);
             }
             else
@@ -833,6 +834,11 @@ void ocp_nlp_cost_conl_update_qp_matrices(void *config_, void *dims_, void *mode
             }
 
         }
+        if (prev_RSQ_factor == 0.0)
+        {
+            // discard old values explicitly: 0.0 * NaN would keep a NaN of a previous iterate
+            blasfeo_dgese(nu+nx, nu+nx, 0.0, memory->RSQrq, 0, 0);
+        }
         // RSQrq += scaling * tmp_nv_ny * tmp_nv_ny^T
         blasfeo_dsyrk_ln(nu+nx, ny, model->scaling, &work->tmp_nv_ny, 0, 0, &work->tmp_nv_ny, 0, 0,
                         prev_RSQ_factor, memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
diff --git a/acados/ocp_nlp/ocp_nlp_cost_external.c b/acados/ocp_nlp/ocp_nlp_cost_external.c
index 96a4369..5f4152e 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_external.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_external.c
@@ -820,6 +820,7 @@ void ocp_nlp_cost_external_update_qp_matrices(void *config_, void *dims_, void *
             blasfeo_dgemm_tt(nu+nx, nu+nx, nz, model->scaling, &work->tmp_nz_nunx, 0, 0, memory->dzdux_tran, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
 
             // hessian contribution from z
+            blasfeo_dgese(nz, nu+nx, 0.0, &work->tmp_nz_nunx, 0, 0);
             blasfeo_dgemm_nt(nz, nu+nx, nz, 1., &work->tmp_nz_nz, 0, 0, memory->dzdux_tran, 0, 0, 0.0, &work->tmp_nz_nunx, 0, 0, &work->tmp_nz_nunx, 0, 0);
             blasfeo_dgemm_nn(nu+nx, nu+nx, nz, model->scaling, memory->dzdux_tran, 0, 0, &work->tmp_nz_nunx, 0, 0, 1., memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
         }
diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index e2b5442..9f48413 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -938,6 +938,11 @@ void ocp_nlp_cost_ls_update_qp_matrices(void *config_, void *dims_,
         }
         if (opts->compute_hess)
         {
+            if (prev_RSQ_factor == 0.0)
+            {
+                // discard old values explicitly: 0.0 * NaN would keep a NaN of a previous iterate
+                blasfeo_dgese(nu + nx, nu + nx, 0.0, memory->RSQrq, 0, 0);
+            }
             // RSQrq = scaling * tmp_nv_ny * tmp_nv_ny^T
             blasfeo_dsyrk_ln(nu + nx, ny, model->scaling, &work->tmp_nv_ny, 0, 0, &work->tmp_nv_ny,
                                 0, 0, prev_RSQ_factor, memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 200d0bd..3429dfa 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -963,6 +963,11 @@ void ocp_nlp_cost_nls_update_qp_matrices(void *config_, void *dims_, void *model
         /* hessian */
         if (opts->gauss_newton_hess)
         {
+            if (prev_RSQ_factor == 0.0)
+            {
+                // discard old values explicitly: 0.0 * NaN would keep a NaN of a previous iterate
+                blasfeo_dgese(nu+nx, nu+nx, 0.0, memory->RSQrq, 0, 0);
+            }
             // RSQrq = scaling * tmp_nv_ny * tmp_nv_ny^T
             blasfeo_dsyrk_ln(nu+nx, ny, model->scaling, &work->tmp_nv_ny, 0, 0, &work->tmp_nv_ny, 0, 0,
                             prev_RSQ_factor, memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
@@ -991,6 +996,11 @@ void ocp_nlp_cost_nls_update_qp_matrices(void *config_, void *dims_, void *model
             model->nls_y_hess->evaluate(model->nls_y_hess, ext_fun_type_in, ext_fun_in,
                                     ext_fun_type_out, ext_fun_out);
 
+            if (prev_RSQ_factor == 0.0)
+            {
+                // discard old values explicitly: 0.0 * NaN would keep a NaN of a previous iterate
+                blasfeo_dgese(nu+nx, nu+nx, 0.0, memory->RSQrq, 0, 0);
+            }
             // RSQrq = scaling * (tmp_nv_nv + tmp_nv_ny * tmp_nv_ny^T)
             blasfeo_dsyrk_ln(nu+nx, ny, model->scaling, &work->tmp_nv_ny, 0, 0, &work->tmp_nv_ny, 0, 0,
                             prev_RSQ_factor, memory->RSQrq, 0, 0, memory->RSQrq, 0, 0);
diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index fd9a27e..994f30c 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -570,6 +570,7 @@ void ocp_nlp_reg_convexify_regularize(void *config, ocp_nlp_reg_dims *dims, void
         // TODO implement using cholesky
 
         // BAQ = BA * Q_bar
+        blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
         blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         // rank nx[ii+1] update to RSQrq with BAQ
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
@@ -686,6 +687,7 @@ void ocp_nlp_reg_convexify_regularize_lhs(void *config, ocp_nlp_reg_dims *dims,
 
         blasfeo_dgecp(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->original_RSQrq[ii], 0, 0);
 
+        blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
         blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
 
@@ -777,6 +779,7 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
 
         // blasfeo_dgecp(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->original_RSQrq[ii], 0, 0);
 
+        blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
         blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
 
diff --git a/acados/ocp_nlp/ocp_nlp_reg_project_reduc_hess.c b/acados/ocp_nlp/ocp_nlp_reg_project_reduc_hess.c
index 195412f..ff572e4 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_project_reduc_hess.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_project_reduc_hess.c
@@ -364,6 +364,7 @@ void ocp_nlp_reg_project_reduc_hess_regularize(void *config, ocp_nlp_reg_dims *d
         // middle stages
         else
         {
+            blasfeo_dgese(nu[ss]+nx[ss], nx[ss+1], 0.0, AL, 0, 0);
             blasfeo_dgemm_nt(nu[ss]+nx[ss], nx[ss+1], nx[ss+1], 1.0, mem->BAbt[ss], 0, 0, P, 0, 0, 0.0, AL, 0, 0, AL, 0, 0); // TODO symm
             blasfeo_dsyrk_ln(nu[ss]+nx[ss], nx[ss+1], 1.0, AL, 0, 0, mem->BAbt[ss], 0, 0, 1.0, mem->RSQrq[ss], 0, 0, L, 0, 0);
         }
@@ -405,6 +406,7 @@ void ocp_nlp_reg_project_reduc_hess_regularize(void *config, ocp_nlp_reg_dims *d
         blasfeo_dgecp(nu[ss]+nx[ss], nu[ss], L, 0, 0, L2, 0, 0);
         blasfeo_dpotrf_l_mn(nu[ss]+nx[ss], nu[ss], L2, 0, 0, L2, 0, 0);
         blasfeo_dgecp(nx[ss], nu[ss], L2, nu[ss], 0, Ls, 0, 0);
+        blasfeo_dgese(nx[ss], nx[ss], 0.0, L2, nu[ss], nu[ss]);
         blasfeo_dsyrk_ln_mn(nx[ss], nx[ss], nu[ss], -1.0, Ls, 0, 0, Ls, 0, 0, 0.0, L2, nu[ss], nu[ss], L2, nu[ss], nu[ss]);
 
         // compute true_schur
@@ -489,6 +491,7 @@ void ocp_nlp_reg_project_reduc_hess_regularize(void *config, ocp_nlp_reg_dims *d
 
     // first stage: factorize P in L too
     ss = 0;
+    blasfeo_dgese(nu[ss]+nx[ss], nx[ss+1], 0.0, AL, 0, 0);
     blasfeo_dgemm_nt(nu[ss]+nx[ss], nx[ss+1], nx[ss+1], 1.0, mem->BAbt[ss], 0, 0, P, 0, 0, 0.0, AL, 0, 0, AL, 0, 0); // TODO symm
     blasfeo_dsyrk_ln(nu[ss]+nx[ss], nx[ss+1], 1.0, AL, 0, 0, mem->BAbt[ss], 0, 0, 1.0, mem->RSQrq[ss], 0, 0, L, 0, 0);
     blasfeo_dtrtr_l(nu[ss]+nx[ss], L, 0, 0, L, 0, 0); // necessary ???
diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index 2d31c70..fbfcf33 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -2359,6 +2359,7 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
 
 
             // S_forw_new_x = S_forw_x * dxf_dx
+            blasfeo_dgese(nx, nx, 0.0, S_forw_new, 0, 0);
             blasfeo_dgemm_nn(nx, nx, nx, 1.0, S_forw, 0, 0, dxf_dwn, 0, 0, 0.0, S_forw_new, 0, 0,
                                     S_forw_new, 0, 0);
             // S_forw_new_u = S_forw_x * S_forw_new_u + dxf_du
@@ -2713,9 +2714,11 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
                         blasfeo_dgemm_nn(n_out, nvv, ny, -1.0, dPHI_dyuhat, ii * n_out, 0, YYv, ii * ny,
                                         0, 1.0, J_r_vv, ii * n_out, 0, J_r_vv, ii * n_out, 0);
                         // build J_r_x1u
+                        blasfeo_dgese(n_out, nx1, 0.0, J_r_x1u, ii * n_out, 0);
                         blasfeo_dgemm_nn(n_out, nx1, ny, -1.0, dPHI_dyuhat, ii * n_out, 0, YYx, ii * ny,
                                         0, 0.0, J_r_x1u, ii * n_out, 0, J_r_x1u, ii * n_out,
                                         0);  // w.r.t. x1
+                        blasfeo_dgese(n_out, nu, 0.0, J_r_x1u, ii * n_out, nx1);
                         blasfeo_dgemm_nn(n_out, nu, ny, -1.0, dPHI_dyuhat, ii * n_out, 0, YYu, ii * ny, 0,
                                         0.0, J_r_x1u, ii * n_out, nx1, J_r_x1u, ii * n_out,
                                         nx1);  // w.r.t. u
@@ -2760,6 +2763,7 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
                             blasfeo_dgead(nxz2, nx1, -1.0, &f_LO_jac_traj[ss], ii * nxz2, nx1,
                                         J_G2_K1, ii * nxz2, ii * nx1);
                                     //  add - df_dx1dot(k1_i, x1_i, z_i, u) to (i,i)th block
+                            blasfeo_dgese(nxz2, nx1, 0.0, dK2_dx1, ii * nxz2, 0);
                             blasfeo_dgemm_nn(nxz2, nx1, nz1, 1.0, &f_LO_jac_traj[ss], ii * nxz2,
                                         2 * nx1 + nu, dZ_dx1, ii * nz1, 0, 0.0,
                                         dK2_dx1, ii * nxz2, 0, dK2_dx1, ii * nxz2, 0);
@@ -2834,6 +2838,7 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
                 }
                 else
                 {
+                    blasfeo_dgese(nx, nx, 0.0, S_forw_new, 0, 0);
                     blasfeo_dgemm_nn(nx, nx, nx, 1.0, dxf_dwn, 0, 0, S_forw, 0, 0, 0.0, S_forw_new, 0, 0,
                                     S_forw_new, 0, 0);
                     blasfeo_dgemm_nn(nx, nu, nx, 1.0, dxf_dwn, 0, 0, S_forw, 0, nx, 1.0, dxf_dwn, 0, nx,
@@ -2870,9 +2875,11 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
                 {
                     for (int ii = 0; ii < num_stages; ii++)
                     {
+                        blasfeo_dgese(nxz2, nvv, 0.0, dK2_dvv, ii * nxz2, 0);
                         blasfeo_dgemm_nn(nxz2, nvv, nz1, 1.0, &f_LO_jac_traj[ss], nxz2 * ii, 2 * nx1 + nu,
                                 ZZv, ii * nz1, 0, 0.0, dK2_dvv, ii * nxz2, 0, dK2_dvv, ii * nxz2, 0);
                                 // set dK2_dvv(i_th block) = df_dzi * ZZv(ith block);
+                        blasfeo_dgese(nxz2, nx1, 0.0, dK2_dx1, ii * nxz2, 0);
                         blasfeo_dgemm_nn(nxz2, nx1, nz1, 1.0, &f_LO_jac_traj[ss], nxz2 * ii, 2 * nx1 + nu,
                                 ZZx, ii * nz1, 0, 0.0, dK2_dx1, ii * nxz2, 0, dK2_dx1, ii * nxz2, 0);
                                 // set dK2_dx1(i_th block) = df_dzi * ZZx(ith block);
@@ -2968,9 +2975,11 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
                                         0, 1.0, J_r_vv, ii * n_out, 0, J_r_vv, ii * n_out, 0);
 
                         // build J_r_x1u
+                        blasfeo_dgese(n_out, nx1, 0.0, J_r_x1u, ii * n_out, 0);
                         blasfeo_dgemm_nn(n_out, nx1, ny, -1.0, dPHI_dyuhat, ii * n_out, 0, YYx, ii * ny,
                                         0, 0.0, J_r_x1u, ii * n_out, 0, J_r_x1u, ii * n_out,
                                         0);  // w.r.t. x1
+                        blasfeo_dgese(n_out, nu, 0.0, J_r_x1u, ii * n_out, nx1);
                         blasfeo_dgemm_nn(n_out, nu, ny, -1.0, dPHI_dyuhat, ii * n_out, 0, YYu, ii * ny, 0,
                                         0.0, J_r_x1u, ii * n_out, nx1, J_r_x1u, ii * n_out,
                                         nx1);  // w.r.t. u
diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index 91c1794..d4e36ab 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -1638,6 +1638,7 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                 else
                 {
                     // dK_dw = 0 * dK_dw + 1 * dG_dx * S_forw_old
+                    blasfeo_dgese(nK, nx + nu, 0.0, dK_dxu_ss, 0, 0);
                     blasfeo_dgemm_nn(nK, nx + nu, nx, 1.0, dG_dxu_ss, 0, 0, S_forw_ss, 0,
                                         0, 0.0, dK_dxu_ss, 0, 0, dK_dxu_ss, 0, 0);
                     // printf("dG_dxu = \n");
@@ -1659,6 +1660,7 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
             if (nf_p > 0)
             {
                 // dK_dp = dG_dx * S_p
+                blasfeo_dgese(nK, dims->np, 0.0, dK_dp, 0, 0);
                 blasfeo_dgemm_nn(nK, dims->np, nx, 1.0, dG_dxu_ss, 0, 0, S_p, 0, 0, 0.0, dK_dp, 0, 0, dK_dp, 0, 0);
 
                 for (int ii = 0; ii < ns; ii++)
@@ -1751,6 +1753,7 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                                     J_y_tilde, 0, 0);
 
                     // J_y_tilde (x part)
+                    blasfeo_dgese(ny, nx, 0.0, J_y_tilde, 0, nu);
                     blasfeo_dgemm_tn(ny, nx, nx, 1.0, tmp_nux_ny, nu, 0, S_forw_stage, 0, 0, 0.0, J_y_tilde, 0, nu,
                                     J_y_tilde, 0, nu);
 
@@ -1761,6 +1764,7 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                     if (*mem->outer_hess_is_diag)
                     {
                         // tmp_nv_ny = W_chol_diag * Cyt_tilde
+                        blasfeo_dgese(nu+nx, ny, 0.0, tmp_nux_ny2, 0, 0);
                         blasfeo_dgemm_nd(nu+nx, ny, 1.0, tmp_nux_ny, 0, 0, mem->W_chol_diag, 0, 0., tmp_nux_ny2, 0, 0, tmp_nux_ny2, 0, 0);
 
 
@@ -1886,6 +1890,7 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                                         J_y_tilde, 0, 0);
 
                         // J_y_tilde (x part)
+                        blasfeo_dgese(ny, nx, 0.0, J_y_tilde, 0, nu);
                         blasfeo_dgemm_tn(ny, nx, nx, 1.0, tmp_nux_ny, nu, 0, S_forw_stage, 0, 0,
                                     0.0, J_y_tilde, 0, nu, J_y_tilde, 0, nu);
 
@@ -1896,6 +1901,7 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
                         if (*mem->outer_hess_is_diag)
                         {
                             // tmp_nux_ny2 = W_chol_diag * J_y_tilde (ny * (nx+nu))
+                            blasfeo_dgese(nu+nx, ny, 0.0, tmp_nux_ny2, 0, 0);
                             blasfeo_dgemm_nd(nu+nx, ny, 1.0, tmp_nux_ny, 0, 0, mem->W_chol_diag, 0, 0., tmp_nux_ny2, 0, 0, tmp_nux_ny2, 0, 0);
                         }
                         else
@@ -2231,11 +2237,13 @@ int sim_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *mem_, vo
 
 #if 1
                     // exploit that du_dw0 is [0, I]
+                    blasfeo_dgese(2*nx+nz+nu, nx+nu, 0.0, tmp_dxkzu_dw0, 0, 0);
                     blasfeo_dgemm_nn(2*nx+nz+nu, nx+nu, 2*nx+nz, 1.0, f_hess, 0, 0, dxkzu_dw0, 0, 0, 0.0, tmp_dxkzu_dw0, 0, 0, tmp_dxkzu_dw0, 0, 0);
                     blasfeo_dgead(2*nx+nz+nu, nu, 1.0, f_hess, 0, 2*nx+nz, tmp_dxkzu_dw0, 0, nx);
                     blasfeo_dsyrk_ut(nx+nu, 2*nx+nz, 1.0, dxkzu_dw0, 0, 0, tmp_dxkzu_dw0, 0, 0, 1.0, Hess, 0, 0, Hess, 0, 0);
                     blasfeo_dgead(nu, nx+nu, 1.0, tmp_dxkzu_dw0, 2*nx+nz, 0, Hess, nx, 0);
 #else
+                    blasfeo_dgese(2*nx+nz+nu, nx+nu, 0.0, tmp_dxkzu_dw0, 0, 0);
                     blasfeo_dgemm_nn(2*nx+nz+nu, nx+nu, 2*nx+nz+nu, 1.0, f_hess, 0, 0, dxkzu_dw0, 0, 0, 0.0, tmp_dxkzu_dw0, 0, 0, tmp_dxkzu_dw0, 0, 0);
                     blasfeo_dsyrk_ut(nx+nu, 2*nx+nz+nu, 1.0, dxkzu_dw0, 0, 0, tmp_dxkzu_dw0, 0, 0, 1.0, Hess, 0, 0, Hess, 0, 0);
 #endif
diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 00bdc42..9f74247 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -947,6 +947,7 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
             blasfeo_dgecp(nx * ns, nx + nu, JGf, 0, 0, &JKf[ss], 0, 0);
         else
         {
+            blasfeo_dgese(nx * ns, nx + nu, 0.0, &JKf[ss], 0, 0);
             blasfeo_dgemm_nn(nx * ns, nx + nu, nx, 1.0, JGf, 0, 0, S_forw, 0, 0, 0.0, &JKf[ss], 0, 0,
                             &JKf[ss], 0, 0);
             blasfeo_dgead(nx * ns, nu, 1.0, JGf, 0, nx, &JKf[ss], 0, nx);
-- 
2.43.0


From 5647762a5381e53afbd56cded8b9bca640a4721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 020/166] fix: DDP feedback matrix at a stage with eliminated
 states is zero instead of undefined

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index b627228..ed7e5c2 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -370,8 +370,16 @@ void ocp_nlp_ddp_compute_trial_iterate(void *config_, void *dims_,
         // compute u   // (if i < N?)
         /* u_i = \bar{u}_i + alpha * k_i + K_i * (x_i - \bar{x}_i) */
         // get K
-        xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "K", i, ddp_mem->tmp_nu_times_nx, nu[i], nx[i]);
-        blasfeo_pack_dmat(nu[i], nx[i], ddp_mem->tmp_nu_times_nx, nu[i], &ddp_mem->K_mat, 0, 0);
+        if (mem->qp_in->dim->nbxe[i] == nx[i])
+        {
+            // states are eliminated in the QP that is solved: no feedback matrix available, k is the full step.
+            blasfeo_dgese(nu[i], nx[i], 0.0, &ddp_mem->K_mat, 0, 0);
+        }
+        else
+        {
+            xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "K", i, ddp_mem->tmp_nu_times_nx, nu[i], nx[i]);
+            blasfeo_pack_dmat(nu[i], nx[i], ddp_mem->tmp_nu_times_nx, nu[i], &ddp_mem->K_mat, 0, 0);
+        }
 
         // get k = tmp_nv;
         xcond_solver_config->solver_get(xcond_solver_config, mem->qp_in, qp_out, opts->qp_solver_opts, mem->qp_solver_mem, "k", i, work->tmp_nv_double, nu[i], 1);
-- 
2.43.0


From eda18634231aa04ba4def365f76ae9ebca406159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 021/166] fix: statistics must not contain entries of former
 solves

---
 acados/ocp_nlp/ocp_nlp_ddp.c                  | 12 ++++++++----
 acados/ocp_nlp/ocp_nlp_sqp.c                  |  6 ++++++
 acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c |  6 ++++++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index ed7e5c2..79af5d5 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -581,6 +581,12 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     // zero timers
     ocp_nlp_timings_reset(nlp_timings);
 
+    // do not report entries of former solves in the statistics
+    for (int ii = 0; ii < mem->stat_m * mem->stat_n; ii++)
+    {
+        mem->stat[ii] = 0.0;
+    }
+
     // if print level > 2 set print level in the qp solver to 1
     int tmp_int;
     if (nlp_opts->print_level > 2)
@@ -632,10 +638,8 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
             // linearize NLP, update QP matrices, and add Levenberg-Marquardt term
             acados_tic(&timer1);
             ocp_nlp_approximate_qp_matrices(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
-            if (nlp_opts->with_adaptive_levenberg_marquardt || config->globalization->needs_objective_value() == 1)
-            {
-                ocp_nlp_get_cost_value_from_submodules(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
-            }
+            // NOTE: the cost value is always needed, as it is part of the statistics
+            ocp_nlp_get_cost_value_from_submodules(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work);
             ocp_nlp_add_levenberg_marquardt_term(config, dims, nlp_in, nlp_out, nlp_opts, nlp_mem, nlp_work, mem->alpha, ddp_iter, nlp_mem->qp_in);
 
             nlp_timings->time_lin += acados_toc(&timer1);
diff --git a/acados/ocp_nlp/ocp_nlp_sqp.c b/acados/ocp_nlp/ocp_nlp_sqp.c
index c9bf0fc..068b9bf 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp.c
@@ -501,6 +501,12 @@ int ocp_nlp_sqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     // zero timers
     ocp_nlp_timings_reset(nlp_timings);
 
+    // do not report entries of former solves in the statistics
+    for (int ii = 0; ii < mem->stat_m * mem->stat_n; ii++)
+    {
+        mem->stat[ii] = 0.0;
+    }
+
     // if print level > 2 set print level in the qp solver to 1
     int tmp_int;
     if (nlp_opts->print_level > 2)
diff --git a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
index 297afc8..076e11f 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_with_feasible_qp.c
@@ -1575,6 +1575,12 @@ int ocp_nlp_sqp_wfqp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
     // zero timers
     ocp_nlp_timings_reset(nlp_timings);
 
+    // do not report entries of former solves in the statistics
+    for (int ii = 0; ii < mem->stat_m * mem->stat_n; ii++)
+    {
+        mem->stat[ii] = 0.0;
+    }
+
     int qp_status = 0;
     int qp_iter = 0;
     nlp_mem->objective_multiplier = 1.0;
-- 
2.43.0


From 20582fb5fae288e7534993181fd18185644cdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:34 +0000
Subject: [PATCH 022/166] fix: SQP_RTI must not write statistics out of bounds
 when feedback phases are repeated

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 35 +++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index d1169d4..aa9552f 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -618,8 +618,11 @@ static void ocp_nlp_sqp_rti_feedback_step(ocp_nlp_config *config, ocp_nlp_dims *
     }
 
     // save statistics
-    mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-    mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    if (nlp_mem->iter < mem->stat_m)
+    {
+        mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+        mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+    }
 
     if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
     {
@@ -875,8 +878,11 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
         // save statistics
         ocp_qp_out_get(nlp_mem->qp_out, 0, "qp_info", &qp_info_);
         qp_iter = qp_info_->num_iter;
-        mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-        mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+        if (nlp_mem->iter < mem->stat_m)
+        {
+            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+        }
 
         if (nlp_opts->print_level > 3)
         {
@@ -929,8 +935,11 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            if (nlp_mem->iter < mem->stat_m)
+            {
+                mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+                mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            }
 
             // compute correct dual solution in case of Hessian regularization
             acados_tic(&timer1);
@@ -999,8 +1008,11 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            if (nlp_mem->iter < mem->stat_m)
+            {
+                mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+                mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            }
             if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
             {
 #ifndef ACADOS_SILENT
@@ -1071,8 +1083,11 @@ static void ocp_nlp_sqp_rti_preparation_advanced_step(ocp_nlp_config *config, oc
             qp_iter = qp_info_->num_iter;
 
             // save statistics
-            mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
-            mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            if (nlp_mem->iter < mem->stat_m)
+            {
+                mem->stat[mem->stat_n * nlp_mem->iter+0] = qp_status;
+                mem->stat[mem->stat_n * nlp_mem->iter+1] = qp_iter;
+            }
 
             if ((qp_status!=ACADOS_SUCCESS) & (qp_status!=ACADOS_MAXITER))
             {
-- 
2.43.0


From 0e2d3fd3d6569219a899efddf8f91f83efd316cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:25 +0000
Subject: [PATCH 023/166] fix: reset of the QP solver memory also resets the
 solution used for warm starting

---
 acados/ocp_qp/ocp_qp_common.h             |  1 +
 acados/ocp_qp/ocp_qp_full_condensing.c    | 15 +++++++++++++++
 acados/ocp_qp/ocp_qp_partial_condensing.c | 10 ++++++++++
 acados/ocp_qp/ocp_qp_xcond_solver.c       |  3 +++
 4 files changed, 29 insertions(+)

diff --git a/acados/ocp_qp/ocp_qp_common.h b/acados/ocp_qp/ocp_qp_common.h
index 91218ed..53be73b 100644
--- a/acados/ocp_qp/ocp_qp_common.h
+++ b/acados/ocp_qp/ocp_qp_common.h
@@ -102,6 +102,7 @@ typedef struct
     int (*condense_rhs_seed)(void *qp_in, void *seed, void *xcond_seed, void *opts, void *mem, void *work);
     int (*condense_lhs)(void *qp_in, void *x_cond_qp_in, void *opts, void *mem, void *work);
     int (*condense_qp_out)(void *qp_in, void *x_cond_qp_in, void *qp_out, void *p_cond_qp_out, void *opts, void *mem, void *work);
+    void (*reset_xcond_qp_out)(void *mem);
     int (*expansion)(void *qp_in, void *qp_out, void *opts, void *mem, void *work);
     int (*expand_sol_seed)(void *qp_in, void *qp_out, void *opts, void *mem, void *work);
 } ocp_qp_xcond_config;
diff --git a/acados/ocp_qp/ocp_qp_full_condensing.c b/acados/ocp_qp/ocp_qp_full_condensing.c
index fa3560f..b5d9b1f 100644
--- a/acados/ocp_qp/ocp_qp_full_condensing.c
+++ b/acados/ocp_qp/ocp_qp_full_condensing.c
@@ -389,6 +389,20 @@ void *ocp_qp_full_condensing_memory_assign(void *dims_, void *opts_, void *raw_m
 
 
 
+static void ocp_qp_full_condensing_reset_xcond_qp_out(void *mem_)
+{
+    ocp_qp_full_condensing_memory *mem = mem_;
+    dense_qp_out *qp_out = mem->fcond_qp_out;
+    dense_qp_dims *dims = qp_out->dim;
+
+    blasfeo_dvecse(dims->nv+2*dims->ns, 0.0, qp_out->v, 0);
+    blasfeo_dvecse(dims->ne, 0.0, qp_out->pi, 0);
+    blasfeo_dvecse(2*(dims->nb+dims->ng+dims->ns), 0.0, qp_out->lam, 0);
+    blasfeo_dvecse(2*(dims->nb+dims->ng+dims->ns), 0.0, qp_out->t, 0);
+}
+
+
+
 void ocp_qp_full_condensing_memory_get(void *config_, void *mem_, const char *field, void* value)
 {
     ocp_qp_full_condensing_memory *mem = mem_;
@@ -663,6 +677,7 @@ void ocp_qp_full_condensing_config_initialize_default(void *config_)
     config->condense_rhs = &ocp_qp_full_condensing_condense_rhs;
     config->condense_rhs_seed = &ocp_qp_full_condensing_condense_rhs_seed;
     config->condense_lhs = &ocp_qp_full_condensing_condense_lhs;
+    config->reset_xcond_qp_out = &ocp_qp_full_condensing_reset_xcond_qp_out;
     config->condense_qp_out = &ocp_qp_full_condensing_condense_qp_out;
     config->expansion = &ocp_qp_full_expansion;
     config->expand_sol_seed = &ocp_qp_full_condensing_expand_sol_seed;
diff --git a/acados/ocp_qp/ocp_qp_partial_condensing.c b/acados/ocp_qp/ocp_qp_partial_condensing.c
index f468e54..d75e4dd 100644
--- a/acados/ocp_qp/ocp_qp_partial_condensing.c
+++ b/acados/ocp_qp/ocp_qp_partial_condensing.c
@@ -464,6 +464,15 @@ void *ocp_qp_partial_condensing_memory_assign(void *dims_, void *opts_, void *ra
 
 
 
+static void ocp_qp_partial_condensing_reset_xcond_qp_out(void *mem_)
+{
+    ocp_qp_partial_condensing_memory *mem = mem_;
+
+    ocp_qp_out_set_to_zero(mem->pcond_qp_out);
+}
+
+
+
 void ocp_qp_partial_condensing_memory_get(void *config_, void *mem_, const char *field, void* value)
 {
     ocp_qp_partial_condensing_memory *mem = mem_;
@@ -737,6 +746,7 @@ void ocp_qp_partial_condensing_config_initialize_default(void *config_)
     config->condense_lhs = &ocp_qp_partial_condensing_condense_lhs;
     config->condense_rhs = &ocp_qp_partial_condensing_condense_rhs;
     config->condense_rhs_seed = &ocp_qp_partial_condensing_condense_rhs_seed;
+    config->reset_xcond_qp_out = &ocp_qp_partial_condensing_reset_xcond_qp_out;
     config->condense_qp_out = &ocp_qp_partial_condensing_condense_qp_out;
     config->expansion = &ocp_qp_partial_expansion;
     config->expand_sol_seed = &ocp_qp_partial_condensing_expand_sol_seed;
diff --git a/acados/ocp_qp/ocp_qp_xcond_solver.c b/acados/ocp_qp/ocp_qp_xcond_solver.c
index c9c342d..23b3912 100644
--- a/acados/ocp_qp/ocp_qp_xcond_solver.c
+++ b/acados/ocp_qp/ocp_qp_xcond_solver.c
@@ -408,6 +408,9 @@ void ocp_qp_xcond_solver_memory_reset(void *config_, ocp_qp_xcond_solver_dims *d
 
     mem->solver_memory = qp_solver->memory_assign(qp_solver, xcond_qp_dims, opts->qp_solver_opts, mem->solver_memory);
 
+    // the last solution is used to warm start the next QP
+    xcond->reset_xcond_qp_out(mem->xcond_memory);
+
     return;
 }
 
-- 
2.43.0


From 77a8ebf96d6e7b85f50ff57b961325372d86c7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:16 +0000
Subject: [PATCH 024/166] fix: statistics of SQP_RTI must not contain entries
 of former calls

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index aa9552f..e19798c 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -368,6 +368,11 @@ static void reset_stats_and_sub_timers(ocp_nlp_sqp_rti_memory *mem)
     mem->nlp_mem->nlp_timings->time_qp_xcond = 0.0;
     mem->nlp_mem->nlp_timings->time_glob = 0.0;
     mem->nlp_mem->iter = 0;
+    // do not report entries of former calls in the statistics
+    for (int ii = 0; ii < mem->stat_m * mem->stat_n; ii++)
+    {
+        mem->stat[ii] = 0.0;
+    }
 }
 
 
-- 
2.43.0


From 2a37c67baa2e1363145f5b7f000675a29e34706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:54 +0000
Subject: [PATCH 025/166] fix: CONVEXIFY regularization restored a stale
 gradient after split real-time iterations

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index 994f30c..8afef5c 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -777,7 +777,8 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
         blasfeo_drowin(nx[ii+1], 1.0, mem->b[ii], 0, mem->BAbt[ii], nu[ii]+nx[ii], 0);
         blasfeo_drowin(nu[ii]+nx[ii], 1.0, mem->rq[ii], 0, mem->RSQrq[ii], nu[ii]+nx[ii], 0);
 
-        // blasfeo_dgecp(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->original_RSQrq[ii], 0, 0);
+        // backup rq -> original_RSQrq (Hessian part was backed up in regularize_lhs)
+        blasfeo_drowin(nu[ii]+nx[ii], 1.0, mem->rq[ii], 0, &mem->original_RSQrq[ii], nu[ii]+nx[ii], 0);
 
         blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
         blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
-- 
2.43.0


From 006489b51a69d756a0bbd28eccc011f53d8f9259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 026/166] fix: CONVEXIFY regularization decomposed an outdated
 upper triangle of the Hessian

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index 8afef5c..f4b7963 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -580,6 +580,8 @@ void ocp_nlp_reg_convexify_regularize(void *config, ocp_nlp_reg_dims *dims, void
         // printf("BAQ\n");
         // blasfeo_print_dmat(nx+nu, nx, &BAQ, 0, 0);
 
+        // make symmetric (only lower triangle was updated)
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
@@ -693,6 +695,8 @@ void ocp_nlp_reg_convexify_regularize_lhs(void *config, ocp_nlp_reg_dims *dims,
 
         // blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
 
+        // make symmetric (only lower triangle was updated)
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
@@ -786,6 +790,8 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
 
         blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
 
+        // make symmetric (only lower triangle was updated)
+        blasfeo_dtrtr_l(nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
         blasfeo_unpack_dmat(nu[ii], nu[ii], mem->RSQrq[ii], 0, 0, mem->R, nu[ii]);
         acados_eigen_decomposition(nu[ii], mem->R, mem->V, mem->d, mem->e);
 
-- 
2.43.0


From f07d3c460448ded06d3e07aadb080e01293b7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 027/166] fix: CONVEXIFY regularization ignored reg_epsilon

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index f4b7963..200f378 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -597,7 +597,7 @@ void ocp_nlp_reg_convexify_regularize(void *config, ocp_nlp_reg_dims *dims, void
             // TODO compute correction as a separate matrix, and apply to original_RSQrq too (TODO change this name then)
 //            acados_mirror(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, 1e-4);
             blasfeo_unpack_dmat(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->reg_hess, nu[ii]+nx[ii]);
-            acados_project(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, 1e-4);
+            acados_project(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, opts->epsilon);
             blasfeo_pack_dmat(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->reg_hess, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0);
 
             blasfeo_dgead(nu[ii]+nx[ii], nu[ii]+nx[ii], -1.0, mem->RSQrq[ii], 0, 0, &mem->tmp_RSQ, 0, 0);
@@ -710,7 +710,7 @@ void ocp_nlp_reg_convexify_regularize_lhs(void *config, ocp_nlp_reg_dims *dims,
             blasfeo_dgecp(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->tmp_RSQ, 0, 0);
 
             blasfeo_unpack_dmat(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->reg_hess, nu[ii]+nx[ii]);
-            acados_project(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, 1e-4);
+            acados_project(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, opts->epsilon);
             blasfeo_pack_dmat(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->reg_hess, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0);
 
             blasfeo_dgead(nu[ii]+nx[ii], nu[ii]+nx[ii], -1.0, mem->RSQrq[ii], 0, 0, &mem->tmp_RSQ, 0, 0);
@@ -805,7 +805,7 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
             blasfeo_dgecp(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->tmp_RSQ, 0, 0);
 
             blasfeo_unpack_dmat(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, mem->reg_hess, nu[ii]+nx[ii]);
-            acados_project(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, 1e-4);
+            acados_project(nu[ii]+nx[ii], mem->reg_hess, mem->V, mem->d, mem->e, opts->epsilon);
             blasfeo_pack_dmat(nu[ii]+nx[ii], nu[ii]+nx[ii], mem->reg_hess, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0);
 
             blasfeo_dgead(nu[ii]+nx[ii], nu[ii]+nx[ii], -1.0, mem->RSQrq[ii], 0, 0, &mem->tmp_RSQ, 0, 0);
-- 
2.43.0


From e3b2a452dde4022835cfe7753973cb3a2b5e0a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 028/166] fix: CONVEXIFY regularization with state dimensions
 that change between stages

---
 acados/ocp_nlp/ocp_nlp_reg_convexify.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_reg_convexify.c b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
index 200f378..b233c18 100644
--- a/acados/ocp_nlp/ocp_nlp_reg_convexify.c
+++ b/acados/ocp_nlp/ocp_nlp_reg_convexify.c
@@ -570,8 +570,8 @@ void ocp_nlp_reg_convexify_regularize(void *config, ocp_nlp_reg_dims *dims, void
         // TODO implement using cholesky
 
         // BAQ = BA * Q_bar
-        blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
-        blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
+        blasfeo_dgese(nu[ii]+nx[ii], nx[ii+1], 0.0, &mem->BAQ, 0, 0);
+        blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii+1], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         // rank nx[ii+1] update to RSQrq with BAQ
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
 
@@ -689,8 +689,8 @@ void ocp_nlp_reg_convexify_regularize_lhs(void *config, ocp_nlp_reg_dims *dims,
 
         blasfeo_dgecp(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], mem->RSQrq[ii], 0, 0, &mem->original_RSQrq[ii], 0, 0);
 
-        blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
-        blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
+        blasfeo_dgese(nu[ii]+nx[ii], nx[ii+1], 0.0, &mem->BAQ, 0, 0);
+        blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii+1], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
 
         // blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
@@ -784,8 +784,8 @@ void ocp_nlp_reg_convexify_regularize_rhs(void *config, ocp_nlp_reg_dims *dims,
         // backup rq -> original_RSQrq (Hessian part was backed up in regularize_lhs)
         blasfeo_drowin(nu[ii]+nx[ii], 1.0, mem->rq[ii], 0, &mem->original_RSQrq[ii], nu[ii]+nx[ii], 0);
 
-        blasfeo_dgese(nu[ii]+nx[ii], nx[ii], 0.0, &mem->BAQ, 0, 0);
-        blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
+        blasfeo_dgese(nu[ii]+nx[ii], nx[ii+1], 0.0, &mem->BAQ, 0, 0);
+        blasfeo_dgemm_nt(nu[ii]+nx[ii], nx[ii+1], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->Q_bar, 0, 0, 0.0, &mem->BAQ, 0, 0, &mem->BAQ, 0, 0);
         blasfeo_dsyrk_ln_mn(nu[ii]+nx[ii]+1, nu[ii]+nx[ii], nx[ii+1], 1.0, mem->BAbt[ii], 0, 0, &mem->BAQ, 0, 0, 1.0, mem->RSQrq[ii], 0, 0, mem->RSQrq[ii], 0, 0);
 
         blasfeo_drowex(nu[ii]+nx[ii], 1.0, mem->RSQrq[ii], nu[ii]+nx[ii], 0, mem->rq[ii], 0);
-- 
2.43.0


From a54db3610421adf7f8cf2da2cecbdd085ed88ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 029/166] fix: integrator workspace too small for the
 adjoint-only evaluation of AS-RTI level C

compute_fun_and_adj switches the integrator to adjoint sensitivities, but
the ERK and IRK workspaces were sized for the configured sensitivities:
ERK aborted on an assertion, IRK wrote behind its workspace.
---
 acados/sim/sim_erk_integrator.c | 37 +++++++++++++++++++++++----------
 acados/sim/sim_irk_integrator.c | 12 +++++------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/acados/sim/sim_erk_integrator.c b/acados/sim/sim_erk_integrator.c
index 82a0688..86ef778 100644
--- a/acados/sim/sim_erk_integrator.c
+++ b/acados/sim/sim_erk_integrator.c
@@ -465,32 +465,47 @@ acados_size_t sim_erk_workspace_calculate_size(void *config_, void *dims_, void
 
     acados_size_t size = sizeof(sim_erk_workspace);
 
-    size += (nX + nu) * sizeof(double);  // rhs_forw_in
+    acados_size_t size_dbl = 0;  // number of doubles
+
+    size_dbl += nX + nu;  // rhs_forw_in
 
     if (opts->sens_adj | opts->sens_hess)
     {
-        size += num_steps * ns * nX * sizeof(double);   // K_traj
-        size += (num_steps + 1) * nX * sizeof(double);  // out_forw_traj
+        size_dbl += num_steps * ns * nX;   // K_traj
+        size_dbl += (num_steps + 1) * nX;  // out_forw_traj
     }
     else
     {
-        size += ns * nX * sizeof(double);  // K_traj
-        size += nX * sizeof(double);       // out_forw_traj
+        size_dbl += ns * nX;  // K_traj
+        size_dbl += nX;       // out_forw_traj
     }
 
     if (opts->sens_hess) // && opts->sens_adj)
     {
-        size += (nX + nx + nu) * sizeof(double);          // rhs_adj_in
-        size += (nx + nu + nhess) * sizeof(double);       // out_adj_tmp
-        size += ns * (nx + nu + nhess) * sizeof(double);  // adj_traj
+        size_dbl += nX + nx + nu;               // rhs_adj_in
+        size_dbl += nx + nu + nhess;            // out_adj_tmp
+        size_dbl += ns * (nx + nu + nhess);     // adj_traj
     }
     else if (opts->sens_adj)
     {
-        size += (nx * 2 + nu) * sizeof(double);   // rhs_adj_in
-        size += (nx + nu) * sizeof(double);       // out_adj_tmp
-        size += ns * (nx + nu) * sizeof(double);  // adj_traj
+        size_dbl += nx * 2 + nu;     // rhs_adj_in
+        size_dbl += nx + nu;         // out_adj_tmp
+        size_dbl += ns * (nx + nu);  // adj_traj
     }
 
+    // NOTE: the dynamics module switches to purely adjoint sensitivities in compute_fun_and_adj,
+    // the workspace has to be sufficient for this as well.
+    acados_size_t size_dbl_adj = 0;
+    int nX_adj = opts->sens_forw_p ? nX : nx;
+    size_dbl_adj += nX_adj + nu;                    // rhs_forw_in
+    size_dbl_adj += num_steps * ns * nX_adj;        // K_traj
+    size_dbl_adj += (num_steps + 1) * nX_adj;       // out_forw_traj
+    size_dbl_adj += nx * 2 + nu;                    // rhs_adj_in
+    size_dbl_adj += nx + nu;                        // out_adj_tmp
+    size_dbl_adj += ns * (nx + nu);                 // adj_traj
+
+    size += (size_dbl > size_dbl_adj ? size_dbl : size_dbl_adj) * sizeof(double);
+
     make_int_multiple_of(8, &size);
     size += 1 * 8;
 
diff --git a/acados/sim/sim_irk_integrator.c b/acados/sim/sim_irk_integrator.c
index d4e36ab..ef56177 100644
--- a/acados/sim/sim_irk_integrator.c
+++ b/acados/sim/sim_irk_integrator.c
@@ -650,9 +650,9 @@ acados_size_t sim_irk_workspace_calculate_size(void *config_, void *dims_, void
     /* blasfeo structs */
     size += 4 * sizeof(struct blasfeo_dvec);          // rG, K, xt, xn
 
-    if (opts->sens_adj || opts->sens_hess){
-        size += 2 * steps * sizeof(struct blasfeo_dvec);  // **xn_traj, **K_traj
-    }
+    // NOTE: always include the memory for adjoint sensitivities,
+    // since the dynamics module switches them on in compute_fun_and_adj.
+    size += 2 * steps * sizeof(struct blasfeo_dvec);  // **xn_traj, **K_traj
 
     size += 2 * sizeof(struct blasfeo_dvec);  // lambda, lambdaK
     if (!opts->sens_hess)
@@ -725,10 +725,8 @@ acados_size_t sim_irk_workspace_calculate_size(void *config_, void *dims_, void
         size += 1 * blasfeo_memsize_dmat(nx + dims->nz, dims->np);
     }
 
-    if ( opts->sens_adj || opts->sens_hess ){
-        size += steps * blasfeo_memsize_dvec(nx);       // for xn_traj
-        size += steps * blasfeo_memsize_dvec(nK);       // for K_traj
-    }
+    size += steps * blasfeo_memsize_dvec(nx);       // for xn_traj
+    size += steps * blasfeo_memsize_dvec(nK);       // for K_traj
 
     size += 2 * blasfeo_memsize_dmat(nx + nz, nx);  // df_dx, df_dxdot
     size += blasfeo_memsize_dmat(nx + nz, nu);      // df_du
-- 
2.43.0


From c6fefceb923d1f1bf872d55e64526a0c4679c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 030/166] fix: SQP_RTI residual getters read the QP residual
 columns if the latter are logged

---
 .../acados_template/acados_ocp_solver.py         | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 9e3b25a..f6f62fd 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1849,7 +1849,9 @@ class AcadosOcpSolver:
                 return full_stats[2, :]
             elif self.ocp.solver_options.nlp_solver_type == 'SQP_RTI':
                 if self.ocp.solver_options.rti_log_residuals == 1:
-                    return full_stats[4, :]
+                    # skip QP residual columns
+                    offset = 4 if self.ocp.solver_options.nlp_solver_ext_qp_res == 1 else 0
+                    return full_stats[4 + offset, :]
                 else:
                     raise ValueError("res_eq_all is not available for SQP_RTI if rti_log_residuals is not enabled.")
             else:
@@ -1861,7 +1863,9 @@ class AcadosOcpSolver:
                 return full_stats[1, :]
             elif self.ocp.solver_options.nlp_solver_type == 'SQP_RTI':
                 if self.ocp.solver_options.rti_log_residuals == 1:
-                    return full_stats[3, :]
+                    # skip QP residual columns
+                    offset = 4 if self.ocp.solver_options.nlp_solver_ext_qp_res == 1 else 0
+                    return full_stats[3 + offset, :]
                 else:
                     raise ValueError("res_stat_all is not available for SQP_RTI if rti_log_residuals is not enabled.")
             else:
@@ -1873,7 +1877,9 @@ class AcadosOcpSolver:
                 return full_stats[3, :]
             elif self.ocp.solver_options.nlp_solver_type == 'SQP_RTI':
                 if self.ocp.solver_options.rti_log_residuals == 1:
-                    return full_stats[5, :]
+                    # skip QP residual columns
+                    offset = 4 if self.ocp.solver_options.nlp_solver_ext_qp_res == 1 else 0
+                    return full_stats[5 + offset, :]
                 else:
                     raise ValueError("res_ineq_all is not available for SQP_RTI if rti_log_residuals is not enabled.")
             else:
@@ -1885,7 +1891,9 @@ class AcadosOcpSolver:
                 return full_stats[4, :]
             elif self.ocp.solver_options.nlp_solver_type == 'SQP_RTI':
                 if self.ocp.solver_options.rti_log_residuals == 1:
-                    return full_stats[6, :]
+                    # skip QP residual columns
+                    offset = 4 if self.ocp.solver_options.nlp_solver_ext_qp_res == 1 else 0
+                    return full_stats[6 + offset, :]
                 else:
                     raise ValueError("res_comp_all is not available for SQP_RTI if rti_log_residuals is not enabled.")
             else:
-- 
2.43.0


From 4329ea38c4978c88d3e79647371e08c05dd991b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 031/166] fix: SQP_RTI logs stale dynamics and constraint
 values when residuals are recomputed for logging

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index e19798c..43fbe09 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -406,13 +406,16 @@ static void prepare_full_residual_computation(ocp_nlp_config *config,
     int *nv = dims->nv;
     int *nx = dims->nx;
     int *nu = dims->nu;
-    // int *ni = dims->ni;
+    int *ni = dims->ni;
 
     for (int i=0; i < N; i++)
     {
         // dynamics: evaluate function and adjoint
         config->dynamics[i]->compute_fun_and_adj(config->dynamics[i], dims->dynamics[i], in->dynamics[i],
                                          opts->dynamics[i], mem->dynamics[i], work->dynamics[i]);
+        struct blasfeo_dvec *dyn_fun
+            = config->dynamics[i]->memory_get_fun_ptr(mem->dynamics[i]);
+        blasfeo_dveccp(nx[i+1], dyn_fun, 0, mem->dyn_fun + i, 0);
     }
 
     for (int i=0; i <= N; i++)
@@ -423,6 +426,11 @@ static void prepare_full_residual_computation(ocp_nlp_config *config,
         struct blasfeo_dvec *ineq_adj =
             config->constraints[i]->memory_get_adj_ptr(mem->constraints[i]);
         blasfeo_dveccp(nv[i], ineq_adj, 0, mem->ineq_adj + i, 0);
+        config->constraints[i]->update_qp_vectors(config->constraints[i], dims->constraints[i],
+            in->constraints[i], opts->constraints[i], mem->constraints[i], work->constraints[i]);
+        struct blasfeo_dvec *ineq_fun =
+            config->constraints[i]->memory_get_fun_ptr(mem->constraints[i]);
+        blasfeo_dveccp(2 * ni[i], ineq_fun, 0, mem->ineq_fun + i, 0);
     }
 
 #if defined(ACADOS_WITH_OPENMP)
-- 
2.43.0


From 231975c8ab90c4085771e265245d913568d476ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 032/166] fix: DDP crashes with nlp_solver_ext_qp_res, as it
 uses the wrong workspace

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 79af5d5..6911a10 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -755,7 +755,7 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         if (nlp_opts->ext_qp_res)
         {
             if (ddp_iter+1 < mem->stat_m)
-                ocp_qp_res_compute_nrm_inf(work->qp_res, mem->stat+(mem->stat_n*(ddp_iter+1)+7));
+                ocp_qp_res_compute_nrm_inf(nlp_work->qp_res, mem->stat+(mem->stat_n*(ddp_iter+1)+7));
         }
 
         // exit conditions on QP status
-- 
2.43.0


From 7a8db5dad28712517dca8295718be3b58542d147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 033/166] fix: DDP reports success from residuals of an earlier
 call if the iteration limit is 0

---
 acados/ocp_nlp/ocp_nlp_ddp.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 6911a10..5fd1e0c 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -457,6 +457,16 @@ static bool check_termination(int ddp_iter, ocp_nlp_res *nlp_res, ocp_nlp_ddp_me
         return true;
     }
 
+    // residuals are not evaluated at the last iterate in this case
+    if (!nlp_opts->eval_residual_at_max_iter && ddp_iter >= nlp_opts->max_iter)
+    {
+        nlp_mem->status = ACADOS_MAXITER;
+        if (nlp_opts->print_level > 0){
+            printf("Stopped: Maximum Iterations Reached.\n");
+        }
+        return true;
+    }
+
     // We do not need to check for the complementarity condition, since the
     // only inequalities are the ones that fix the initial state
     if (nlp_res->inf_norm_res_eq < nlp_opts->tol_eq && nlp_res->inf_norm_res_ineq < nlp_opts->tol_ineq)
-- 
2.43.0


From 45cd682b3ad8c17e2d2d28b81351d4cd947e0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:00 +0000
Subject: [PATCH 034/166] fix: get_stats returns None for qp_stat of solvers
 other than SQP and SQP_RTI

---
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index f6f62fd..9569027 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1796,14 +1796,16 @@ class AcadosOcpSolver:
 
         elif field_ == 'qp_stat':
             full_stats = self.get_stats('statistics')
-            if self.ocp.solver_options.nlp_solver_type == 'SQP':
+            if self.ocp.solver_options.nlp_solver_type in ('SQP', 'DDP'):
                 return full_stats[5, :]
             elif self.ocp.solver_options.nlp_solver_type == 'SQP_RTI':
                 return full_stats[1, :]
+            else:
+                raise ValueError(f"qp_stat is not available for nlp_solver_type {self.ocp.solver_options.nlp_solver_type}.")
 
         elif field_ == 'qp_iter':
             full_stats = self.get_stats('statistics')
-            if self.ocp.solver_options.nlp_solver_type == 'SQP':
+            if self.ocp.solver_options.nlp_solver_type in ('SQP', 'DDP'):
                 return full_stats[6, :]
             elif self.ocp.solver_options.nlp_solver_type == 'SQP_RTI':
                 return full_stats[2, :]
-- 
2.43.0


From f315a18563c2762c3fa03cae450f30d01175f062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:25 +0000
Subject: [PATCH 035/166] fix: simulation times of SQP_RTI accumulate over the
 calls

---
 acados/ocp_nlp/ocp_nlp_sqp_rti.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_sqp_rti.c b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
index 43fbe09..1712e5a 100644
--- a/acados/ocp_nlp/ocp_nlp_sqp_rti.c
+++ b/acados/ocp_nlp/ocp_nlp_sqp_rti.c
@@ -367,6 +367,9 @@ static void reset_stats_and_sub_timers(ocp_nlp_sqp_rti_memory *mem)
     mem->nlp_mem->nlp_timings->time_qp_solver_call = 0.0;
     mem->nlp_mem->nlp_timings->time_qp_xcond = 0.0;
     mem->nlp_mem->nlp_timings->time_glob = 0.0;
+    mem->nlp_mem->nlp_timings->time_sim = 0.0;
+    mem->nlp_mem->nlp_timings->time_sim_la = 0.0;
+    mem->nlp_mem->nlp_timings->time_sim_ad = 0.0;
     mem->nlp_mem->iter = 0;
     // do not report entries of former calls in the statistics
     for (int ii = 0; ii < mem->stat_m * mem->stat_n; ii++)
-- 
2.43.0


From a11956d14c3c23575a3e2ded3b1bc10bb488c9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 036/166] fix: penalty mode of the funnel globalization is
 carried over to the next solve

---
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index 2dfbbcf..1cf2b4a 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -599,6 +599,7 @@ void ocp_nlp_globalization_funnel_initialize_memory(void *config_, void *dims_,
     mem->l1_infeasibility = ocp_nlp_get_l1_infeasibility(config, dims, nlp_mem);
     initialize_funnel_width(mem, opts, mem->l1_infeasibility);
     mem->funnel_iter_type = '-';
+    mem->funnel_penalty_mode = false;
     initialize_funnel_penalty_parameter(mem, opts);
     mem->alpha = 1.0;
     mem->penalty_parameter = nlp_mem->objective_multiplier;
-- 
2.43.0


From f54122811ca8eed74076f70c7b86d6759a4c412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 037/166] fix: initial penalty parameter of the funnel
 globalization has no effect

---
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index 1cf2b4a..2a740af 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -602,7 +602,7 @@ void ocp_nlp_globalization_funnel_initialize_memory(void *config_, void *dims_,
     mem->funnel_penalty_mode = false;
     initialize_funnel_penalty_parameter(mem, opts);
     mem->alpha = 1.0;
-    mem->penalty_parameter = nlp_mem->objective_multiplier;
+    nlp_mem->objective_multiplier = mem->penalty_parameter;
 }
 
 void ocp_nlp_globalization_funnel_config_initialize_default(ocp_nlp_globalization_config *config)
-- 
2.43.0


From 0184f5021ab1c0aa81fa3ed833fce18bfb36b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:54 +0000
Subject: [PATCH 038/166] fix: funnel line search takes step sizes below
 alpha_min

---
 acados/ocp_nlp/ocp_nlp_globalization_funnel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
index 2a740af..ed7fca5 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_funnel.c
@@ -522,13 +522,13 @@ int backtracking_line_search(ocp_nlp_config *config,
             return ACADOS_SUCCESS;
         }
 
+        alpha *= globalization_opts->alpha_reduction;
+
         if (alpha < globalization_opts->alpha_min)
         {
             printf("Funnel Linesearch: Step size gets too small. alpha = %e < alpha_min = %e Should enter penalty phase. \n", alpha, globalization_opts->alpha_min);
             return ACADOS_MINSTEP;
         }
-
-        alpha *= globalization_opts->alpha_reduction;
     }
 }
 
-- 
2.43.0


From ddcad922c97c7b1aaf1952ec6a8aa0993c9698db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 039/166] fix: directional derivative of the merit function has
 the wrong sign for lower bounds

---
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index 7a7e428..88acb62 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -253,13 +253,13 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     if (j < nb[i])
                     {
                         // printf("lower idxb[%d] = %d dir %f, constraint_val %f, nb = %d\n", j, idxb[j], BLASFEO_DVECEL(mem->qp_out->ux, idxb[j]), constraint_val, nb[i]);
-                        merit_grad_ineq += weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
+                        merit_grad_ineq -= weight * BLASFEO_DVECEL(mem->qp_out->ux+i, idxb[j]);
                     }
                     else if (j < nb[i] + ng[i])
                     {
                         // merit_grad_ineq += weight * mem->qp_in->DCt_j * dux
                         blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - nb[i], 0, &tmp_vec_nxu, 0);
-                        merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
+                        merit_grad_ineq -= weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint lower contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
                     else if (j < 2*nb[i] + ng[i])
-- 
2.43.0


From 860f2491b4d11662a5b783ecc460c0ddf9d9bbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:08 +0000
Subject: [PATCH 040/166] fix: globalization_eps_sufficient_descent has no
 effect for the funnel globalization

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c  | 3 +++
 .../acados_template/c_templates_tera/acados_solver.in.c        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 79686df..884675d 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -2438,6 +2438,9 @@ void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule)
 {%- elif solver_options.globalization == "FUNNEL_L1PEN_LINESEARCH" %}
     // ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization", "funnel_l1pen_linesearch");
 
+    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
+    ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
+
     double globalization_funnel_init_increase_factor = {{ solver_options.globalization_funnel_init_increase_factor }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_init_increase_factor", &globalization_funnel_init_increase_factor);
 
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 48869c9..a0a26dd 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2529,6 +2529,9 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
 {%- elif solver_options.globalization == "FUNNEL_L1PEN_LINESEARCH" %}
 
+    double globalization_eps_sufficient_descent = {{ solver_options.globalization_eps_sufficient_descent }};
+    ocp_nlp_solver_opts_set(nlp_config, capsule->nlp_opts, "globalization_eps_sufficient_descent", &globalization_eps_sufficient_descent);
+
     double globalization_funnel_init_increase_factor = {{ solver_options.globalization_funnel_init_increase_factor }};
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "globalization_funnel_init_increase_factor", &globalization_funnel_init_increase_factor);
 
-- 
2.43.0


From 883065ec73b018361dabb3512a9705f876fa1898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 041/166] fix: directional derivative of the merit function
 uses a wrong part of the constraint Jacobian

---
 acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
index 88acb62..a3c295d 100644
--- a/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
+++ b/acados/ocp_nlp/ocp_nlp_globalization_merit_backtracking.c
@@ -258,7 +258,7 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     else if (j < nb[i] + ng[i])
                     {
                         // merit_grad_ineq += weight * mem->qp_in->DCt_j * dux
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - nb[i], 0, &tmp_vec_nxu, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - nb[i], &tmp_vec_nxu, 0);
                         merit_grad_ineq -= weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint lower contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
@@ -269,7 +269,7 @@ static double ocp_nlp_compute_merit_gradient(ocp_nlp_config *config, ocp_nlp_dim
                     }
                     else if (j < 2*nb[i] + 2*ng[i])
                     {
-                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, j - 2*nb[i] - ng[i], 0, &tmp_vec_nxu, 0);
+                        blasfeo_dcolex(nx[i] + nu[i], mem->qp_in->DCt+i, 0, j - 2*nb[i] - ng[i], &tmp_vec_nxu, 0);
                         merit_grad_ineq += weight * blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0);
                         // printf("general linear constraint upper contribution = %e, val = %e\n", blasfeo_ddot(nx[i] + nu[i], &tmp_vec_nxu, 0, mem->qp_out->ux+i, 0), constraint_val);
                     }
-- 
2.43.0


From 7a5ce3f08e0fa9f1bcc99d2a9d81b559e6f3f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 042/166] fix: Gershgorin estimate for objective scaling reads
 the valid lower triangle of the Hessian

compute_gershgorin_max_abs_eig_estimate read both triangles of RSQrq, but only the lower one
is maintained, so the estimate depended on stale values and objective scaling limits were wrong.
---
 acados/utils/math.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acados/utils/math.c b/acados/utils/math.c
index 7b2ec88..2483e44 100644
--- a/acados/utils/math.c
+++ b/acados/utils/math.c
@@ -1121,7 +1121,8 @@ void compute_gershgorin_max_abs_eig_estimate(int n, struct blasfeo_dmat *A, doub
         {
             if (jj != ii)
             {
-                r_i += fabs(BLASFEO_DMATEL(A, ii, jj));
+                // only the lower triangle of A is accessed
+                r_i += fabs(jj < ii ? BLASFEO_DMATEL(A, ii, jj) : BLASFEO_DMATEL(A, jj, ii));
             }
         }
         a = BLASFEO_DMATEL(A, ii, ii);
-- 
2.43.0


From 9d78fdd65badf34ad88b80aa528e4e35b7120763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 043/166] fix: include terminal constraints in the minimal QP
 constraint scaling

The adaptive QP tolerance is based on the smallest constraint scaling factor, the terminal stage was left out.
---
 acados/ocp_nlp/ocp_nlp_qpscaling.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_qpscaling.c b/acados/ocp_nlp/ocp_nlp_qpscaling.c
index 9fc12e8..00ff59f 100644
--- a/acados/ocp_nlp/ocp_nlp_qpscaling.c
+++ b/acados/ocp_nlp/ocp_nlp_qpscaling.c
@@ -283,7 +283,7 @@ void ocp_nlp_qpscaling_memory_get(ocp_nlp_qpscaling_dims *dims, void *mem_, cons
     {
         double min = 1.0;
         double tmp;
-        for (int i = 0; i < dims->qp_dim->N; i++)
+        for (int i = 0; i <= dims->qp_dim->N; i++)
         {
             for (int j = 0; j < dims->qp_dim->ng[i]; j++)
             {
-- 
2.43.0


From 8cf1b4eed09af920a8663fd85c840f8a40fa8138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 044/166] fix: ADAPTIVE_QPSCALING without constraint scaling
 dereferenced an unassigned vector

---
 acados/ocp_nlp/ocp_nlp_qpscaling.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_qpscaling.c b/acados/ocp_nlp/ocp_nlp_qpscaling.c
index 00ff59f..46b38c3 100644
--- a/acados/ocp_nlp/ocp_nlp_qpscaling.c
+++ b/acados/ocp_nlp/ocp_nlp_qpscaling.c
@@ -231,6 +231,10 @@ void *ocp_nlp_qpscaling_memory_assign(ocp_nlp_qpscaling_dims *dims, void *opts_,
             blasfeo_dvecse(orig_qp_dim->ng[i], 1.0, mem->constraints_scaling_vec+i, 0);
         }
     }
+    else
+    {
+        mem->constraints_scaling_vec = NULL;
+    }
     assert((char *)mem + ocp_nlp_qpscaling_memory_calculate_size(dims, opts_, orig_qp_dim) >= c_ptr);
 
     return mem;
@@ -283,7 +287,8 @@ void ocp_nlp_qpscaling_memory_get(ocp_nlp_qpscaling_dims *dims, void *mem_, cons
     {
         double min = 1.0;
         double tmp;
-        for (int i = 0; i <= dims->qp_dim->N; i++)
+        // without constraint scaling, all factors are 1.0
+        for (int i = 0; mem->constraints_scaling_vec != NULL && i <= dims->qp_dim->N; i++)
         {
             for (int j = 0; j < dims->qp_dim->ng[i]; j++)
             {
-- 
2.43.0


From ac6792a4b5a6d27126308248786e6272db738c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:54 +0000
Subject: [PATCH 045/166] fix: DDP with QP scaling solved an uninitialized QP

The scaled QP was never set up in the DDP loop, so enabling QP scaling lead to NaN.
---
 acados/ocp_nlp/ocp_nlp_ddp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_ddp.c b/acados/ocp_nlp/ocp_nlp_ddp.c
index 5fd1e0c..cf05b85 100644
--- a/acados/ocp_nlp/ocp_nlp_ddp.c
+++ b/acados/ocp_nlp/ocp_nlp_ddp.c
@@ -693,6 +693,11 @@ int ocp_nlp_ddp(void *config_, void *dims_, void *nlp_in_, void *nlp_out_,
         }
         reg_param_memory = nlp_opts->levenberg_marquardt;
 
+        // QP scaling
+        acados_tic(&timer1);
+        ocp_nlp_qpscaling_scale_qp(dims->qpscaling, nlp_opts->qpscaling, nlp_mem->qpscaling, qp_in);
+        nlp_timings->time_qpscaling += acados_toc(&timer1);
+
         // regularize Hessian
         // NOTE: this is done before termination, such that we can get the QP at the stationary point that is actually solved, if we exit with success.
         acados_tic(&timer1);
-- 
2.43.0


From d0dc94a559808504842b1df9347e847e752a7a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 046/166] fix: set_new_time_steps misread or ignored some time
 steps

Arrays that are not contiguous or not of type double were passed to C as if they were, and values were
compared with a stored reference of the array given before, such that changes were ignored after modifying
this array in place or after resetting the numerical values.
---
 .../acados_template/acados_template/acados_ocp_solver.py     | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 9569027..50fdcab 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -685,9 +685,8 @@ class AcadosOcpSolver:
         if not self.solver_created:
             raise RuntimeError('Solver was not yet created!')
 
-        # check if time steps really changed in value
-        if np.array_equal(self.ocp.solver_options.time_steps, new_time_steps):
-            return
+        # own copy of the values as contiguous array of doubles
+        new_time_steps = np.array(new_time_steps, dtype=np.float64, order='C').flatten()
 
         N = new_time_steps.size
         new_time_steps_data = cast(new_time_steps.ctypes.data, POINTER(c_double))
-- 
2.43.0


From cd3b138f396d944db55e8d160f60e8cfaca03832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 047/166] fix: keep the terminal cost scaling when recreating a
 solver with new time steps

---
 .../acados_template/c_templates_tera/acados_solver.in.c        | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index a0a26dd..de2ce5b 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -1092,6 +1092,9 @@ void {{ name }}_acados_create_setup_nlp_in_numerical_values({{ name }}_solver_ca
     {
         // NOTE: this sets scaling and time_steps
         {{ name }}_acados_update_time_steps(capsule, N, new_time_steps);
+        // terminal cost scaling is independent of the time steps
+        double terminal_cost_scaling = {{ solver_options.cost_scaling[solver_options.N_horizon] }};
+        ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, N, "scaling", &terminal_cost_scaling);
     }
     else
     {
-- 
2.43.0


From e303cd696fe335da67f1421689a281916d2385c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 048/166] fix: resetting numerical values of a solver with
 changed N accessed arrays of the wrong size

time_steps and cost_scaling were allocated with the current N and filled with the values for the code generated N.
---
 .../acados_template/c_templates_tera/acados_solver.in.c        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index de2ce5b..97682f6 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -1096,8 +1096,9 @@ void {{ name }}_acados_create_setup_nlp_in_numerical_values({{ name }}_solver_ca
         double terminal_cost_scaling = {{ solver_options.cost_scaling[solver_options.N_horizon] }};
         ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, N, "scaling", &terminal_cost_scaling);
     }
-    else
+    else if (N == {{ name | upper }}_N)
     {
+        // NOTE: if N differs from the code generated one, e.g. when resetting, the current values are kept
         // set time_steps
     {%- if solver_options.N_horizon > 0 %}
     {% if all_equal == true -%}{# all time_steps are identical #}
-- 
2.43.0


From e14502deb9397ded2ae8c5320bfb3e9430433f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:04 +0000
Subject: [PATCH 049/166] fix: stage-wise integrator options when creating the
 solver with a different N

The arrays were allocated with the given N, but filled with the values for the code generated N.
If N is larger, the values of the last code generated stage are used for the additional stages.
---
 .../c_templates_tera/acados_solver.in.c              | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 97682f6..e56e170 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2610,10 +2610,12 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_steps", &sim_method_num_steps);
     {%- else %}
     // sim_method_num_steps are different
-    int* sim_method_num_steps = malloc(N*sizeof(int));
+    int* sim_method_num_steps = malloc((N > {{ name | upper }}_N ? N : {{ name | upper }}_N)*sizeof(int));
     {%- for j in range(end=solver_options.N_horizon) %}
     sim_method_num_steps[{{ j }}] = {{ solver_options.sim_method_num_steps[j] }};
     {%- endfor %}
+    for (int i = {{ name | upper }}_N; i < N; i++)
+        sim_method_num_steps[i] = sim_method_num_steps[{{ name | upper }}_N-1];
 
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_steps", &sim_method_num_steps[i]);
@@ -2636,10 +2638,12 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_stages", &sim_method_num_stages);
   {%- else %}
-    int* sim_method_num_stages = malloc(N*sizeof(int));
+    int* sim_method_num_stages = malloc((N > {{ name | upper }}_N ? N : {{ name | upper }}_N)*sizeof(int));
     {%- for j in range(end=solver_options.N_horizon) %}
     sim_method_num_stages[{{ j }}] = {{ solver_options.sim_method_num_stages[j] }};
     {%- endfor %}
+    for (int i = {{ name | upper }}_N; i < N; i++)
+        sim_method_num_stages[i] = sim_method_num_stages[{{ name | upper }}_N-1];
 
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_num_stages", &sim_method_num_stages[i]);
@@ -2668,10 +2672,12 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_jac_reuse", &tmp_bool);
   {%- else %}
-    bool* sim_method_jac_reuse = malloc(N*sizeof(bool));
+    bool* sim_method_jac_reuse = malloc((N > {{ name | upper }}_N ? N : {{ name | upper }}_N)*sizeof(bool));
     {%- for j in range(end=solver_options.N_horizon) %}
     sim_method_jac_reuse[{{ j }}] = (bool){{ solver_options.sim_method_jac_reuse[j] }};
     {%- endfor %}
+    for (int i = {{ name | upper }}_N; i < N; i++)
+        sim_method_jac_reuse[i] = sim_method_jac_reuse[{{ name | upper }}_N-1];
 
     for (int i = 0; i < N; i++)
         ocp_nlp_solver_opts_set_at_stage(nlp_config, nlp_opts, i, "dynamics_jac_reuse", &sim_method_jac_reuse[i]);
-- 
2.43.0


From 2551c701bd0a74ebaf665cc35c9c9781fed35d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 050/166] fix: partial condensing block sizes after changing N
 or qp_solver_cond_N

The code generated block sizes were kept for a different horizon or number of blocks, writing out of bounds or
exiting with an error about inconsistent block sizes.
---
 acados/ocp_qp/ocp_qp_partial_condensing.c      |  5 +++++
 .../c_templates_tera/acados_solver.in.c        | 18 +++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/acados/ocp_qp/ocp_qp_partial_condensing.c b/acados/ocp_qp/ocp_qp_partial_condensing.c
index d75e4dd..4648647 100644
--- a/acados/ocp_qp/ocp_qp_partial_condensing.c
+++ b/acados/ocp_qp/ocp_qp_partial_condensing.c
@@ -290,6 +290,11 @@ void ocp_qp_partial_condensing_opts_set(void *opts_, const char *field, void* va
     if(!strcmp(field, "N"))
     {
         int *tmp_ptr = value;
+        if (opts->N2 != *tmp_ptr)
+        {
+            // block sizes given before do not fit to the new number of blocks
+            opts->block_size_was_set = false;
+        }
         opts->N2 = *tmp_ptr;
     }
     else if(!strcmp(field, "N_bkp"))
diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index e56e170..5979b4c 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2728,13 +2728,17 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     {%- endif %}
     ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_N", &qp_solver_cond_N);
 
-    {%- if solver_options.qp_solver_cond_block_size and solver_options.N_horizon > 0 -%}
-    int* qp_solver_cond_block_size = malloc((qp_solver_cond_N+1) * sizeof(int));
-    {%- for i in range(end=solver_options.qp_solver_cond_N+1) %}
-    qp_solver_cond_block_size[{{ i }}] = {{ solver_options.qp_solver_cond_block_size[i] }};
-    {%- endfor %}
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_block_size", qp_solver_cond_block_size);
-    free(qp_solver_cond_block_size);
+    {%- if solver_options.qp_solver_cond_block_size and solver_options.N_horizon > 0 %}
+    // NOTE: the block sizes only fit to the code generated horizon and number of blocks.
+    if (N == {{ name | upper }}_N)
+    {
+        int* qp_solver_cond_block_size = malloc((qp_solver_cond_N+1) * sizeof(int));
+        {%- for i in range(end=solver_options.qp_solver_cond_N+1) %}
+        qp_solver_cond_block_size[{{ i }}] = {{ solver_options.qp_solver_cond_block_size[i] }};
+        {%- endfor %}
+        ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_block_size", qp_solver_cond_block_size);
+        free(qp_solver_cond_block_size);
+    }
     {%- endif %}
 {%- endif %}
 
-- 
2.43.0


From 779b80f7e14ebcb3f5e32edc9fc5cf4fb1581552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:47 +0000
Subject: [PATCH 051/166] fix: qp_solver_cond_N recorded in Python after
 recreating a solver with new time steps

The recreated solver uses the code generated qp_solver_cond_N, but the previous value was still recorded, such that
update_qp_solver_cond_N with this value was ignored.
---
 .../acados_template/acados_template/acados_ocp_solver.py     | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 50fdcab..eb0469e 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -309,6 +309,7 @@ class AcadosOcpSolver:
         # store solver-relevant information directly from the OCP formulation object
         self.__problem_class = "OCP" if isinstance(ocp, AcadosOcp) else "MOCP"
         self.__N = ocp.solver_options.N_horizon
+        self.__qp_solver_cond_N_generated = ocp.solver_options.qp_solver_cond_N
 
         if self.__problem_class == "OCP":
             self.__has_x0 = ocp.constraints.has_x0
@@ -708,6 +709,10 @@ class AcadosOcpSolver:
             # get pointers solver
             self.__get_pointers_solver()
 
+            # the recreated solver uses the code generated qp_solver_cond_N, limited by N
+            if self.__qp_solver_cond_N_generated is not None:
+                self.ocp.solver_options.qp_solver_cond_N = min(self.__qp_solver_cond_N_generated, N)
+
         # store time_steps, N
         self.ocp.solver_options.time_steps = new_time_steps
         self.__N = N
-- 
2.43.0


From 02affb67806dcd3648d099d7392c46dc387db4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 052/166] fix: precomputed GNSF integrator matrices after
 changing time steps

---
 .../c_templates_tera/acados_solver.in.c         | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 5979b4c..8a15ab7 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -181,6 +181,11 @@ int {{ name }}_acados_create({{ name }}_solver_capsule* capsule)
 }
 
 
+{%- if solver_options.integrator_type == "GNSF" %}
+int {{ name }}_acados_create_precompute({{ name }}_solver_capsule* capsule);
+
+
+{% endif %}
 int {{ name }}_acados_update_time_steps({{ name }}_solver_capsule* capsule, int N, double* new_time_steps)
 {
 {% if solver_options.N_horizon == 0 %}
@@ -205,6 +210,11 @@ int {{ name }}_acados_update_time_steps({{ name }}_solver_capsule* capsule, int
         ocp_nlp_in_set(nlp_config, nlp_dims, nlp_in, i, "Ts", &new_time_steps[i]);
         ocp_nlp_cost_model_set(nlp_config, nlp_dims, nlp_in, i, "scaling", &new_time_steps[i]);
     }
+    {%- if solver_options.integrator_type == "GNSF" %}
+    // precomputed integrator matrices depend on the time steps
+    if (capsule->nlp_solver != NULL)
+        return {{ name }}_acados_create_precompute(capsule);
+    {%- endif %}
     return 0;
 {% endif %}
 }
@@ -3030,6 +3040,9 @@ int {{ name }}_acados_create_with_discretization({{ name }}_solver_capsule* caps
     // number of expected runtime parameters
     capsule->nlp_np = NP;
 
+    // solver is created below
+    capsule->nlp_solver = NULL;
+
     // 1) create and set nlp_solver_plan; create nlp_config
     capsule->nlp_solver_plan = ocp_nlp_plan_create(N);
     {{ name }}_acados_create_set_plan(capsule->nlp_solver_plan, N);
@@ -3139,6 +3152,10 @@ int {{ name }}_acados_reset({{ name }}_solver_capsule* capsule, int reset_qp_sol
 
         // reset numerical values in nlp_in
         {{ name }}_acados_create_setup_nlp_in_numerical_values(capsule, N, NULL);
+        {%- if solver_options.integrator_type == "GNSF" %}
+        // precomputed integrator matrices depend on the time steps
+        {{ name }}_acados_create_precompute(capsule);
+        {%- endif %}
     }
 
     if (reset_solver_options)
-- 
2.43.0


From f51cc164845284cda6fe9e1e025befd91b61db59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:31 +0000
Subject: [PATCH 053/166] fix: setting time steps after solver creation had no
 effect on the integrators

The time steps were only copied to the dynamics module when precomputing.
---
 interfaces/acados_c/ocp_nlp_interface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index f342da0..08b21b6 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -440,6 +440,8 @@ void ocp_nlp_in_set(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_nlp_in *in,
     {
         double *Ts_value = value;
         in->Ts[stage] = Ts_value[0];
+        config->dynamics[stage]->model_set(config->dynamics[stage], dims->dynamics[stage],
+                                           in->dynamics[stage], "T", value);
     }
     else if (!strcmp(field, "parameter_values"))
     {
-- 
2.43.0


From d72977a22b21b6ec4c47ae9a2f578462dea4ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:25 +0000
Subject: [PATCH 054/166] fix: resetting solver options after
 update_qp_solver_cond_N aborted in the next solve

The condensing horizon was reset to the code generated one without recreating the solver.
---
 .../acados_template/c_templates_tera/acados_solver.in.c     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 8a15ab7..5e30bec 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -2736,11 +2736,13 @@ static void {{ name }}_acados_create_set_opts({{ name }}_solver_capsule* capsule
     // NOTE: there is no condensing happening here!
     qp_solver_cond_N = N;
     {%- endif %}
-    ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_N", &qp_solver_cond_N);
+    // NOTE: this can only be changed before creating the solver, i.e. not when resetting the options
+    if (capsule->nlp_solver == NULL)
+        ocp_nlp_solver_opts_set(nlp_config, nlp_opts, "qp_cond_N", &qp_solver_cond_N);
 
     {%- if solver_options.qp_solver_cond_block_size and solver_options.N_horizon > 0 %}
     // NOTE: the block sizes only fit to the code generated horizon and number of blocks.
-    if (N == {{ name | upper }}_N)
+    if (capsule->nlp_solver == NULL && N == {{ name | upper }}_N)
     {
         int* qp_solver_cond_block_size = malloc((qp_solver_cond_N+1) * sizeof(int));
         {%- for i in range(end=solver_options.qp_solver_cond_N+1) %}
-- 
2.43.0


From 5fe926468f066707eab9aa8e9140068ee85e4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 055/166] fix: value gradient with respect to global parameters
 ignored the terminal constraints and used wrong constraint options

---
 acados/ocp_nlp/ocp_nlp_common.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d708b51..d6ec311 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4204,7 +4204,7 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
             // constraints contribution
-            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts,
+            config->constraints[i]->compute_adj_p(config->constraints[i], dims->constraints[i], in->constraints[i], opts->constraints[i],
                                     mem->constraints[i], work->constraints[i], &work->tmp_np_global);
 
             blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
@@ -4215,6 +4215,11 @@ void ocp_nlp_common_eval_lagr_grad_p(ocp_nlp_config *config, ocp_nlp_dims *dims,
                                     mem->cost[N], work->cost[N], &work->tmp_np_global);
         blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
 
+        // terminal constraints contribution
+        config->constraints[N]->compute_adj_p(config->constraints[N], dims->constraints[N], in->constraints[N], opts->constraints[N],
+                                    mem->constraints[N], work->constraints[N], &work->tmp_np_global);
+        blasfeo_dvecad(np_global, 1., &work->tmp_np_global, 0, &mem->out_np_global, 0);
+
         blasfeo_unpack_dvec(np_global, &mem->out_np_global, 0, grad_p, 1);
     }
     else
-- 
2.43.0


From 9efa2405aa1ce92031d626d12c813b7038af7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 056/166] fix: linear least squares cost crashed with adjoint
 solution sensitivities

---
 acados/ocp_nlp/ocp_nlp_cost_ls.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index 9f48413..6934b7b 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -704,6 +704,18 @@ void ocp_nlp_cost_ls_memory_set_jac_lag_stat_p_global_ptr(struct blasfeo_dmat *j
 }
 
 
+void ocp_nlp_cost_ls_memory_set_adj_lag_p_global_ptr(struct blasfeo_dvec *adj_lag_p_global, void *memory_)
+{
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+}
+
+
+void ocp_nlp_cost_ls_memory_set_seed_ux_ptr(struct blasfeo_dvec *seed_ux, void *memory_)
+{
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
+}
+
+
 
 ////////////////////////////////////////////////////////////////////////////////
 //                                 workspace                                  //
@@ -1121,8 +1133,7 @@ void ocp_nlp_cost_ls_compute_jac_p(void *config_, void *dims_, void *model_,
 void ocp_nlp_cost_ls_compute_adj_sol_sens_pdiff(void *config_, void *dims_, void *model_,
                                        void *opts_, void *memory_, void *work_)
 {
-    printf("ocp_nlp_cost_ls_compute_adj_sol_sens_pdiff: not implemented yet.\n");
-    exit(1);
+    // do nothing -- ls cost can not depend on p_global, as it is not parametric
 }
 
 
@@ -1178,6 +1189,8 @@ void ocp_nlp_cost_ls_config_initialize_default(void *config_, int stage)
     config->memory_set_RSQrq_ptr = &ocp_nlp_cost_ls_memory_set_RSQrq_ptr;
     config->memory_set_Z_ptr = &ocp_nlp_cost_ls_memory_set_Z_ptr;
     config->memory_set_jac_lag_stat_p_global_ptr = &ocp_nlp_cost_ls_memory_set_jac_lag_stat_p_global_ptr;
+    config->memory_set_adj_lag_p_global_ptr = &ocp_nlp_cost_ls_memory_set_adj_lag_p_global_ptr;
+    config->memory_set_seed_ux_ptr = &ocp_nlp_cost_ls_memory_set_seed_ux_ptr;
     config->workspace_calculate_size = &ocp_nlp_cost_ls_workspace_calculate_size;
     config->get_external_fun_workspace_requirement = &ocp_nlp_cost_ls_get_external_fun_workspace_requirement;
     config->set_external_fun_workspaces = &ocp_nlp_cost_ls_set_external_fun_workspaces;
-- 
2.43.0


From 94b143b8bb19ac015ec942bef43ce9f95c8421ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 057/166] fix: slack sensitivities were returned with twice the
 number of slacks

---
 .../acados_template/acados_template/acados_ocp_solver.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index eb0469e..aa1fbdc 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -973,11 +973,11 @@ class AcadosOcpSolver:
                 sens_lam.append(np.zeros((nlam, ngrad)))
 
             if return_sens_sl:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((ns, ngrad)))
 
             if return_sens_su:
-                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "s".encode('utf-8'))
+                ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, s, "sl".encode('utf-8'))
                 sens_su.append(np.zeros((ns, ngrad)))
 
             if s < self.N:
-- 
2.43.0


From 5535ca828a5443fa13368e8f60f1ea5ea6414cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 058/166] fix: value sensitivities with respect to initial
 state and control read wrong multipliers with slacks at stage 0

---
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index aa1fbdc..644faa6 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -782,7 +782,7 @@ class AcadosOcpSolver:
 
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             lam = self.get(0, 'lam')
             nlam_non_slack = lam.shape[0]//2 - ns
@@ -791,7 +791,7 @@ class AcadosOcpSolver:
         elif with_respect_to == "initial_control":
             nu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "u".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
             lbu = self.get_from_qp_in(0, 'lbu')
             ubu = self.get_from_qp_in(0, 'ubu')
 
@@ -844,7 +844,7 @@ class AcadosOcpSolver:
             # lbu lbx lg lh lphi ubu ubx ug uh uphi
             nx = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "x".encode('utf-8'))
             nbu = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lbu".encode('utf-8'))
-            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "s".encode('utf-8'))
+            ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "sl".encode('utf-8'))
 
             nlam = self.__acados_lib.ocp_nlp_dims_get_from_attr(self.nlp_config, self.nlp_dims, self.nlp_out, 0, "lam".encode('utf-8'))
             nlam_non_slack = nlam // 2 - ns
-- 
2.43.0


From a813a4bbf5d147bfcfe4a11084bd86d294f86c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 059/166] fix: generated code with terminal constraints and
 adjoint solution sensitivities did not compile

---
 .../acados_template/c_templates_tera/acados_solver.in.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
index fff2fbd..346e605 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.h
@@ -276,7 +276,7 @@ typedef struct {{ name }}_solver_capsule
     external_function_external_param_casadi nl_constr_h_e_jac_p_hess_xu_p;
 {%- endif %}
 {% if code_gen_options.with_solution_sens_wrt_params_adj %}
-    external_function_external_param_casadi nl_constr_h_hess_ux_pdiff_adj_pdiff;
+    external_function_external_param_casadi nl_constr_h_e_hess_ux_pdiff_adj_pdiff;
 {%- endif %}
 {% if code_gen_options.with_value_sens_wrt_params %}
     external_function_external_param_casadi nl_constr_h_e_adj_p;
-- 
2.43.0


From 9ddbc4ebb5ce4938ae6b93dcb32a517a3a6f8490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 060/166] fix: constraint functions for solution sensitivities
 were never freed in the generated solver

---
 .../acados_template/c_templates_tera/acados_solver.in.c  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
index 5e30bec..fcdf892 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_solver.in.c
@@ -3927,6 +3927,15 @@ int {{ name }}_acados_free({{ name }}_solver_capsule* capsule)
   {%- if solver_options.hessian_approx == "EXACT" %}
     free(capsule->nl_constr_h_fun_jac_hess);
   {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
+    free(capsule->nl_constr_h_jac_p_hess_xu_p);
+  {%- endif %}
+  {%- if code_gen_options.with_solution_sens_wrt_params_adj %}
+    free(capsule->nl_constr_h_hess_ux_pdiff_adj_pdiff);
+  {%- endif %}
+  {%- if code_gen_options.with_value_sens_wrt_params %}
+    free(capsule->nl_constr_h_adj_p);
+  {%- endif %}
 
 {%- elif constraints.constr_type == "BGP" and dims.nphi > 0 %}
     for (int i = 0; i < N-1; i++)
-- 
2.43.0


From f221559df03b4e2c4ced31537401f2d07b4f6a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 061/166] fix: convex-over-nonlinear constraints aborted
 sensitivity evaluations also when independent of the global parameters

---
 acados/ocp_nlp/ocp_nlp_common.c          |  2 ++
 acados/ocp_nlp/ocp_nlp_constraints_bgp.c | 21 +++++++++++++--------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/acados/ocp_nlp/ocp_nlp_common.c b/acados/ocp_nlp/ocp_nlp_common.c
index d6ec311..ac139c6 100644
--- a/acados/ocp_nlp/ocp_nlp_common.c
+++ b/acados/ocp_nlp/ocp_nlp_common.c
@@ -4028,6 +4028,8 @@ void ocp_nlp_params_jac_compute(ocp_nlp_config *config, ocp_nlp_dims *dims, ocp_
             // initialize jac_lag_stat_p_global = 0 as dynamics dont contribute
             blasfeo_dgese(nv[i], np_global, 0., &jac_lag_stat_p_global[i], 0, 0);
         }
+        // constraints that do not depend on p_global do not write to jac_ineq_p_global
+        blasfeo_dgese(dims->ni_nl[i], np_global, 0., &mem->jac_ineq_p_global[i], 0, 0);
         config->cost[i]->compute_jac_p(config->cost[i], dims->cost[i], in->cost[i],
                             opts->cost[i], mem->cost[i], work->cost[i]);
         config->constraints[i]->compute_jac_hess_p(config->constraints[i], dims->constraints[i],
diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
index 72ce71b..5f5467f 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgp.c
@@ -942,8 +942,15 @@ struct blasfeo_dvec *ocp_nlp_constraints_bgp_memory_get_adj_ptr(void *memory_)
 void ocp_nlp_constraints_bgp_memory_set(void *config_, void *dims_, void *memory_, char *field, void *value)
 {
     // ocp_nlp_constraints_bgp_memory *memory = memory_;
-    printf("\nerror: field %s not available in ocp_nlp_constraints_bgp_memory_set\n", field);
-    exit(1);
+    if (!strcmp(field, "seed_ux") || !strcmp(field, "seed_lam") || !strcmp(field, "adj_lag_p_global_ptr"))
+    {
+        // do nothing -- only BGP constraints that do not depend on p_global are supported
+    }
+    else
+    {
+        printf("\nerror: field %s not available in ocp_nlp_constraints_bgp_memory_set\n", field);
+        exit(1);
+    }
 
     return;
 }
@@ -1535,16 +1542,15 @@ void ocp_nlp_constraints_bgp_update_qp_vectors(void *config_, void *dims_, void
 void ocp_nlp_constraints_bgp_compute_jac_hess_p(void *config_, void *dims_, void *model_,
                                             void *opts_, void *memory_, void *work_)
 {
-    printf("ocp_nlp_constraints_bgp_compute_jac_hess_p is not implemented!\n\n");
-    exit(1);
+    // do nothing -- only BGP constraints that do not depend on p_global are supported
 }
 
 
 void ocp_nlp_constraints_bgp_compute_adj_p(void* config_, void *dims_, void *model_,
                                     void *opts_, void *mem_, void *work_, struct blasfeo_dvec *out)
 {
-    printf("ocp_nlp_constraints_bgp_compute_adj_p is not implemented!\n\n");
-    exit(1);
+    // no contribution -- only BGP constraints that do not depend on p_global are supported
+    blasfeo_dvecse(out->m, 0.0, out, 0);
 }
 
 
@@ -1599,8 +1605,7 @@ void ocp_nlp_constraints_bgp_precompute(void *config_, void *dims_, void *model_
 void ocp_nlp_constraints_bgp_compute_adj_sol_sens_pdiff(void* config_, void *dims_, void *model_,
                                     void *opts_, void *mem_, void *work_)
 {
-    printf("ocp_nlp_constraints_bgp_compute_adj_sol_sens_pdiff: not implemented\n");
-    exit(1);
+    // do nothing -- only BGP constraints that do not depend on p_global are supported
 }
 
 size_t ocp_nlp_constraints_bgp_get_external_fun_workspace_requirement(void *config_, void *dims_, void *opts_, void *model_)
-- 
2.43.0


From f938199d265ff7049037fd8f86bb2a31a95765ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 062/166] fix: set_iterate accepted iterates with a different
 number of stages

---
 .../acados_template/acados_ocp_solver.py               | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 644faa6..9643b58 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -1646,11 +1646,19 @@ class AcadosOcpSolver:
 
         is_flattened_iterate = isinstance(iterate, AcadosOcpFlattenedIterate)
 
+        n_stages = {key: self.N if key in ["u", "z", "pi"] else self.N + 1 for key in iterate.__dict__}
+        if not is_flattened_iterate:
+            # reject iterates with a different number of stages, only empty entries can be missing or added
+            for key, traj in iterate.__dict__.items():
+                n_missing = range(len(traj), n_stages[key])
+                if any(self.dims_get(key, n) > 0 for n in n_missing) or any(np.size(val) > 0 for val in traj[n_stages[key]:]):
+                    raise ValueError(f"set_iterate: expected {n_stages[key]} stages for field {key}, got {len(traj)}.")
+
         for key, traj in iterate.__dict__.items():
             if is_flattened_iterate:
                 self.set_flat(key, getattr(iterate, key))
             else:
-                for n, val in enumerate(traj):
+                for n, val in enumerate(traj[:n_stages[key]]):
                     self.set(n, key, val)
 
 
-- 
2.43.0


From 444f21e4d59bbbab2661784dda54fdbcc4a7fd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 063/166] fix: matrix exponential of degree 13 ignored a
 coefficient of the Pade approximation

---
 acados/utils/math.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acados/utils/math.c b/acados/utils/math.c
index 2483e44..1131bdf 100644
--- a/acados/utils/math.c
+++ b/acados/utils/math.c
@@ -698,8 +698,8 @@ void padeapprox(int m, int row, double *A)
         //        &row, &beta, U, &row);
         dgemm_nn_3l(row, row, row, A, row, temp, row, U, row);
         dmcopy(row, row, A2, row, temp, row);
-        //        dscal_(&row2, &c[8], V, &i1);
-        dscal_3l(row2, c[8], V);
+        //        dscal_(&row2, &c[8], temp, &i1);
+        dscal_3l(row2, c[8], temp);
         //        daxpy_(&row2, &c[12], A6, &i1, temp, &i1);
         daxpy_3l(row2, c[12], A6, temp);
         //        daxpy_(&row2, &c[10], A4, &i1, temp, &i1);
-- 
2.43.0


From d89c743cc5ffe6cd3ed3f82279a9f474bd5a1c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:18 +0000
Subject: [PATCH 064/166] fix: matrix exponential of small matrices used
 uninitialized memory

---
 acados/utils/math.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acados/utils/math.c b/acados/utils/math.c
index 1131bdf..fcc6de9 100644
--- a/acados/utils/math.c
+++ b/acados/utils/math.c
@@ -468,8 +468,7 @@ void padeapprox(int m, int row, double *A)
         //        &beta, A2, &row);
         dgemm_nn_3l(row, row, row, A, row, A, row, A2, row);
         double *temp = malloc(row * row * sizeof(double));
-        //        dscal_(&row2, &d0, temp, &i1);
-        dscal_3l(row2, 0, temp);
+        for (int ii = 0; ii < row * row; ii++) temp[ii] = 0.0;
         //        daxpy_(&row2, &c[3], A2, &i1, temp, &i1);
         daxpy_3l(row2, c[3], A2, temp);
         //        daxpy_(&row2, &c[1], A0, &i1, temp, &i1);
-- 
2.43.0


From d60d51968ef620b150a76df57fc320e2fcc59d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 065/166] fix: solution sensitivities of control and pi were
 misplaced if the terminal stage is not requested last

---
 .../acados_template/acados_ocp_batch_solver.py              | 6 ++++--
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 6a4ea1c..3a1afb4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -461,6 +461,7 @@ class AcadosOcpBatchSolver():
             )
 
             # Extract sensitivities for requested stages.
+            n_ux = 0  # sens_u, sens_pi do not exist at the terminal stage
             for n, s in enumerate(stages_):
                 if return_sens_x:
                     sens_x[n][:, :, k] = self.get(s, "sens_x", n_batch=n_batch)
@@ -473,9 +474,10 @@ class AcadosOcpBatchSolver():
 
                 if s < N_horizon:
                     if return_sens_u:
-                        sens_u[n][:, :, k] = self.get(s, "sens_u", n_batch=n_batch)
+                        sens_u[n_ux][:, :, k] = self.get(s, "sens_u", n_batch=n_batch)
                     if return_sens_pi:
-                        sens_pi[n][:, :, k] = self.get(s, "sens_pi", n_batch=n_batch)
+                        sens_pi[n_ux][:, :, k] = self.get(s, "sens_pi", n_batch=n_batch)
+                    n_ux += 1
 
         self.time_solution_sens_solve = time.time() - t0
 
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index 9643b58..f2bd48c 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -998,6 +998,7 @@ class AcadosOcpSolver:
             self.time_solution_sens_solve += self.get_stats("time_solution_sensitivities")
 
             # extract sensitivities
+            n_ux = 0  # sens_u, sens_pi do not exist at the terminal stage
             for n, s in enumerate(stages_):
 
                 if return_sens_x:
@@ -1011,9 +1012,10 @@ class AcadosOcpSolver:
 
                 if s < self.N:
                     if return_sens_u:
-                        sens_u[n][:, k] = self.get(s, "sens_u")
+                        sens_u[n_ux][:, k] = self.get(s, "sens_u")
                     if return_sens_pi:
-                        sens_pi[n][:, k] = self.get(s, "sens_pi")
+                        sens_pi[n_ux][:, k] = self.get(s, "sens_pi")
+                    n_ux += 1
 
         out = {}
 
-- 
2.43.0


From 5daf7f5fe522b4ba378f108afd9f82baf2927824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 066/166] fix: batch solution sensitivities of slacks used a
 wrong dimension

---
 .../acados_template/acados_ocp_batch_solver.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
index 3a1afb4..d8400f4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_batch_solver.py
@@ -434,12 +434,12 @@ class AcadosOcpBatchSolver():
 
             if return_sens_sl:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "sl".encode('utf-8'))
                 sens_sl.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if return_sens_su:
                 ns = self.__acados_lib.ocp_nlp_dims_get_from_attr(
-                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "s".encode('utf-8'))
+                    solver0.nlp_config, solver0.nlp_dims, solver0.nlp_out, s, "su".encode('utf-8'))
                 sens_su.append(np.zeros((n_batch, ns, ngrad), dtype=np.float64, order="C"))
 
             if s < N_horizon:
-- 
2.43.0


From db41c223ee6a919fcc0f72087ec1f0221cee3ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 067/166] fix: lifted IRK must pass all inputs of the implicit
 dynamics function

---
 acados/sim/sim_lifted_irk_integrator.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/acados/sim/sim_lifted_irk_integrator.c b/acados/sim/sim_lifted_irk_integrator.c
index 9f74247..12c32d7 100644
--- a/acados/sim/sim_lifted_irk_integrator.c
+++ b/acados/sim/sim_lifted_irk_integrator.c
@@ -740,11 +740,14 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
 
     struct blasfeo_dvec_args ext_fun_in_K;
 
-    ext_fun_arg_t ext_fun_type_in[4];
-    void *ext_fun_in[4];
+    ext_fun_arg_t ext_fun_type_in[5];
+    void *ext_fun_in[5];
     // TODO: fix this for z
     ext_fun_type_in[3] = COLMAJ;
     ext_fun_in[3] = u;
+    double t_current;
+    ext_fun_type_in[4] = COLMAJ;
+    ext_fun_in[4] = &t_current;  // t: 1
 
 
     struct blasfeo_dvec_args ext_fun_out_rG;
@@ -817,6 +820,8 @@ int sim_lifted_irk(void *config_, sim_in *in, sim_out *out, void *opts_, void *m
 
         for (ii = 0; ii < ns; ii++)  // ii-th row of tableau
         {
+            t_current = in->t0 + ss * step + opts->c_vec[ii] * step;
+
             // take x(n); copy a strvec into a strvec
             blasfeo_dveccp(nx, xn, 0, xt, 0);
 
-- 
2.43.0


From 7aab7d00a654a5bf5bd8af75830e9d7952884159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:06 +0000
Subject: [PATCH 068/166] fix: buffer of AcadosSimSolver.get was too small for
 the dimensions of vector fields

---
 interfaces/acados_template/acados_template/acados_sim_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index fc611f6..7d81712 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -390,7 +390,7 @@ class AcadosSimSolver:
 
         if field_ in self.gettable_vectors:
             # get dims
-            dims = np.zeros((1,), dtype=np.intc, order='F')
+            dims = np.zeros((2,), dtype=np.intc, order='F')
             dims_data = cast(dims.ctypes.data, POINTER(c_int))
 
             self.__acados_lib.sim_dims_get_from_attr(self.sim_config, self.sim_dims, field, dims_data)
-- 
2.43.0


From 24eb525c78850f431ef975bcbb78bd5f54601edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 069/166] fix: AcadosParamManager overwrote the terminal stage
 when the horizon grew and shared arrays between stages

---
 .../acados_template/acados_param_manager.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_param_manager.py b/interfaces/acados_template/acados_template/acados_param_manager.py
index 11183c8..3736028 100644
--- a/interfaces/acados_template/acados_template/acados_param_manager.py
+++ b/interfaces/acados_template/acados_template/acados_param_manager.py
@@ -66,8 +66,8 @@ class AcadosParamManager:
             symbolics = ca.MX.sym
 
         for p in params:
-            p.value = cast_to_2d_nparray(p.value, p.name)
-            self._param_values[0][p.name] = p.value
+            p.value = cast_to_2d_nparray(p.value, p.name).copy()
+            self._param_values[0][p.name] = p.value.copy()
             self._param_expressions[p.name] = symbolics(p.name, self._param_values[0][p.name].shape)
 
         # copy default values to all stages
@@ -98,8 +98,8 @@ class AcadosParamManager:
 
         # Initialize with default values
         for p in self._params:
-            for n in range(self._N_horizon, N_horizon):
-                self._param_values[n][p.name] = p.value
+            for n in range(self._N_horizon + 1, N_horizon + 1):
+                self._param_values[n][p.name] = p.value.copy()
 
         self._N_horizon = N_horizon
 
-- 
2.43.0


From 828faa2e3afc4b818bd8eea6272d3d4d5022c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:52 +0000
Subject: [PATCH 070/166] fix: AcadosParamManager.set_value accepted unknown
 names and wrong shapes and kept references

---
 .../acados_template/acados_param_manager.py              | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_param_manager.py b/interfaces/acados_template/acados_template/acados_param_manager.py
index 3736028..00243fd 100644
--- a/interfaces/acados_template/acados_template/acados_param_manager.py
+++ b/interfaces/acados_template/acados_template/acados_param_manager.py
@@ -136,6 +136,15 @@ class AcadosParamManager:
         """
         if stage > self._N_horizon or stage < 0:
             raise IndexError(f"Stage index {stage} out of bounds for horizon length {self._N_horizon}.")
+        if name not in self._param_expressions:
+            raise ValueError(f"Parameter {name} does not exist, available parameters are {list(self._param_expressions)}.")
+
+        shape = self._param_expressions[name].shape
+        value = np.array(value)
+        if value.ndim < 2 and value.size == shape[0] * shape[1]:
+            value = value.reshape(shape, order='F')
+        if value.shape != shape:
+            raise ValueError(f"Parameter {name} has shape {shape}, got value of shape {value.shape}.")
         self._param_values[stage][name] = value
 
 
-- 
2.43.0


From ca5813543db20dac38510c4cdcd5dfc821155b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 071/166] fix: default parameter values of the cost and
 constraint evaluator were mixed up for several parameters

---
 interfaces/acados_template/acados_template/mpc_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index baa353b..b1d311b 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -74,7 +74,7 @@ class AcadosCostConstraintEvaluator:
             raise NotImplementedError(
                 "AcadosCostConstraintEvaluatator: not implemented for models with z.")
 
-        self.__parameter_values = np.tile(ocp.parameter_values, (ocp.dims.np, ocp.dims.N))
+        self.__parameter_values = np.tile(np.reshape(ocp.parameter_values, (-1, 1)), (1, ocp.dims.N))
         self.__p_global_values = ocp.p_global_values
 
         self.cost_scaling = ocp.solver_options.cost_scaling
-- 
2.43.0


From be6cc4094eecd7d79997c9029b550b762b40781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 072/166] fix: evaluate_ocp_cost ignored the given parameter
 values except at the terminal stage

---
 interfaces/acados_template/acados_template/mpc_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index b1d311b..cd2ff50 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -337,12 +337,14 @@ class AcadosCostConstraintEvaluator:
         # the cost on the first step is different in the OCP
         # TODO: this is not correct, since the cost on the first step might be different!
         step = 0
-        result = self.evaluate(acados_ocp_iterate.x_traj[0], acados_ocp_iterate.u_traj[0], step=step)
+        result = self.evaluate(acados_ocp_iterate.x_traj[0], acados_ocp_iterate.u_traj[0], step=step,
+                               p=parameter_values, p_global=p_global_values)
         cost += result['cost_without_slacks']
         step += 1
 
         for x_traj, u_traj in zip(acados_ocp_iterate.x_traj[1:], acados_ocp_iterate.u_traj[1:]):
-            result = self.evaluate(x_traj, u_traj, step=step)
+            result = self.evaluate(x_traj, u_traj, step=step,
+                                   p=parameter_values, p_global=p_global_values)
             cost += result['cost']
             step += 1
 
-- 
2.43.0


From d5a1f55117d94504d8e680f015a5ff815ca84cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 073/166] fix: evaluate_ocp_cost raised for several terminal
 slacks

---
 interfaces/acados_template/acados_template/mpc_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index cd2ff50..57b48a8 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -368,14 +368,14 @@ class AcadosCostConstraintEvaluator:
         # evaluate cost of soft constraints
         lower_slack_cost_e, upper_slack_cost_e = np.array([0.]), np.array([0.])
         if self.__ocp.cost.Zl_e.size > 0:
-            lower_slack_cost_e += 0.5 * lower_slack_e.full().transpose()@self.__ocp.cost.Zl_e @ lower_slack_e.full()
+            lower_slack_cost_e += 0.5 * self.__ocp.cost.Zl_e @ (lower_slack_e.full() * lower_slack_e.full())
 
         if self.__ocp.cost.zl_e.size > 0:
             lower_slack_cost_e += self.__ocp.cost.zl_e @ lower_slack_e.full()
 
 
         if self.__ocp.cost.Zu_e.size > 0:
-            upper_slack_cost_e += 0.5 * upper_slack_e.full().transpose()@self.__ocp.cost.Zu_e @  upper_slack_e.full()
+            upper_slack_cost_e += 0.5 * self.__ocp.cost.Zu_e @ (upper_slack_e.full() * upper_slack_e.full())
 
         if self.__ocp.cost.zu_e.size > 0:
             upper_slack_cost_e += self.__ocp.cost.zu_e @ upper_slack_e.full()
-- 
2.43.0


From 870918fe918cf0f65c3d4927bcf5da7b3fee127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 074/166] fix: evaluate_ocp_cost ignored the scaling of the
 terminal cost

---
 interfaces/acados_template/acados_template/mpc_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index 57b48a8..bc212c3 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -354,7 +354,7 @@ class AcadosCostConstraintEvaluator:
             parameter_values = parameter_values
 
         cost_fun_args = [acados_ocp_iterate.x_traj[-1], parameter_values, p_global_values]
-        cost += self.terminal_cost_fun(*cost_fun_args).full()
+        cost += self.terminal_cost_fun(*cost_fun_args).full() * self.cost_scaling[-1]
 
         lower_violation_e, upper_violation_e, lower_slack_e, upper_slack_e = (
             self.constraint_function_e(acados_ocp_iterate.x_traj[-1],
@@ -381,9 +381,9 @@ class AcadosCostConstraintEvaluator:
             upper_slack_cost_e += self.__ocp.cost.zu_e @ upper_slack_e.full()
 
         if lower_slack_e.full().size > 0:
-            cost += lower_slack_cost_e
+            cost += lower_slack_cost_e * self.cost_scaling[-1]
         if upper_slack_e.full().size > 0:
-            cost += upper_slack_cost_e
+            cost += upper_slack_cost_e * self.cost_scaling[-1]
 
         return cost[0][0]
 
-- 
2.43.0


From 9b727c91d8385e02b218a5181369d5baa31bf18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 075/166] fix: quadratic slack cost of the model with a cost
 state was twice that of the OCP

---
 .../acados_template/acados_template/mpc_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index bc212c3..20053f0 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -412,9 +412,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         lower_violation = ca.fmax(ocp.constraints.lbu[ibu] - model.u[iu], 0)
         upper_violation = ca.fmax(model.u[iu] - ocp.constraints.ubu[ibu], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
         i_slack += 1
 
     for ibx in ocp.constraints.idxsbx:
@@ -422,9 +422,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         lower_violation = ca.fmax(ocp.constraints.lbx[ibx] - model.x[ix], 0)
         upper_violation = ca.fmax(model.x[ix] - ocp.constraints.ubx[ibx], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
         i_slack += 1
 
     if not is_empty(ocp.constraints.C):
@@ -433,9 +433,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
             lower_violation = ca.fmax(ocp.constraints.lg[ig] - g[ig], 0)
             upper_violation = ca.fmax(g[ig] - ocp.constraints.ug[ig], 0)
             cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                        ocp.cost.Zl[i_slack] * lower_violation ** 2
+                        0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
             cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                        ocp.cost.Zu[i_slack] * upper_violation ** 2
+                        0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
             i_slack += 1
 
     for ih in ocp.constraints.idxsh:
@@ -444,9 +444,9 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
         upper_violation = ca.fmax(
             ocp.model.con_h_expr[ih] - ocp.constraints.uh[ih], 0)
         cost_dot += ocp.cost.zl[i_slack] * lower_violation + \
-                    ocp.cost.Zl[i_slack] * lower_violation ** 2
+                    0.5 * ocp.cost.Zl[i_slack] * lower_violation ** 2
         cost_dot += ocp.cost.zu[i_slack] * upper_violation + \
-                    ocp.cost.Zu[i_slack] * upper_violation ** 2
+                    0.5 * ocp.cost.Zu[i_slack] * upper_violation ** 2
         i_slack += 1
 
     if not is_empty(ocp.constraints.idxsphi):
-- 
2.43.0


From 512583d9d4e99a7ad33322d18257c0342ac9a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 076/166] fix: cost expression of convex-over-nonlinear costs
 ignored the reference

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 1402b8d..d369b71 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2659,7 +2659,7 @@ class AcadosOcp:
             psi_expr = getattr(self.model, f"cost_psi_expr{suffix}")
             r_in_psi_expr = getattr(self.model, f"cost_r_in_psi_expr{suffix}")
             y_expr = getattr(self.model, f"cost_y_expr{suffix}")
-            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr)
+            cost_dot = ca.substitute(psi_expr, r_in_psi_expr, y_expr - yref)
 
         else:
             raise ValueError(f"Unknown cost type {cost_type}.")
-- 
2.43.0


From 81c5f05c4898f286681b87c409053f339f10a9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:37 +0000
Subject: [PATCH 077/166] fix: cost and constraint evaluator failed without
 bounds on a scalar state or control

---
 .../acados_template/mpc_utils.py              | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index 20053f0..b2b23ad 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -100,9 +100,9 @@ class AcadosCostConstraintEvaluator:
         )
 
         # constraints
-        bu_expr = model.u[constraints.idxbu]
-        bx_expr = model.x[constraints.idxbx]
-        bx_expr_e = model.x[constraints.idxbx_e]
+        bu_expr = ca.vec(model.u[constraints.idxbu])
+        bx_expr = ca.vec(model.x[constraints.idxbx])
+        bx_expr_e = ca.vec(model.x[constraints.idxbx_e])
 
         if not is_empty(constraints.C):
             g_expr = constraints.C @ model.x + constraints.D @ model.u
@@ -184,11 +184,11 @@ class AcadosCostConstraintEvaluator:
             slack_indices_e
         )
 
-        lower_slack_expression = lower_violation[slack_indices]
-        upper_slack_expression = upper_violation[slack_indices]
+        lower_slack_expression = ca.vec(lower_violation[slack_indices])
+        upper_slack_expression = ca.vec(upper_violation[slack_indices])
 
-        lower_slack_expression_e = lower_violation_e[slack_indices_e]
-        upper_slack_expression_e = upper_violation_e[slack_indices_e]
+        lower_slack_expression_e = ca.vec(lower_violation_e[slack_indices_e])
+        upper_slack_expression_e = ca.vec(upper_violation_e[slack_indices_e])
 
         self.constraint_function = ca.Function(
             'constraint_function',
@@ -291,7 +291,7 @@ class AcadosCostConstraintEvaluator:
                                      parameter_values,
                                      p_global_values))
         violation_hard_constraints = np.concatenate(
-            (lower_violation[self.nonslacked_indices], upper_violation[self.nonslacked_indices]))
+            (ca.vec(lower_violation[self.nonslacked_indices]), ca.vec(upper_violation[self.nonslacked_indices])))
 
         # evaluate cost of soft constraints
         lower_slack_cost, upper_slack_cost = 0.,0.
@@ -362,8 +362,8 @@ class AcadosCostConstraintEvaluator:
                                        p_global_values))
 
         violation_hard_constraints = np.concatenate(
-            (lower_violation_e[self.nonslacked_indices_e],
-             upper_violation_e[self.nonslacked_indices_e]))
+            (ca.vec(lower_violation_e[self.nonslacked_indices_e]),
+             ca.vec(upper_violation_e[self.nonslacked_indices_e])))
 
         # evaluate cost of soft constraints
         lower_slack_cost_e, upper_slack_cost_e = np.array([0.]), np.array([0.])
-- 
2.43.0


From e72e603965e2f6afc2b4ed4d871e1a709e837887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 078/166] fix: has_x0 was lost when loading constraints from
 json

---
 .../acados_template/acados_template/acados_ocp_constraints.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_constraints.py b/interfaces/acados_template/acados_template/acados_ocp_constraints.py
index 93c208b..8bfd79f 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_constraints.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_constraints.py
@@ -1274,4 +1274,7 @@ class AcadosOcpConstraints:
                 except Exception as e:
                     Exception("Failed to load attribute {attr} from dictionary:\n" + repr(e))
 
+        # has_x0 is read-only
+        constraints.__has_x0 = bool(dict.get('has_x0', False))
+
         return constraints
-- 
2.43.0


From 9e4c93a9d8067df47c4acd3e3ccb4b7baea76806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 079/166] fix: loading an OCP with zoRO description from json
 failed

---
 .../acados_template/acados_template/acados_ocp.py |  6 ++++--
 .../acados_template/zoro_description.py           | 15 ++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index d369b71..35248af 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2727,10 +2727,12 @@ class AcadosOcp:
                     setattr(ocp, field, type(getattr(ocp, field)).from_dict(field_dict))
                 else:
                     raise Exception(f"Failed to load OCP from json. Field {field} is not provided.")
-            elif field in ('simulink_opts', 'ros_opts'):
+            elif field in ('simulink_opts', 'ros_opts', 'zoro_description'):
                 val = dict.get(field)
                 if not is_none_or_empty_list(val):
-                    if field == 'simulink_opts':
+                    if field == 'zoro_description':
+                        setattr(ocp, 'zoro_description', ZoroDescription.from_dict(val))
+                    elif field == 'simulink_opts':
                         setattr(ocp, 'simulink_opts', AcadosOcpSimulinkOptions.from_dict(val))
                     elif field == 'ros_opts':
                         setattr(ocp, 'ros_opts', AcadosOcpRosOptions.from_dict(val))
diff --git a/interfaces/acados_template/acados_template/zoro_description.py b/interfaces/acados_template/acados_template/zoro_description.py
index ac00e71..2d6f6f6 100644
--- a/interfaces/acados_template/acados_template/zoro_description.py
+++ b/interfaces/acados_template/acados_template/zoro_description.py
@@ -26,7 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.;
 
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, fields
 import numpy as np
 from .acados_dims import AcadosOcpDims
 from .acados_code_gen_options import AcadosCodeGenOptions
@@ -179,6 +179,19 @@ class ZoroDescription:
     nuh_e_t: int = 0
 
 
+    @classmethod
+    def from_dict(cls, data: dict) -> 'ZoroDescription':
+        """Create a ZoroDescription from a dictionary, e.g. obtained from loading a json file."""
+        instance = cls()
+        for f in fields(cls):
+            value = data.get(f.name)
+            if value is not None:
+                if f.type is np.ndarray:
+                    value = np.array(value)
+                setattr(instance, f.name, value)
+        return instance
+
+
     def make_consistent(self, dims: AcadosOcpDims, code_gen_options: Optional[AcadosCodeGenOptions] = None) -> None:
         self.nw, _ = self.W_mat.shape
         if self.unc_jac_G_mat is None:
-- 
2.43.0


From b52828b6b427caf7a6b80fc6916545f350170c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 080/166] fix: time steps, shooting nodes and cost scaling were
 lost when loading from json

---
 .../acados_template/acados_template/acados_ocp_options.py     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index f8bada2..154a1d2 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -31,6 +31,8 @@
 import os
 import warnings, inspect
 
+import numpy as np
+
 from deprecated.sphinx import deprecated
 from .utils import check_if_nparray_and_flatten, use_int_or_cast_to_1d_nparray
 
@@ -2366,6 +2368,8 @@ class AcadosOcpOptions:
                 try:
                     # check whether value is not the empty list
                     if not (isinstance(value, list) and not value):
+                        if attr in ('time_steps', 'shooting_nodes', 'cost_scaling'):
+                            value = np.array(value)
                         setattr(options, attr, value)
                 except Exception as e:
                     ValueError("Failed to load attribute {attr} from dictionary:\n" + repr(e))
-- 
2.43.0


From bd9fa64df9ba2f945756344a578e19942dc2c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 081/166] fix: custom templates were lost when loading from
 json

---
 .../acados_template/acados_template/acados_ocp_options.py       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index 154a1d2..d8bbca3 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -2370,6 +2370,8 @@ class AcadosOcpOptions:
                     if not (isinstance(value, list) and not value):
                         if attr in ('time_steps', 'shooting_nodes', 'cost_scaling'):
                             value = np.array(value)
+                        elif attr == 'custom_templates':
+                            value = [tuple(template) for template in value]
                         setattr(options, attr, value)
                 except Exception as e:
                     ValueError("Failed to load attribute {attr} from dictionary:\n" + repr(e))
-- 
2.43.0


From 526bc9a242a2e4b7914283f19f7822b1056a86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:22 +0000
Subject: [PATCH 082/166] fix: sign of the nonlinear constraint term in forward
 parametric sensitivities

---
 acados/ocp_nlp/ocp_nlp_constraints_bgh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
index ecf20fa..e218d66 100644
--- a/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
+++ b/acados/ocp_nlp/ocp_nlp_constraints_bgh.c
@@ -1829,7 +1829,7 @@ void ocp_nlp_constraints_bgh_compute_jac_hess_p(void *config_, void *dims_, void
                     ext_fun_type_in, ext_fun_in, ext_fun_type_out, ext_fun_out);
 
         // add constraint contribution to stationarity jacobian wrt p_global
-        blasfeo_dgead(nx+nu, np_global, -1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
+        blasfeo_dgead(nx+nu, np_global, 1.0, &work->jac_lag_p_global, 0, 0, memory->jac_lag_stat_p_global, 0, 0);
     }
 }
 
-- 
2.43.0


From d432e307661b62fc1533c4d2424aba7c83020b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:35 +0000
Subject: [PATCH 083/166] fix: range check of globalization_fixed_step_length
 was ineffective

---
 .../acados_template/acados_template/acados_ocp_options.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_options.py b/interfaces/acados_template/acados_template/acados_ocp_options.py
index d8bbca3..8450617 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_options.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_options.py
@@ -585,7 +585,7 @@ class AcadosOcpOptions:
 
     @globalization_fixed_step_length.setter
     def globalization_fixed_step_length(self, globalization_fixed_step_length):
-        if isinstance(globalization_fixed_step_length, float) and globalization_fixed_step_length >= 0 or globalization_fixed_step_length <= 1.0:
+        if isinstance(globalization_fixed_step_length, (float, int)) and 0 <= globalization_fixed_step_length <= 1.0:
             self.__globalization_fixed_step_length = globalization_fixed_step_length
         else:
             raise ValueError('Invalid globalization_fixed_step_length value. globalization_fixed_step_length must be a float in [0, 1].')
-- 
2.43.0


From b9323e2bcf654e10b8ea4be237e561cf6965e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:35 +0000
Subject: [PATCH 084/166] fix: integrator options for stages, steps and
 Jacobian reuse accepted values that are not integers

---
 interfaces/acados_template/acados_template/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/utils.py b/interfaces/acados_template/acados_template/utils.py
index b44e231..0d017f8 100644
--- a/interfaces/acados_template/acados_template/utils.py
+++ b/interfaces/acados_template/acados_template/utils.py
@@ -538,9 +538,12 @@ def use_int_or_cast_to_1d_nparray(val, name) -> Union[int, np.ndarray]:
         return val
     else:
         try:
-            return cast_to_1d_nparray(val, name)
+            val_array = cast_to_1d_nparray(val, name)
         except:
             raise TypeError(f"{name} must be an integer or array-like type, got {type(val)}.")
+        if not np.issubdtype(val_array.dtype, np.number) or not np.all(np.mod(val_array, 1) == 0):
+            raise TypeError(f"{name} must be an integer or an array of integers, got {val}.")
+        return val_array
 
 
 def cast_to_1d_nparray_or_casadi_symbolic(val, name) -> np.ndarray:
-- 
2.43.0


From 29f2f9d781a4f572f94941e9bfc93e513e401218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 085/166] fix: number of time_steps was not checked against
 N_horizon

---
 interfaces/acados_template/acados_template/acados_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 35248af..5bde71a 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1000,6 +1000,9 @@ class AcadosOcp:
             opts.shooting_nodes = np.concatenate((np.array([0.]), np.cumsum(opts.time_steps)))
 
         elif not is_empty(opts.time_steps):
+            if np.shape(opts.time_steps)[0] != opts.N_horizon:
+                raise ValueError('inconsistent dimension N, regarding time_steps.')
+
             # compute shooting nodes from time_steps for convenience
             opts.shooting_nodes = np.concatenate((np.array([0.]), np.cumsum(opts.time_steps)))
 
-- 
2.43.0


From 14ff0bfbca24928359ebecf537a3636b4ec1e52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 086/166] fix: sizes of convex-over-nonlinear constraint data
 were not checked

---
 .../acados_template/acados_template/acados_ocp.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 5bde71a..b92f5e8 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -521,6 +521,11 @@ class AcadosOcp:
                 raise ValueError('convex over nonlinear constraints: con_r_expr_0 is empty but con_phi_expr_0 is not')
             else:
                 dims.nr_0 = casadi_length(model.con_r_expr_0)
+            if is_empty(model.con_r_in_phi_0) or casadi_length(model.con_r_in_phi_0) != dims.nr_0:
+                raise ValueError('inconsistent dimension nr_0, regarding con_r_expr_0, con_r_in_phi_0.')
+
+        if constraints.uphi_0.shape[0] != dims.nphi_0 or constraints.lphi_0.shape[0] != dims.nphi_0:
+            raise ValueError('inconsistent dimension nphi_0, regarding lphi_0, uphi_0, con_phi_expr_0.')
 
 
     def _make_consistent_constraints_path(self):
@@ -581,6 +586,11 @@ class AcadosOcp:
                 raise ValueError('convex over nonlinear constraints: con_r_expr is empty but con_phi_expr is not')
             else:
                 dims.nr = casadi_length(model.con_r_expr)
+            if is_empty(model.con_r_in_phi) or casadi_length(model.con_r_in_phi) != dims.nr:
+                raise ValueError('inconsistent dimension nr, regarding con_r_expr, con_r_in_phi.')
+
+        if constraints.uphi.shape[0] != dims.nphi or constraints.lphi.shape[0] != dims.nphi:
+            raise ValueError('inconsistent dimension nphi, regarding lphi, uphi, con_phi_expr.')
 
 
     def _make_consistent_constraints_terminal(self):
@@ -619,6 +629,11 @@ class AcadosOcp:
                 raise ValueError('convex over nonlinear constraints: con_r_expr_e is empty but con_phi_expr_e is not')
             else:
                 dims.nr_e = casadi_length(model.con_r_expr_e)
+            if is_empty(model.con_r_in_phi_e) or casadi_length(model.con_r_in_phi_e) != dims.nr_e:
+                raise ValueError('inconsistent dimension nr_e, regarding con_r_expr_e, con_r_in_phi_e.')
+
+        if constraints.uphi_e.shape[0] != dims.nphi_e or constraints.lphi_e.shape[0] != dims.nphi_e:
+            raise ValueError('inconsistent dimension nphi_e, regarding lphi_e, uphi_e, con_phi_expr_e.')
 
 
     def _make_consistent_slacks_rev_initial(self):
-- 
2.43.0


From 01683b64edffd1b7e3d28cdb2c9530e2339f0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 087/166] fix: number of columns of C_e was not checked

---
 interfaces/acados_template/acados_template/acados_ocp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index b92f5e8..604943d 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -612,6 +612,9 @@ class AcadosOcp:
         else:
             dims.ng_e = ng_e
 
+        if ng_e > 0 and constraints.C_e.shape[1] != dims.nx:
+            raise ValueError(f'inconsistent dimension nx, regarding C_e, got C_e.shape[1] = {constraints.C_e.shape[1]}.')
+
         nh_e = 0 if is_empty(model.con_h_expr_e) else casadi_length(model.con_h_expr_e)
 
         if constraints.uh_e.shape[0] != nh_e or constraints.lh_e.shape[0] != nh_e:
-- 
2.43.0


From 398d58610d5c4cba3b58cdd084c845de74b2fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:10 +0000
Subject: [PATCH 088/166] fix: number of columns of Vz was not checked

---
 interfaces/acados_template/acados_template/acados_ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 604943d..c39fa30 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -296,6 +296,8 @@ class AcadosOcp:
             if dims.nz != 0 and cost.Vz_0.shape[0] != ny_0:
                 raise ValueError('inconsistent dimension ny_0, regarding W_0, Vx_0, Vu_0, Vz_0.' +
                                 f'\nGot W_0[{cost.W_0.shape}], Vx_0[{cost.Vx_0.shape}], Vu_0[{cost.Vu_0.shape}], Vz_0[{cost.Vz_0.shape}]\n')
+            if dims.nz != 0 and cost.Vz_0.shape[1] != dims.nz and ny_0 != 0:
+                raise ValueError('inconsistent dimension: Vz_0 should have nz columns.')
             if cost.Vx_0.shape[1] != dims.nx and ny_0 != 0:
                 raise ValueError('inconsistent dimension: Vx_0 should have nx columns.')
             if cost.Vu_0.shape[1] != dims.nu and ny_0 != 0:
@@ -369,6 +371,8 @@ class AcadosOcp:
             if dims.nz != 0 and cost.Vz.shape[0] != ny:
                 raise ValueError('inconsistent dimension ny, regarding W, Vx, Vu, Vz.' + \
                                 f'\nGot W[{cost.W.shape}], Vx[{cost.Vx.shape}], Vu[{cost.Vu.shape}], Vz[{cost.Vz.shape}]\n')
+            if dims.nz != 0 and cost.Vz.shape[1] != dims.nz and ny != 0:
+                raise ValueError('inconsistent dimension: Vz should have nz columns.')
             if cost.Vx.shape[1] != dims.nx and ny != 0:
                 raise ValueError('inconsistent dimension: Vx should have nx columns.')
             if cost.Vu.shape[1] != dims.nu and ny != 0:
-- 
2.43.0


From c3ff77b316b8d2aedd264b46a289097b043e1087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:09 +0000
Subject: [PATCH 089/166] fix: automatic cost type detection failed instead of
 falling back to EXTERNAL for MX models, zero, singular, affine and
 non-quadratic costs

---
 .../acados_template/acados_ocp.py             | 115 +++++-------------
 1 file changed, 33 insertions(+), 82 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index c39fa30..28ab360 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2424,7 +2424,7 @@ class AcadosOcp:
     def detect_cost_type(self, model: AcadosModel, cost: AcadosOcpCost, dims: AcadosOcpDims, stage_type: str, verbose: bool = True) -> None:
         """
         If the cost type of a stage (initial, path or terminal) is set to AUTO, try to reformulate it as a LINEAR_LS cost.
-        If that is not possible (cost is not quadratic or includes parameters), use the EXTERNAL cost type.
+        If that is not possible (e.g. cost is not a strictly convex quadratic in the variables it depends on or includes parameters), use the EXTERNAL cost type.
         """
         # Extract model variables
         x = model.x
@@ -2451,86 +2451,38 @@ class AcadosOcp:
             print('expr_cost =', expr_cost)
             raise ValueError("Cost type detection requires definition of cost term as CasADi SX or MX.")
 
-        if ca.is_quadratic(expr_cost, x) and ca.is_quadratic(expr_cost, u) and ca.is_quadratic(expr_cost, z) \
-                and not any(ca.which_depends(expr_cost, p)) and not any(ca.which_depends(expr_cost, model.p_global)) \
-                and not any(ca.which_depends(expr_cost, model.t)):
+        variables = [v for v in (x, u, z) if not is_empty(v)]
+        gradient = ca.vertcat(*[ca.jacobian(expr_cost, v).T for v in variables])
+        hessian = ca.horzcat(*[ca.jacobian(gradient, v) for v in variables])
+
+        # cost has to be jointly quadratic in x, u, z and independent of parameters and time
+        is_ls = not any(ca.depends_on(hessian, v) for v in variables) \
+                and not any(ca.depends_on(expr_cost, v) for v in (p, model.p_global, model.t) if not is_empty(v))
+
+        if is_ls:
+            zeros = [np.zeros(v.shape) for v in variables]
+            H, g, const = (np.array(val) for val in ca.Function('cost_fun', variables, [hessian, gradient, expr_cost])(*zeros))
+            g = g.flatten()
+
+            # linear least squares terms cover exactly the variables with quadratic contribution
+            xuz_idx = np.flatnonzero(np.any(H != 0, axis=1))
+            ny = len(xuz_idx)
+            W = H[np.ix_(xuz_idx, xuz_idx)]
+            y_ref = np.zeros((ny,))
+            if ny > 0:
+                is_ls = np.all(np.isfinite(W)) and np.min(np.linalg.eigvalsh(W)) > 1e-10
+                if is_ls:
+                    y_ref = np.linalg.solve(W, -g[xuz_idx])
+            offset = 0.5 * y_ref @ W @ y_ref
+            is_ls = is_ls and not np.any(np.delete(g, xuz_idx)) \
+                    and abs(const.item() - offset) <= 1e-12 * max(abs(const.item()), abs(offset))
+
+        if is_ls:
+            if verbose:
+                print('Cost function is quadratic -> Reformulating as LINEAR_LS cost.')
 
-            if expr_cost.is_zero():
-                if verbose:
-                    print('Cost function is zero -> Reformulating as LINEAR_LS cost.')
-                ny = 0
-                Vx, Vu, Vz, W, y_ref, y = [], [], [], [], [], []
-            else:
-                cost_fun = ca.Function('cost_fun', [x, u, z], [expr_cost])
-                dummy = ca.SX.sym('dummy', 1, 1)
-
-                if verbose:
-                    print('Cost function is quadratic -> Reformulating as LINEAR_LS cost.')
-
-                Hxuz_fun = ca.Function('Hxuz_fun', [dummy], [ca.hessian(expr_cost, ca.vertcat(x, u, z))[0]])
-                H_xuz = np.array(Hxuz_fun(0))
-
-                xuz_idx = []
-                for i in range(nx + nu + nz):
-                    if np.any(H_xuz[i, :]):
-                        xuz_idx.append(i)
-
-                x_idx = list(set(range(nx)) & set(xuz_idx))
-                u_idx = list(set(range(nx, nx + nu)) & set(xuz_idx))
-                z_idx = list(set(range(nx + nu, nx + nu + nz)) & set(xuz_idx))
-
-                ny = len(xuz_idx)
-
-                Vx = np.zeros((ny, nx))
-                Vu = np.zeros((ny, nu))
-                Vz = np.zeros((ny, nz))
-                W = np.zeros((ny, ny))
-
-                i = 0
-                for idx in x_idx:
-                    Vx[i, idx] = 1
-                    W[i, :] = H_xuz[idx, xuz_idx] / 2
-                    i += 1
-
-                for idx in u_idx:
-                    iu = idx - nx
-                    Vu[i, iu] = 1
-                    W[i, :] = H_xuz[idx, xuz_idx] / 2
-                    i += 1
-
-                for idx in z_idx:
-                    iz = idx - nx - nu
-                    Vz[i, iz] = 1
-                    W[i, :] = H_xuz[idx, xuz_idx] / 2
-                    i += 1
-
-                xuz = ca.vertcat(x, u, z)
-                y = xuz[xuz_idx]
-                jac_fun = ca.Function('jac_fun', [y], [ca.jacobian(expr_cost, y).T])
-                y_ref = np.linalg.solve(W, -0.5 * np.array(jac_fun(np.zeros((ny, 1)))))
-
-                y = -y_ref + Vx @ x + Vu @ u
-                if nz > 0:
-                    y += Vz @ z
-
-                lls_cost_fun = ca.Function('lls_cost_fun', [x, u, z], [ca.mtimes(y.T, ca.mtimes(W, y))])
-
-                rel_err_tol = 1e-13
-                for jj in range(5):
-                    x0 = np.random.rand(nx)
-                    u0 = np.random.rand(nu)
-                    z0 = np.random.rand(nz)
-
-                    val1 = np.array(lls_cost_fun(x0, u0, z0))
-                    val2 = np.array(cost_fun(x0, u0, z0))
-                    diff_eval = np.abs(val1 - val2)
-                    rel_error = diff_eval / np.maximum(np.abs(val1), np.abs(val2))
-                    if rel_error > rel_err_tol:
-                        print(f'Something went wrong when reformulating with linear least square cost, '
-                            f'got relative error {rel_error:.2e}, should be < {rel_err_tol:.2e}')
-                        raise RuntimeError('Reformulation error')
-
-                W = 2 * W
+            V = np.eye(nx + nu + nz)[xuz_idx, :]
+            Vx, Vu, Vz = V[:, :nx], V[:, nx:nx+nu], V[:, nx+nu:]
 
             # Extract output
             if stage_type == 'terminal':
@@ -2568,12 +2520,11 @@ class AcadosOcp:
                 print('Vz\n', Vz)
                 print('W\n', W)
                 print('y_ref\n', y_ref)
-                print('y (symbolic)\n', y)
                 print('NOTE: These numerical values can be updated online using the appropriate setters.')
 
         else:
             if verbose:
-                print('\n\nCost function is not quadratic or includes parameters -> Using external cost\n\n')
+                print('\n\nCost function is not a quadratic without parameters -> Using external cost\n\n')
             if stage_type == 'terminal':
                 cost.cost_type_e = 'EXTERNAL'
             elif stage_type == 'path':
-- 
2.43.0


From 8916f6a45eeed9d5279f99e7b7842c03ef3f652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 090/166] fix: translating least squares costs with symbolic MX
 weighting matrices raised an exception

---
 interfaces/acados_template/acados_template/acados_ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 28ab360..a9fb791 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2007,19 +2007,19 @@ class AcadosOcp:
             res += ca.sparsify(Vz) @ z
         res -= yref
 
-        return 0.5 * (res.T @ ca.sparsify(W) @ res)
+        return 0.5 * (res.T @ (W if isinstance(W, ca.MX) else ca.sparsify(W)) @ res)
 
     @staticmethod
     def __translate_nls_cost_to_external_cost(y_expr, yref, W):
         res = y_expr - yref
-        return 0.5 * (res.T @ ca.sparsify(W) @ res)
+        return 0.5 * (res.T @ (W if isinstance(W, ca.MX) else ca.sparsify(W)) @ res)
 
     @staticmethod
     def __get_gn_hessian_expression_from_nls_cost(y_expr, yref, W, x, u):
         res = y_expr - yref
         ux = ca.vertcat(u, x)
         inner_jac = ca.jacobian(res, ux)
-        gn_hess = inner_jac.T @ ca.sparsify(W) @ inner_jac
+        gn_hess = inner_jac.T @ (W if isinstance(W, ca.MX) else ca.sparsify(W)) @ inner_jac
         return gn_hess
 
     @staticmethod
-- 
2.43.0


From 058250a35d41c1ae871676a55a1f92f5487ec94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:00 +0000
Subject: [PATCH 091/166] fix: cost evaluation used an outdated factorization
 of a weighting matrix set after the last solver call

---
 acados/ocp_nlp/ocp_nlp_cost_ls.c  | 2 ++
 acados/ocp_nlp/ocp_nlp_cost_nls.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/acados/ocp_nlp/ocp_nlp_cost_ls.c b/acados/ocp_nlp/ocp_nlp_cost_ls.c
index 6934b7b..f68eac2 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_ls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_ls.c
@@ -1040,6 +1040,8 @@ void ocp_nlp_cost_ls_compute_fun(void *config_, void *dims_, void *model_, void
     ocp_nlp_cost_ls_workspace *work = work_;
 
     ocp_nlp_cost_ls_cast_workspace(config_, dims, opts_, work_);
+    // W might have been changed since the last solver call
+    ocp_nlp_cost_ls_update_W_factorization(config_, dims_, model_, opts_, memory_, work_);
     int nx = dims->nx;
     int nu = dims->nu;
     int nz = dims->nz;
diff --git a/acados/ocp_nlp/ocp_nlp_cost_nls.c b/acados/ocp_nlp/ocp_nlp_cost_nls.c
index 3429dfa..2a9c900 100644
--- a/acados/ocp_nlp/ocp_nlp_cost_nls.c
+++ b/acados/ocp_nlp/ocp_nlp_cost_nls.c
@@ -1070,6 +1070,8 @@ void ocp_nlp_cost_nls_compute_fun(void *config_, void *dims_, void *model_,
     struct blasfeo_dvec *ux = memory->ux;
 
     ocp_nlp_cost_nls_cast_workspace(config_, dims, opts_, work_);
+    // W might have been changed since the last solver call
+    ocp_nlp_cost_nls_update_W_factorization(config_, dims_, model_, opts_, memory_, work_);
 
     int nx = dims->nx;
     int nu = dims->nu;
-- 
2.43.0


From dd2f8b7ce21f507e605cff6f3349955ddd918e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 092/166] fix: detection of affine constraints ignored offsets
 and signs, mixed up rows and columns and overwrote other constraints

---
 .../acados_template/mpc_utils.py              | 269 +++++++-----------
 1 file changed, 101 insertions(+), 168 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index b2b23ad..2d0466d 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -37,7 +37,7 @@ from . import AcadosOcpIterate, AcadosOcpSolver
 from .acados_model import AcadosModel
 from .acados_ocp import AcadosOcp, AcadosOcpConstraints
 from .acados_multiphase_ocp import AcadosMultiphaseOcp
-from .utils import casadi_length, is_empty
+from .utils import casadi_length, is_empty, ACADOS_INFTY
 
 
 class AcadosCostConstraintEvaluator:
@@ -463,189 +463,122 @@ def create_model_with_cost_state(ocp: AcadosOcp) -> Tuple[AcadosModel, np.ndarra
 
 def detect_constraint_structure(model: AcadosModel, constraints: AcadosOcpConstraints, stage_type: str):
     """
+    Detects constraints within con_h_expr* that are affine in x and u and moves them to the bounds and general linear constraints.
+    Already defined bounds and linear constraints are kept; softened constraints and constraints that depend on z, parameters or time stay nonlinear.
+    At the initial stage, only bounds on x are moved, since bounds on u and general linear constraints are shared with the path stages.
+
     - stage_type: allowed values "initial", "path", "terminal"
     """
     x = model.x
     u = model.u
-    z = model.z
-    nx = x.shape[0]
-    nu = u.shape[0]
-
-    p_global = model.p_global
-    casadi_var = model.get_casadi_symbol()
-    casadi_dm_zeros = ca.DM.zeros
-
-    if stage_type == 'initial':
-        expr_constr = model.con_h_expr_0
-        lb = constraints.lh_0
-        ub = constraints.uh_0
-        print('\nConstraint detection for initial constraints.')
-    elif stage_type == 'path':
-        expr_constr = model.con_h_expr
-        lb = constraints.lh
-        ub = constraints.uh
-        print('\nConstraint detection for path constraints.')
-    elif stage_type == 'terminal':
-        expr_constr = model.con_h_expr_e
-        lb = constraints.lh_e
-        ub = constraints.uh_e
-        print('\nConstraint detection for terminal constraints.')
-    else:
+    nx = casadi_length(x)
+    nu = casadi_length(u)
+
+    if stage_type not in ("initial", "path", "terminal"):
         raise ValueError('Constraint detection: Wrong stage_type.')
+    suffix = {"initial": "_0", "path": "", "terminal": "_e"}[stage_type]
+    print(f'\nConstraint detection for {stage_type} constraints.')
+
+    expr_constr = getattr(model, f'con_h_expr{suffix}')
+    lb = getattr(constraints, f'lh{suffix}')
+    ub = getattr(constraints, f'uh{suffix}')
+    setattr(constraints, f'constr_type{suffix}', 'BGH')
 
     if is_empty(expr_constr):
-        expr_constr = casadi_var('con_h_expr', 0, 0)
+        setattr(model, f'con_h_expr{suffix}', None)
+        return
 
-    # Initialize
-    constr_expr_h = casadi_var('con_h_expr', 0, 0)
-    lh = []
-    uh = []
+    if stage_type == 'terminal' and not is_empty(u) and ca.depends_on(expr_constr, u):
+        raise ValueError('Terminal constraint may not depend on control input.')
 
-    c_lin = casadi_dm_zeros(0, nx)
-    d_lin = casadi_dm_zeros(0, nu)
-    lg = []
-    ug = []
+    if not is_empty(getattr(constraints, f'idxs_rev{suffix}')):
+        raise NotImplementedError(f'Constraint detection is not implemented for slacks defined via idxs_rev{suffix}.')
 
-    Jbx = casadi_dm_zeros(0, nx)
-    lbx = []
-    ubx = []
+    variables = [v for v in (x, u) if not is_empty(v)]
+    others = [v for v in (model.z, model.p, model.p_global, model.t) if not is_empty(v)]
+    idxsh = getattr(constraints, f'idxsh{suffix}')
 
-    Jbu = casadi_dm_zeros(0, nu)
-    lbu = []
-    ubu = []
+    h, lh, uh, kept = [], [], [], []
+    C, D, lg, ug = [], [], [], []
+    idxbx, lbx, ubx = [], [], []
+    idxbu, lbu, ubu = [], [], []
+    used_x = list(getattr(constraints, f'idxbx{suffix}'))
+    used_u = list(constraints.idxbu)
 
     # Loop over CasADi formulated constraints
-    for ii in range(expr_constr.shape[0]):
+    for ii in range(casadi_length(expr_constr)):
         c = expr_constr[ii]
-        if any(ca.which_depends(c, z)) or \
-                not ca.is_linear(c, ca.vertcat(x, u)) or \
-                any(ca.which_depends(c, model.p)) or \
-                any(ca.which_depends(c, p_global)):
-
-            # External constraint
-            constr_expr_h = ca.vertcat(constr_expr_h, c)
+        jac = ca.horzcat(*[ca.jacobian(c, v) for v in variables])
+        is_affine = not any(ca.depends_on(jac, v) for v in variables) and not any(ca.depends_on(c, v) for v in others)
+
+        kind = 'nonlinear constraint'
+        if is_affine and ii not in idxsh:
+            Jc, offset = ca.Function('Jc_fun', variables, [jac, c])(*[np.zeros(v.shape) for v in variables])
+            Jc = Jc.full().flatten()
+            # bounds beyond ACADOS_INFTY are not considered as constraints
+            l = lb[ii] - float(offset) if lb[ii] > -ACADOS_INFTY else -ACADOS_INFTY
+            r = ub[ii] - float(offset) if ub[ii] < ACADOS_INFTY else ACADOS_INFTY
+            idx = Jc.nonzero()[0]
+            if len(idx) == 1:
+                i = idx[0]
+                lo = l / Jc[i] if l > -ACADOS_INFTY else -ACADOS_INFTY * np.sign(Jc[i])
+                up = r / Jc[i] if r < ACADOS_INFTY else ACADOS_INFTY * np.sign(Jc[i])
+                if Jc[i] < 0:
+                    lo, up = up, lo
+                if i < nx and i not in used_x:
+                    kind = 'bound on x'
+                    used_x.append(i)
+                    idxbx.append(i)
+                    lbx.append(lo)
+                    ubx.append(up)
+                elif i >= nx and i - nx not in used_u and stage_type == 'path':
+                    kind = 'bound on u'
+                    used_u.append(i - nx)
+                    idxbu.append(i - nx)
+                    lbu.append(lo)
+                    ubu.append(up)
+            if kind == 'nonlinear constraint' and len(idx) > 0 and stage_type != 'initial':
+                kind = 'general linear constraint'
+                C.append(Jc[:nx])
+                D.append(Jc[nx:])
+                lg.append(l)
+                ug.append(r)
+
+        if kind == 'nonlinear constraint':
+            kept.append(ii)
+            h.append(c)
             lh.append(lb[ii])
             uh.append(ub[ii])
-            print(f'constraint {ii + 1} is kept as nonlinear constraint.')
-            print(c)
-            print(' ')
-        else:  # c is linear in x and u
-            Jc_fun = ca.Function('Jc_fun', [x, u], [
-                ca.jacobian(c, ca.vertcat(x, u))])
-            Jc = Jc_fun(0, 0)
-            if np.sum(Jc != 0) == 1:
-                # c is bound
-                idb = Jc.full().squeeze().nonzero()[0][0]
-                if idb < nx:
-                    # Bound on x
-                    Jbx = ca.vertcat(Jbx, casadi_dm_zeros(1, nx))
-                    Jbx[-1, idb] = 1
-                    lbx.append(lb[ii] / Jc[idb])
-                    ubx.append(ub[ii] / Jc[idb])
-                    print(f'constraint {ii + 1} is reformulated as bound on x.')
-                    print(c)
-                    print(' ')
-                else:
-                    # Bound on u
-                    Jbu = ca.vertcat(Jbu, casadi_dm_zeros(1, nu))
-                    Jbu[-1, idb - nx] = 1
-                    lbu.append(lb[ii] / Jc[idb])
-                    ubu.append(ub[ii] / Jc[idb])
-                    print(f'constraint {ii + 1} is reformulated as bound on u.')
-                    print(c)
-                    print(' ')
-            else:
-                # c is general linear constraint
-                c_lin = ca.vertcat(c_lin, Jc[:nx])
-                d_lin = ca.vertcat(d_lin, Jc[nx:])
-                lg.append(lb[ii])
-                ug.append(ub[ii])
-                print(
-                    f'constraint {ii + 1} is reformulated as general linear constraint.')
-                print(c)
-                print(' ')
-
-    if stage_type == 'terminal':
-        # Checks
-        if any(ca.which_depends(expr_constr, u)) or lbu or (d_lin.size()[0] > 0 and any(d_lin)):
-            raise ValueError(
-                'Terminal constraint may not depend on control input.')
-        # h
-        constraints.constr_type_e = 'BGH'
-        if lh:
-            model.con_h_expr_e = constr_expr_h
-            constraints.lh_e = np.array(lh)
-            constraints.uh_e = np.array(uh)
-        else:
-            model.con_h_expr_e = None
-            constraints.lh_e = np.array([])
-            constraints.uh_e = np.array([])
-        # linear constraint g
-        if lg:
-            constraints.C_e = c_lin
-            constraints.lg_e = np.array(lg)
-            constraints.ug_e = np.array(ug)
-        # Bounds x
-        if lbx:
-            constraints.idxbx_e = J_to_idx(Jbx)
-            constraints.lbx_e = np.array(lbx)
-            constraints.ubx_e = np.array(ubx)
-
-    elif stage_type == 'initial':
-        print("At initial stage, only h constraints are detected.")
-        constraints.constr_type_0 = 'BGH'
-        # h
-        if lh:
-            model.con_h_expr_0 = constr_expr_h
-            constraints.lh_0 = np.array(lh)
-            constraints.uh_0 = np.array(uh)
-        else:
-            model.con_h_expr_0 = None
-            constraints.lh_0 = np.array([])
-            constraints.uh_0 = np.array([])
-        # linear constraint g
-        if lg:
-            constraints.C = np.array(c_lin)
-            constraints.D = np.array(d_lin)
-            constraints.lg = np.array(lg)
-            constraints.ug = np.array(ug)
-        # Bounds x
-        if lbx:
-            constraints.idxbx_0 = J_to_idx(Jbx)
-            constraints.lbx_0 = np.array(lbx)
-            constraints.ubx_0 = np.array(ubx)
-        # Bounds u
-        if lbu:
-            constraints.idxbu = J_to_idx(Jbu)
-            constraints.lbu = np.array(lbu)
-            constraints.ubu = np.array(ubu)
-    else:  # path
-        constraints.constr_type = 'BGH'
-        # nonlinear constraint
-        if lh:
-            model.con_h_expr = constr_expr_h
-            constraints.lh = np.array(lh)
-            constraints.uh = np.array(uh)
-        else:
-            model.con_h_expr = None
-            constraints.lh = np.array([])
-            constraints.uh = np.array([])
-        # linear constraint g
-        if lg:
-            constraints.C = np.array(c_lin)
-            constraints.D = np.array(d_lin)
-            constraints.lg = np.array(lg)
-            constraints.ug = np.array(ug)
-        # Bounds x
-        if lbx:
-            constraints.idxbx = J_to_idx(Jbx)
-            constraints.lbx = np.array(lbx)
-            constraints.ubx = np.array(ubx)
-        # Bounds u
-        if lbu:
-            constraints.idxbu = J_to_idx(Jbu)
-            constraints.lbu = np.array(lbu)
-            constraints.ubu = np.array(ubu)
+        print(f'constraint {ii + 1} is formulated as {kind}.\n{c}\n')
+
+    # nonlinear constraints
+    setattr(model, f'con_h_expr{suffix}', ca.vertcat(*h) if h else None)
+    setattr(constraints, f'lh{suffix}', np.array(lh))
+    setattr(constraints, f'uh{suffix}', np.array(uh))
+    setattr(constraints, f'idxsh{suffix}', np.array([kept.index(ii) for ii in idxsh]))
+
+    def append(field, values):
+        if len(values) > 0:
+            old = getattr(constraints, field)
+            setattr(constraints, field, np.concatenate((old, values)) if len(old) > 0 else np.array(values))
+
+    # linear constraints
+    if lg:
+        C_old = getattr(constraints, f'C{suffix}')
+        setattr(constraints, f'C{suffix}', np.vstack(([C_old] if C_old.shape[0] > 0 else []) + C))
+        if stage_type == 'path':
+            D_old = constraints.D
+            constraints.D = np.vstack(([D_old] if D_old.shape[0] > 0 else []) + D)
+        append(f'lg{suffix}', lg)
+        append(f'ug{suffix}', ug)
+
+    # bounds
+    append(f'idxbx{suffix}', idxbx)
+    append(f'lbx{suffix}', lbx)
+    append(f'ubx{suffix}', ubx)
+    append('idxbu', idxbu)
+    append('lbu', lbu)
+    append('ubu', ubu)
 
 
 def J_to_idx(J):
-- 
2.43.0


From 2fb065c0214124380d0951055930a4c6b7b1bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 093/166] fix: two-sided Huber penalties had four times the
 weight

---
 interfaces/acados_template/acados_template/acados_ocp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index a9fb791..edadc03 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2201,8 +2201,9 @@ class AcadosOcp:
             width = upper_bound - lower_bound
             center = lower_bound + 0.5 * width
             constr_expr = 2 * (constr_expr - center) / width
+            # NOTE: weight is the Hessian wrt. the original constraint expression
             penalty, _, penalty_hess, penalty_hess_xgn = \
-                symmetric_huber_penalty(new_residual, delta=huber_delta, w=weight*width**2, min_hess=min_hess)
+                symmetric_huber_penalty(new_residual, delta=huber_delta, w=weight*(0.5*width)**2, min_hess=min_hess)
 
         elif upper_bound is not None:
             constr_expr -= upper_bound
-- 
2.43.0


From 3b5695f1fe9a544b364a156c805a4a1b1324f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 094/166] fix: custom outer Hessian was not extended for L2
 penalties and not copied to the initial stage

---
 interfaces/acados_template/acados_template/acados_ocp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index edadc03..fa3aff2 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1771,6 +1771,7 @@ class AcadosOcp:
         model.cost_expr_ext_cost_custom_hess_0 = model.cost_expr_ext_cost_custom_hess
         model.cost_psi_expr_0 = model.cost_psi_expr
         model.cost_r_in_psi_expr_0 = model.cost_r_in_psi_expr
+        model.cost_conl_custom_outer_hess_0 = model.cost_conl_custom_outer_hess
         return
 
     def translate_nls_cost_to_conl(self):
@@ -2048,6 +2049,7 @@ class AcadosOcp:
         W_attr = f'W{suffix}'
         cost_r_in_psi_attr = f'cost_r_in_psi_expr{suffix}'
         cost_psi_attr = f'cost_psi_expr{suffix}'
+        cost_conl_hess_attr = f'cost_conl_custom_outer_hess{suffix}'
         cost_ext_attr = f'cost_expr_ext_cost{suffix}'
 
         casadi_symbol = self.model.get_casadi_symbol()
@@ -2079,6 +2081,12 @@ class AcadosOcp:
             else:
                 setattr(self.model, cost_psi_attr, new_term)
 
+            # extend custom outer Hessian, if there is one
+            current_outer = getattr(self.model, cost_conl_hess_attr)
+            if not is_empty(current_outer):
+                setattr(self.model, cost_conl_hess_attr,
+                        ca.diagcat(current_outer, ca.hessian(new_term, new_residual)[0]))
+
         elif cost_type == "EXTERNAL":
             current_ext_cost = getattr(self.model, cost_ext_attr)
             new_cost_term = .5 * weight * violation_expr**2
-- 
2.43.0


From 133abcf53061f89b343211017d626ca95c33ded0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:37 +0000
Subject: [PATCH 095/166] fix: adding linear constraints twice raised an
 exception

---
 interfaces/acados_template/acados_template/acados_ocp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index fa3aff2..edd734e 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2272,10 +2272,10 @@ class AcadosOcp:
             self.constraints.lg = lg
             self.constraints.ug = ug
         else:
-            self.constraints.C = ca.vertcat(self.constraints.C, C)
-            self.constraints.D = ca.vertcat(self.constraints.D, D)
-            self.constraints.lg = ca.vertcat(self.constraints.lg, lg)
-            self.constraints.ug = ca.vertcat(self.constraints.ug, ug)
+            self.constraints.C = np.vstack((self.constraints.C, C))
+            self.constraints.D = np.vstack((self.constraints.D, D))
+            self.constraints.lg = np.concatenate((self.constraints.lg, lg))
+            self.constraints.ug = np.concatenate((self.constraints.ug, ug))
 
         return
 
-- 
2.43.0


From 899768a51f81295389733bed45c2a4efdb94aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 096/166] fix: L2 penalties on external costs without reference
 raised an exception

---
 .../acados_template/acados_ocp.py               | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index edd734e..57043da 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2054,16 +2054,17 @@ class AcadosOcp:
 
         casadi_symbol = self.model.get_casadi_symbol()
 
-        # append zero reference
-        existing_yref = getattr(self.cost, yref_attr)
-        new_ref = np.zeros(1)
-        setattr(self.cost, yref_attr, np.concatenate((existing_yref, new_ref)))
+        cost_type = getattr(self.cost, cost_type_attr)
 
-        # append violation expression to model cost_y_expr
-        existing_cost_y = getattr(self.model, cost_y_expr_attr)
-        setattr(self.model, cost_y_expr_attr, ca.vertcat(existing_cost_y, violation_expr))
+        if cost_type in ["NONLINEAR_LS", "CONVEX_OVER_NONLINEAR"]:
+            # append zero reference
+            existing_yref = getattr(self.cost, yref_attr)
+            new_ref = np.zeros(1)
+            setattr(self.cost, yref_attr, np.concatenate((existing_yref, new_ref)))
 
-        cost_type = getattr(self.cost, cost_type_attr)
+            # append violation expression to model cost_y_expr
+            existing_cost_y = getattr(self.model, cost_y_expr_attr)
+            setattr(self.model, cost_y_expr_attr, ca.vertcat(existing_cost_y, violation_expr))
 
         if cost_type == "NONLINEAR_LS":
             current_W = getattr(self.cost, W_attr)
-- 
2.43.0


From 90d43b7ff2a2823d128bedf6d5c39204470de096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 097/166] fix: slack penalties were kept when all constraints
 were removed

---
 interfaces/acados_template/acados_template/acados_ocp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 57043da..b46d961 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2418,6 +2418,12 @@ class AcadosOcp:
         # delete constraint fromulation from constraints object
         self.constraints = new_constraints
 
+        # delete the corresponding slack penalties
+        for field in ['zl', 'zu', 'Zl', 'Zu']:
+            setattr(self.cost, field, np.array([]))
+            setattr(self.cost, field + '_e', np.array([]))
+            setattr(self.cost, field + '_0', np.array([]))
+
     def augment_with_t0_param(self) -> None:
         """Add a parameter t0 to the model and set it to 0.0."""
         # TODO only needed in benchmark for problems with time-varying references.
-- 
2.43.0


From 65b1284d2cc2efaa9986712fefca65666089f235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:19 +0000
Subject: [PATCH 098/166] fix: general linear constraints were dropped in the
 translation to a feasibility problem

---
 .../acados_template/acados_template/acados_ocp.py    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index b46d961..41848ab 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -2329,6 +2329,13 @@ class AcadosOcp:
             (model.con_h_expr, constraints.lh, constraints.uh),
         ]
 
+        # general linear constraints, also imposed at the initial stage
+        linear_expr_bound_list = []
+        if constraints.lg.size > 0:
+            linear_expr = ca.mtimes(ca.DM(constraints.C), model.x) + ca.mtimes(ca.DM(constraints.D), model.u)
+            linear_expr_bound_list.append((linear_expr, constraints.lg, constraints.ug))
+        expr_bound_list += linear_expr_bound_list
+
         if casadi_length(model.con_phi_expr) > 0:
             phi_o_r_expr = ca.substitute(model.con_phi_expr, model.con_r_in_phi, model.con_r_expr)
             expr_bound_list.append((phi_o_r_expr, constraints.lphi, constraints.uphi))
@@ -2344,6 +2351,9 @@ class AcadosOcp:
             (model.con_h_expr_e, constraints.lh_e, constraints.uh_e),
         ]
 
+        if constraints.lg_e.size > 0:
+            expr_bound_list_e.append((ca.mtimes(ca.DM(constraints.C_e), model.x), constraints.lg_e, constraints.ug_e))
+
         if casadi_length(model.con_phi_expr_e) > 0:
             phi_o_r_expr_e = ca.substitute(model.con_phi_expr_e, model.con_r_in_phi_e, model.con_r_expr_e)
             expr_bound_list_e.append((phi_o_r_expr_e, constraints.lphi_e, constraints.uphi_e))
@@ -2358,7 +2368,7 @@ class AcadosOcp:
         expr_bound_list_0 = [
             (model.u[constraints.idxbu], constraints.lbu, constraints.ubu),
             (model.con_h_expr_0, constraints.lh_0, constraints.uh_0),
-        ]
+        ] + linear_expr_bound_list
 
         # initial state constraint
         if (keep_x0 or parametric_x0) and not constraints.has_x0:
-- 
2.43.0


From 9dc7f9f8d4dd91f0dc8c658c600d036297b32859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 099/166] fix: parameters of the terminal stage of multi-phase
 problems were not initialized

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 884675d..d49d099 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -891,7 +891,7 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {%- endfor %}
     {%- endif %}
 
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++) {
+    for (int i = {{ start_idx[jj] }}; i < {% if jj == n_phases - 1 %}{{ end_idx[jj] }} + 1{% else %}{{ end_idx[jj] }}{% endif %}; i++) {
         {{ name }}_acados_update_params(capsule, i, p, NP_{{ jj }});
     }
     {%- endif %}{# if phases_dims[jj].np #}
-- 
2.43.0


From b17d7aeb44c7e3182a70c2288eed3a13d0de1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:55 +0000
Subject: [PATCH 100/166] fix: zero parameter values of a phase were
 initialized with those of the previous phase

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index d49d099..5ccd0c2 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -884,6 +884,7 @@ void {{ name }}_acados_create_set_default_parameters({{ name }}_solver_capsule*
     {% if parameter_values_nnz[jj] / phases_dims[jj].np > sparsity_threshold %}
     memcpy(p, p_init_{{ jj }}, NP_{{ jj }}*sizeof(double));
     {%- else %}
+    memset(p, 0, NP_{{ jj }}*sizeof(double));
     {%- for item in parameter_values[jj] %}
         {%- if item != 0 %}
     p[{{ loop.index0 }}] = {{ item }};
-- 
2.43.0


From a0711fd89c5dadeac8bc621ac9d86b9df280a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 101/166] fix: code of multi-phase problems with
 convex-over-nonlinear path constraints did not compile

---
 .../c_templates_tera/acados_multi_solver.in.c               | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index 5ccd0c2..d9d631d 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -579,7 +579,7 @@ void {{ name }}_acados_create_setup_functions({{ name }}_solver_capsule* capsule
         MAP_CASADI_FNC(nl_constr_h_adj_p_{{ jj }}[i], {{ model[jj].name }}_constr_h_adj_p);
     }
     {%- endif %}
-{% elif constraints[jj].constr_type == "BGP" %}
+{% elif constraints[jj].constr_type == "BGP" and phases_dims[jj].nphi > 0 %}
     capsule->phi_constraint_fun_{{ jj }} = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
     capsule->phi_constraint_fun_jac_hess_{{ jj }} = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
     for (int i = 0; i < n_cost_path; i++)
@@ -2327,9 +2327,9 @@ void {{ name }}_acados_create_setup_nlp_in({{ name }}_solver_capsule* capsule, i
     for (int i = {{ cost_start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
         i_fun = i - {{ cost_start_idx[jj] }};
-        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun[i_fun]);
+        ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i, "nl_constr_phi_o_r_fun", &capsule->phi_constraint_fun_{{ jj }}[i_fun]);
         ocp_nlp_constraints_model_set_external_param_fun(nlp_config, nlp_dims, nlp_in, i,
-                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess[i_fun]);
+                                      "nl_constr_phi_o_r_fun_phi_jac_ux_z_phi_hess_r_jac_ux", &capsule->phi_constraint_fun_jac_hess_{{ jj }}[i_fun]);
     }
 {%- endif %}
 {%- endfor %}{# phases loop !#}
-- 
2.43.0


From 9fafeb79346f4c2044d9ede34a4ef3f04cc3e65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 102/166] fix: code of multi-phase problems with parametric
 sensitivities of nonlinear constraints did not compile

---
 .../acados_template/c_templates_tera/acados_multi_solver.in.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index d9d631d..e414420 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -568,13 +568,13 @@ void {{ name }}_acados_create_setup_functions({{ name }}_solver_capsule* capsule
     }
     {% endif %}
     {%- if code_gen_options.with_solution_sens_wrt_params_forw %}
-    capsule->nl_constr_h_jac_p_hess_xu_p_{ jj } = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
+    capsule->nl_constr_h_jac_p_hess_xu_p_{{ jj }} = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
     for (int i = 0; i < n_cost_path; i++) {
         MAP_CASADI_FNC(nl_constr_h_jac_p_hess_xu_p_{{ jj }}[i], {{ model[jj].name }}_constr_h_jac_p_hess_xu_p);
     }
     {%- endif %}
     {%- if code_gen_options.with_value_sens_wrt_params %}
-    capsule->nl_constr_h_adj_p_{ jj } = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
+    capsule->nl_constr_h_adj_p_{{ jj }} = (external_function_external_param_casadi *) malloc(sizeof(external_function_external_param_casadi)*n_cost_path);
     for (int i = 0; i < n_cost_path; i++) {
         MAP_CASADI_FNC(nl_constr_h_adj_p_{{ jj }}[i], {{ model[jj].name }}_constr_h_adj_p);
     }
-- 
2.43.0


From 9593d0ea20a5b724946d7c4b3283cce053bb98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 103/166] fix: GNSF integrators of multi-phase problems raised
 exceptions

---
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index f2bd48c..d565bc4 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -141,7 +141,11 @@ class AcadosOcpSolver:
         ocp.make_consistent(verbose=verbose)
 
         # module dependent post processing
-        if ocp.solver_options.integrator_type == 'GNSF':
+        if isinstance(ocp, AcadosMultiphaseOcp):
+            for i in range(ocp.n_phases):
+                if ocp.mocp_opts.integrator_type[i] == 'GNSF' and ocp.model[i].gnsf_model is None:
+                    detect_gnsf_structure(ocp.model[i], ocp.phases_dims[i])
+        elif ocp.solver_options.integrator_type == 'GNSF':
             if 'gnsf_model' in ocp.__dict__:
                 raise ValueError("AcadosSim should not have gnsf_model, loading GNSF model functions from json is deprecated.")
             elif ocp.model.gnsf_model is not None:
-- 
2.43.0


From a9ab59162b5e90c3cb372a1d2527fd545d2a872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 104/166] fix: code of multi-phase problems with GNSF
 integrators could not be rendered

---
 .../acados_template/acados_template/acados_multiphase_ocp.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index 29b5232..97abce5 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -576,7 +576,7 @@ class AcadosMultiphaseOcp:
                     if isinstance(item, (AcadosOcpDims, AcadosOcpConstraints, AcadosOcpCost)):
                         ocp_dict[key][i] = format_class_dict(dict(item.__dict__))
                     if isinstance(item, (AcadosModel,)):
-                        ocp_dict[key][i] = item.to_dict()
+                        ocp_dict[key][i] = format_class_dict(item.to_dict())
 
         ocp_dict = format_class_dict(ocp_dict)
 
-- 
2.43.0


From ee607406e38717ef76be4ee7c42c19a4b597a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 105/166] fix: creating a control horizon raised exceptions for
 linear least-squares costs at the terminal or the path stages only

---
 interfaces/acados_template/acados_template/mpc_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index 2d0466d..dd676d7 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -658,6 +658,7 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     if ocp.cost.cost_type == 'LINEAR_LS':
         aug_ocp.cost.Vu = np.zeros((len(ocp.cost.yref), 0))
         aug_ocp.cost.Vx = np.concatenate((ocp.cost.Vx, ocp.cost.Vu), axis=1)
+    if ocp.cost.cost_type_e == 'LINEAR_LS' and not is_empty(ocp.cost.Vx_e):
         aug_ocp.cost.Vx_e = np.concatenate((ocp.cost.Vx_e, np.zeros((len(ocp.cost.yref_e), nu))), axis=1)
 
     # NOTE: other cost types do not need to be redefined as they are defined via expressions.
-- 
2.43.0


From 61bd6a873ddcded048c34b474cfa4758652aac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 106/166] fix: creating a control horizon raised exceptions for
 MX models

---
 interfaces/acados_template/acados_template/mpc_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index dd676d7..03459c7 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -645,7 +645,7 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     aug_ocp.model.x = ca.vertcat(ocp.model.x, ocp.model.u)
     aug_ocp.model.u = ca_symbol('u_aug', 0, 0)
     if ocp.solver_options.integrator_type == 'ERK':
-        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.SX.zeros(nu))
+        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.DM.zeros(nu))
     elif ocp.solver_options.integrator_type == 'IRK':
         udot = ca_symbol('udot', nu)
         aug_ocp.model.xdot = ca.vertcat(ocp.model.xdot, udot)
-- 
2.43.0


From e7e099a80f7b752d043be1b65696e4c4708832ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 107/166] fix: creating a control horizon raised exceptions for
 models with both explicit dynamics and state derivatives

---
 .../acados_template/acados_template/mpc_utils.py      | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index 03459c7..a60e484 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -644,15 +644,16 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     aug_ocp = deepcopy(ocp)
     aug_ocp.model.x = ca.vertcat(ocp.model.x, ocp.model.u)
     aug_ocp.model.u = ca_symbol('u_aug', 0, 0)
-    if ocp.solver_options.integrator_type == 'ERK':
-        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.DM.zeros(nu))
-    elif ocp.solver_options.integrator_type == 'IRK':
+    if not is_empty(ocp.model.xdot):
         udot = ca_symbol('udot', nu)
         aug_ocp.model.xdot = ca.vertcat(ocp.model.xdot, udot)
-        aug_ocp.model.f_impl_expr = ca.vertcat(ocp.model.f_impl_expr, udot)
+        if not is_empty(ocp.model.f_impl_expr):
+            aug_ocp.model.f_impl_expr = ca.vertcat(ocp.model.f_impl_expr, udot)
+    if ocp.solver_options.integrator_type == 'ERK':
+        aug_ocp.model.f_expl_expr = ca.vertcat(ocp.model.f_expl_expr, ca.DM.zeros(nu))
     elif ocp.solver_options.integrator_type == 'DISCRETE':
         aug_ocp.model.disc_dyn_expr = ca.vertcat(ocp.model.disc_dyn_expr, ocp.model.u)
-    else:
+    elif ocp.solver_options.integrator_type != 'IRK':
         raise ValueError('integrator_type not supported in create_ocp_with_control_horizon!')
 
     if ocp.cost.cost_type == 'LINEAR_LS':
-- 
2.43.0


From 6f211b1d3d7bb7f5cfcd2d106de10cebb0789f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:03 +0000
Subject: [PATCH 108/166] fix: creating a control horizon raised exceptions for
 general linear constraints

---
 interfaces/acados_template/acados_template/mpc_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/interfaces/acados_template/acados_template/mpc_utils.py b/interfaces/acados_template/acados_template/mpc_utils.py
index a60e484..5e67dad 100644
--- a/interfaces/acados_template/acados_template/mpc_utils.py
+++ b/interfaces/acados_template/acados_template/mpc_utils.py
@@ -673,6 +673,12 @@ def create_ocp_with_control_horizon(ocp: AcadosOcp, Nc: int, Nr: int=None) -> Un
     aug_ocp.constraints.ubu = np.array([])
     aug_ocp.constraints.idxbu = np.array([])
 
+    if not is_empty(ocp.constraints.C):
+        aug_ocp.constraints.C = np.concatenate((ocp.constraints.C, ocp.constraints.D), axis=1)
+        aug_ocp.constraints.D = np.zeros((ocp.constraints.C.shape[0], 0))
+        if not is_empty(ocp.constraints.C_e):
+            aug_ocp.constraints.C_e = np.concatenate((ocp.constraints.C_e, np.zeros((ocp.constraints.C_e.shape[0], nu))), axis=1)
+
     # create MOCP
     if Nc == 1:
         # Missing Ts from transition node needs to be compensated for by additional shooting node in Nr interval effectively promoting one of the Nr-nodes to a Nu-node
-- 
2.43.0


From 52a11620b4284926771edbf3a07ac6361edef111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:03 +0000
Subject: [PATCH 109/166] fix: code of multi-phase problems with several GNSF
 phases did not compile

---
 .../c_templates_tera/acados_multi_solver.in.c | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
index e414420..2a34f53 100644
--- a/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
+++ b/interfaces/acados_template/acados_template/c_templates_tera/acados_multi_solver.in.c
@@ -400,21 +400,23 @@ ocp_nlp_dims* {{ name }}_acados_create_setup_dimensions({{ name }}_solver_capsul
 
   {%- if mocp_opts.integrator_type[jj] == "GNSF" -%}
     // GNSF specific dimensions
-    int gnsf_nx1 = {{ model[jj].gnsf_model.dims.nx1 }};
-    int gnsf_nz1 = {{ model[jj].gnsf_model.dims.nz1 }};
-    int gnsf_nout = {{ model[jj].gnsf_model.dims.nout }};
-    int gnsf_ny = {{ model[jj].gnsf_model.dims.ny }};
-    int gnsf_nuhat = {{ model[jj].gnsf_model.dims.nuhat }};
-
-    for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
     {
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nx1", &gnsf_nx1);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nz1", &gnsf_nz1);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nout", &gnsf_nout);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_ny", &gnsf_ny);
-        ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nuhat", &gnsf_nuhat);
+        int gnsf_nx1 = {{ model[jj].gnsf_model.dims.nx1 }};
+        int gnsf_nz1 = {{ model[jj].gnsf_model.dims.nz1 }};
+        int gnsf_nout = {{ model[jj].gnsf_model.dims.nout }};
+        int gnsf_ny = {{ model[jj].gnsf_model.dims.ny }};
+        int gnsf_nuhat = {{ model[jj].gnsf_model.dims.nuhat }};
+
+        for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
+        {
+            ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nx1", &gnsf_nx1);
+            ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nz1", &gnsf_nz1);
+            ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nout", &gnsf_nout);
+            ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_ny", &gnsf_ny);
+            ocp_nlp_dims_set_dynamics(nlp_config, nlp_dims, i, "gnsf_nuhat", &gnsf_nuhat);
+        }
     }
-  {%- endif %}
+{%- endif %}
 
   {%- if mocp_opts.cost_discretization[jj] == "INTEGRATOR" %}
     for (int i = {{ start_idx[jj] }}; i < {{ end_idx[jj] }}; i++)
-- 
2.43.0


From c23d0fbcbbf501d4ee883b641f1a999fb75c473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 110/166] fix: off-diagonal elements of the noise covariance
 accumulated over the stages in zoRO updates with stage-wise additive noise

---
 .../custom_update_function_zoro_template.in.c                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index bc6cc43..fb6b2fa 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -894,6 +894,7 @@ static void compute_GWG_stagewise_varying(ocp_nlp_solver* solver, custom_memory*
     const int nw = {{ zoro_description.nw }};
 
     // NOTE: update noise covariance terms for current stage
+    blasfeo_dgese(nw, nw, 0.0, &custom_mem->W_stage_mat, 0, 0);
     for (int i = 0; i < nw; ++i)
     {
         blasfeo_dgein1(data[custom_mem->offset_W_add_diag + nw * current_stage + i], &custom_mem->W_stage_mat, i, i);
-- 
2.43.0


From 58db03f2ef0f1df8249224ca6856c21e3ddee51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 111/166] fix: zoRO updates without data ignored the noise
 covariance if its diagonal can be passed

---
 .../custom_update_function_zoro_template.in.c                 | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index fb6b2fa..85183f7 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -611,8 +611,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
 {%- endfor %}
 
-{%- if not zoro_description.input_W_diag %}
-    // NOTE: G, W are not changing -> precompute GWG
+    // NOTE: precompute GWG, recomputed if W changes
     // temp_GW_mat = unc_jac_G_mat * W_mat
     blasfeo_dgemm_nn(nx, nw, nw, 1.0, &custom_mem->unc_jac_G_mat, 0, 0,
                         &custom_mem->W_mat, 0, 0, 0.0,
@@ -621,7 +620,6 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     blasfeo_dgemm_nt(nx, nx, nw, 1.0, &custom_mem->temp_GW_mat, 0, 0,
                         &custom_mem->unc_jac_G_mat, 0, 0, 0.0,
                         &custom_mem->GWG_mat, 0, 0, &custom_mem->GWG_mat, 0, 0);
-{%- endif %}
 
 {%- if zoro_description.input_W_add_diag %}
     // NOTE: Initialize additive covariance matrix to 0.
-- 
2.43.0


From 3e14721916c3c772aaa471c2ff731ed4e0041eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 112/166] fix: zoRO updates without data read the stage-wise
 additive noise out of bounds

---
 .../custom_update_function_zoro_template.in.c                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 85183f7..e57d1ce 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -893,7 +893,8 @@ static void compute_GWG_stagewise_varying(ocp_nlp_solver* solver, custom_memory*
 
     // NOTE: update noise covariance terms for current stage
     blasfeo_dgese(nw, nw, 0.0, &custom_mem->W_stage_mat, 0, 0);
-    for (int i = 0; i < nw; ++i)
+    // NOTE: without data, there is no additive part
+    for (int i = 0; data != NULL && i < nw; ++i)
     {
         blasfeo_dgein1(data[custom_mem->offset_W_add_diag + nw * current_stage + i], &custom_mem->W_stage_mat, i, i);
     }
@@ -1832,7 +1833,7 @@ int custom_update_function({{ name }}_solver_capsule* capsule, double* data, int
     riccati_recursion(nlp_solver, nlp_mem, custom_mem);
     double time_riccati = acados_toc(&timer0);
 {%- endif %}
-    uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, data, data_len);
+    uncertainty_propagate_and_update(nlp_solver, nlp_in, nlp_out, custom_mem, streaming > 0 ? data : NULL, data_len);
 
 
 {%- if zoro_description.output_P_matrices %}
-- 
2.43.0


From dd5d33b047810935dec88b2017a30870e7e967ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 113/166] fix: zoRO updates with Riccati feedback and tightened
 linear constraints did not compile

---
 .../custom_update_function_zoro_template.in.c        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index e57d1ce..1c69369 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -696,8 +696,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // lg
     {%- for it in zoro_description.idx_lg_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
     // lh
@@ -714,8 +714,8 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // ug
     {%- for it in zoro_description.idx_ug_t %}
-    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, it, 0, &custom_mem->dct_dux, ir, 0);
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, it, 0, &custom_mem->dct_dux, ir, nu);
+    blasfeo_dgecp(1, nu, &custom_mem->Dg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_mat, {{it}}, 0, &custom_mem->dct_dux, ir, nu);
     ir += 1;
     {%- endfor %}
 
@@ -727,7 +727,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // lg_e
     {%- for it in zoro_description.idx_lg_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
     // lh_e (just add offset)
@@ -739,7 +739,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     {%- endfor %}
     // ug_e
     {%- for it in zoro_description.idx_ug_e_t %}
-    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, it, 0, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_dgecp(1, nx, &custom_mem->Cg_e_mat, {{it}}, 0, &custom_mem->dcet_dx, ir, 0);
     ir += 1;
     {%- endfor %}
 
-- 
2.43.0


From f68f38c4e5a11528eaf09d528ff4bffc27da548e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 114/166] fix: zoRO updates with barrier terms used the path
 indices of state bounds at the terminal stage

---
 .../custom_update_function_zoro_template.in.c                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 1c69369..e226c9e 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -722,7 +722,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     ir = 0;
     // lbx_e
     {%- for it in zoro_description.idx_lbx_e_t %}
-    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx[{{it}}]);
+    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx_e[{{it}}]);
     ir += 1;
     {%- endfor %}
     // lg_e
@@ -734,7 +734,7 @@ static void custom_val_init_function(ocp_nlp_dims *nlp_dims, ocp_nlp_in *nlp_in,
     ir += {{zoro_description.nlh_e_t}};
     // ubx_e
     {%- for it in zoro_description.idx_ubx_e_t %}
-    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx[{{it}}]);
+    blasfeo_dgein1(1.0, &custom_mem->dcet_dx, ir, custom_mem->idxbx_e[{{it}}]);
     ir += 1;
     {%- endfor %}
     // ug_e
-- 
2.43.0


From d7d8ebfd5492c1faab259a8eb8a0d925466bdbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:59 +0000
Subject: [PATCH 115/166] fix: zoRO updates with barrier terms stored control
 Jacobians of nonlinear constraints in the wrong row

---
 .../custom_update_function_zoro_template.in.c             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index e226c9e..04232aa 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -1058,8 +1058,8 @@ static void update_riccati_quad_matrices(ocp_nlp_solver *solver, ocp_nlp_memory
     // lh
 {%- for it in zoro_description.idx_lh_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, 0, 0);
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, 0, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, 0);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, nu);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, nu);
     temp_nominal_val = custom_mem->d_ineq_val[ng + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+ii, nbu + nbx + ng + {{it}}));
@@ -1113,8 +1113,8 @@ static void update_riccati_quad_matrices(ocp_nlp_solver *solver, ocp_nlp_memory
 // uh
 {%- for it in zoro_description.idx_uh_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, 0, 0);
-    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, 0, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, 0);
+    blasfeo_pack_dmat(1, nu, custom_mem->d_Dgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, 0);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->dct_dux, ir, nu);
     blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng + {{it}}, ng+nh, &custom_mem->scaled_dct_dux, ir, nu);
     temp_nominal_val = -custom_mem->d_ineq_val[ng + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+ii, nbu + nbx + ng + {{it}}));
-- 
2.43.0


From ff0ec883ff03415eb065238d9b6fd4ee1d98e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 116/166] fix: zoRO updates used too small buffers for terminal
 nonlinear constraints

---
 .../custom_update_function_zoro_template.in.c      | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 04232aa..5e6bfbb 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -1168,7 +1168,7 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 
 {%- if zoro_description.nlh_e_t + zoro_description.nuh_e_t > 0 %}
     // Get C_N
-    ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_mat);
+    ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_e_mat);
 {%- endif %}
 
 {%- if zoro_description.nlg_e_t + zoro_description.nlh_e_t > 0 %}
@@ -1186,8 +1186,8 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 // lh_e
 {%- for it in zoro_description.idx_lh_e_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
     temp_nominal_val = custom_mem->d_ineq_e_val[ng_e + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+N, nbx_e + ng_e + {{it}}));
 {%- if zoro_description.feedback_optimization_mode == "RICCATI_BARRIER_1" %}
     blasfeo_dgesc(1, nx, custom_mem->tau / (temp_nominal_val * temp_nominal_val), &custom_mem->scaled_dcet_dx, ir, 0);
@@ -1227,8 +1227,8 @@ static void update_riccati_quad_matrices_terminal(ocp_nlp_solver *solver, ocp_nl
 // uh_e
 {%- for it in zoro_description.idx_uh_e_t %}
     // NOTE: the d_Cgh_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
-    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->dcet_dx, ir, 0);
+    blasfeo_pack_dmat(1, nx, custom_mem->d_Cgh_e_mat + ng_e + {{it}}, ng_e+nh_e, &custom_mem->scaled_dcet_dx, ir, 0);
     temp_nominal_val = - custom_mem->d_ineq_e_val[ng_e + {{it}}] - sqrt(blasfeo_dvecex1(custom_mem->ineq_backoff_sq_buffer+N, nbx_e + ng_e + {{it}}));
 {%- if zoro_description.feedback_optimization_mode == "RICCATI_BARRIER_1" %}
     blasfeo_dgesc(1, nx, custom_mem->tau / (temp_nominal_val * temp_nominal_val), &custom_mem->scaled_dcet_dx, ir, 0);
@@ -1726,9 +1726,9 @@ static void uncertainty_propagate_and_update(ocp_nlp_solver *solver, ocp_nlp_in
     // Get C_{k+1} and D_{k+1}
     ocp_nlp_get_at_stage(solver, N, "C", custom_mem->d_Cgh_e_mat);
     // NOTE: the d_Cgh_e_mat is column-major, the first ng_e rows are the Jacobians of the linear constraints
-    blasfeo_pack_dmat(nh_e, nx, custom_mem->d_Cgh_e_mat+ng_e, ng_e+nh_e, &custom_mem->Ch_mat, 0, 0);
+    blasfeo_pack_dmat(nh_e, nx, custom_mem->d_Cgh_e_mat+ng_e, ng_e+nh_e, &custom_mem->Ch_e_mat, 0, 0);
 
-    compute_gh_beta(K_mat, &custom_mem->Ch_mat,
+    compute_gh_beta(K_mat, &custom_mem->Ch_e_mat,
                     &custom_mem->dummy_Dgh_e_mat, &custom_mem->temp_CaDK_mat,
                     &custom_mem->temp_CaDKmP_mat, &custom_mem->temp_beta_mat,
                     &custom_mem->uncertainty_matrix_buffer[N], nh_e, nx, nu);
-- 
2.43.0


From e8db8bdee1a5363d98faa63820c2ce6620c7572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 117/166] fix: zoRO updates with constant parameter covariance
 as noise did not compile

---
 .../custom_update_function_zoro_template.in.c                   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 5e6bfbb..5c5c274 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -938,7 +938,9 @@ static void reset_Sigma_p_matrix(struct blasfeo_dmat* Sigma_p_mat, double *data)
     blasfeo_pack_dmat(np, np, data, np, Sigma_p_mat, 0, 0);
 {%- endif %}
 }
+{%- endif %}
 
+{%- if (code_gen_options.sens_forw_p) and (zoro_description.nonlinear_uncertainty_mode == "NOISE") %}
 /**
  * @brief Build the additive term for covariance propagation: temp_GSp_mat = GWG + S_p Sigma_p S_p^T.
  *
-- 
2.43.0


From 557357260954437b79894f82292eac2ee7ae4b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 118/166] fix: zoRO descriptions with Riccati feedback required
 a constant feedback gain

---
 interfaces/acados_template/acados_template/zoro_description.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/zoro_description.py b/interfaces/acados_template/acados_template/zoro_description.py
index 2d6f6f6..896280d 100644
--- a/interfaces/acados_template/acados_template/zoro_description.py
+++ b/interfaces/acados_template/acados_template/zoro_description.py
@@ -219,6 +219,8 @@ class ZoroDescription:
         if self.feedback_optimization_mode not in FEEDBACK_OPTIMIZATION_MODES:
             raise Exception(f"feedback_optimization_mode should be in {', '.join(FEEDBACK_OPTIMIZATION_MODES)}, got {self.feedback_optimization_mode}.")
         if self.feedback_optimization_mode != "CONSTANT_FEEDBACK":
+            if self.fdbk_K_mat is None:
+                self.fdbk_K_mat = np.zeros((dims.nu, dims.nx))
             if self.riccati_Q_const is None or self.riccati_R_const is None or self.riccati_S_const is None:
                 raise Exception("riccati_Q_const, riccati_R_const, riccati_S_const should not be None when feedback_optimization_mode != CONSTANT_FEEDBACK.")
             if self.riccati_Q_const.shape != (dims.nx, dims.nx):
-- 
2.43.0


From 5bc4eb005592d7fc47a0bea1c0f3bda38d7e83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:00 +0000
Subject: [PATCH 119/166] fix: sign of the feedback gain in the documentation
 of the zoRO uncertainty propagation

---
 interfaces/acados_template/acados_template/zoro_description.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/zoro_description.py b/interfaces/acados_template/acados_template/zoro_description.py
index 896280d..14242fc 100644
--- a/interfaces/acados_template/acados_template/zoro_description.py
+++ b/interfaces/acados_template/acados_template/zoro_description.py
@@ -42,7 +42,7 @@ class ZoroDescription:
     Description of a Zero-Order Robust Optimization (zoRO) scheme.
 
     The uncertainty propagation is performed by:
-    $$P_{k+1} = (A_k + B_kK)P_k(A_k + B_kK)^\top + GWG^\top$$.
+    $$P_{k+1} = (A_k - B_kK)P_k(A_k - B_kK)^\top + GWG^\top$$.
 
     Used to render custom updated zoRO functions in acados.
 
-- 
2.43.0


From 6c4083fd7dfdccc3f1bf9b36809c64da92324a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:45 +0000
Subject: [PATCH 120/166] fix: terminal linear constraints were tightened with
 the path constraint matrix in zoRO updates

---
 .../custom_update_function_zoro_template.in.c                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
index 5c5c274..68f69ef 100644
--- a/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
+++ b/interfaces/acados_template/acados_template/custom_update_templates/custom_update_function_zoro_template.in.c
@@ -1698,7 +1698,7 @@ static void uncertainty_propagate_and_update(ocp_nlp_solver *solver, ocp_nlp_in
 
 {%- if zoro_description.nlg_e_t + zoro_description.nug_e_t > 0 %}
     // Linear constraints: g
-    compute_gh_beta(K_mat, &custom_mem->Cg_mat,
+    compute_gh_beta(K_mat, &custom_mem->Cg_e_mat,
                     &custom_mem->dummy_Dgh_e_mat, &custom_mem->temp_CaDK_mat,
                     &custom_mem->temp_CaDKmP_mat, &custom_mem->temp_beta_mat,
                     &custom_mem->uncertainty_matrix_buffer[N], ng_e, nx, nu);
-- 
2.43.0


From 78577f45caaead1b848065f5833b88245ed2552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:39 +0000
Subject: [PATCH 121/166] fix: dumping multi-phase descriptions into a
 directory that does not exist raised an exception

---
 .../acados_template/acados_template/acados_multiphase_ocp.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index 97abce5..9b96efb 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -594,6 +594,10 @@ class AcadosMultiphaseOcp:
 
         NOTE: Please make sure to call `AcadosOcp.make_consistent()` before dumping to json.
         """
+        dir_name = os.path.dirname(self.code_gen_options.json_file)
+        if dir_name:
+            os.makedirs(dir_name, exist_ok=True)
+
         # Get dict representation and create hash
         ocp_nlp_dict = self.to_dict()
         ocp_nlp_dict['hash'] = hash_class_instance(self)
-- 
2.43.0


From 18070579091b875039c463a532a6ab0f574026fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 122/166] fix: partially generated code was reused after an
 interrupted code generation

---
 .../acados_template/acados_multiphase_ocp.py                | 6 ++++--
 interfaces/acados_template/acados_template/acados_ocp.py    | 6 ++++--
 .../acados_template/acados_template/acados_ocp_solver.py    | 6 +++++-
 interfaces/acados_template/acados_template/acados_sim.py    | 6 ++++--
 .../acados_template/acados_template/acados_sim_solver.py    | 6 +++++-
 5 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
index 9b96efb..294ff44 100644
--- a/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_multiphase_ocp.py
@@ -588,7 +588,7 @@ class AcadosMultiphaseOcp:
         return ocp_dict
 
 
-    def dump_to_json(self) -> None:
+    def dump_to_json(self, with_hash: bool = True) -> None:
         """
         Dumps the OCP description in JSON format to AcadosOcp.json_file.
 
@@ -600,7 +600,9 @@ class AcadosMultiphaseOcp:
 
         # Get dict representation and create hash
         ocp_nlp_dict = self.to_dict()
-        ocp_nlp_dict['hash'] = hash_class_instance(self)
+        # NOTE: the hash marks the generated code as complete
+        if with_hash:
+            ocp_nlp_dict['hash'] = hash_class_instance(self)
 
         with open(self.code_gen_options.json_file, 'w') as f:
             json.dump(ocp_nlp_dict, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 41848ab..4a95bbe 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -1630,7 +1630,7 @@ class AcadosOcp:
         return
 
 
-    def dump_to_json(self) -> None:
+    def dump_to_json(self, with_hash: bool = True) -> None:
         dir_name = os.path.dirname(self.code_gen_options.json_file)
         if dir_name:
             os.makedirs(dir_name, exist_ok=True)
@@ -1639,7 +1639,9 @@ class AcadosOcp:
         ocp_dict = self.to_dict()
 
         # Create hash for code reuse detection (similar to MATLAB implementation)
-        ocp_dict['hash'] = hash_class_instance(self)
+        # NOTE: the hash marks the generated code as complete
+        if with_hash:
+            ocp_dict['hash'] = hash_class_instance(self)
 
         with open(self.code_gen_options.json_file, 'w') as f:
             json.dump(ocp_dict, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index d565bc4..f8eec47 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -158,13 +158,15 @@ class AcadosOcpSolver:
             print(f"NOTE: The selected QP solver {ocp.solver_options.qp_solver} does not support one-sided constraints yet.")
 
         # generate code (external functions and templated code)
+        # NOTE: the hash is only written when code generation is complete, such that partially generated code is not reused.
+        ocp.dump_to_json(with_hash=False)
         t0 = time.time()
         ocp.generate_external_functions()
         t1 = time.time()
         if verbose:
             print(f"External functions generated in {1000*(t1-t0):.3f} ms.")
 
-        ocp.dump_to_json()
+        ocp.dump_to_json(with_hash=False)
 
         t0 = time.time()
         ocp.render_templates(cmake_builder=cmake_builder)
@@ -180,6 +182,8 @@ class AcadosOcpSolver:
             target_location = os.path.join(ocp.code_gen_options.code_export_directory, ocp.solver_options.custom_update_header_filename)
             shutil.copyfile(ocp.solver_options.custom_update_header_filename, target_location)
 
+        ocp.dump_to_json()
+
 
     @staticmethod
     def build(code_export_dir, with_cython=False, cmake_builder: CMakeBuilder = None, verbose: bool = True):
diff --git a/interfaces/acados_template/acados_template/acados_sim.py b/interfaces/acados_template/acados_template/acados_sim.py
index 3635a67..2a0c821 100644
--- a/interfaces/acados_template/acados_template/acados_sim.py
+++ b/interfaces/acados_template/acados_template/acados_sim.py
@@ -537,13 +537,15 @@ class AcadosSim:
         return format_class_dict(sim_dict)
 
 
-    def dump_to_json(self) -> None:
+    def dump_to_json(self, with_hash: bool = True) -> None:
         dir_name = os.path.dirname(self.code_gen_options.json_file)
         if dir_name:
             os.makedirs(dir_name, exist_ok=True)
 
         sim_dict = self.to_dict()
-        sim_dict['hash'] = hash_class_instance(self)
+        # NOTE: the hash marks the generated code as complete
+        if with_hash:
+            sim_dict['hash'] = hash_class_instance(self)
 
         with open(self.code_gen_options.json_file, 'w') as f:
             json.dump(sim_dict, f, default=make_object_json_dumpable, indent=4, sort_keys=True)
diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index 7d81712..ef86328 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -112,18 +112,22 @@ class AcadosSimSolver:
                 detect_gnsf_structure(sim.model, sim.dims)
 
         # generate code for external functions
+        # NOTE: the hash is only written when code generation is complete, such that partially generated code is not reused.
+        sim.dump_to_json(with_hash=False)
         t0 = time.time()
         sim.generate_external_functions()
         t1 = time.time()
         if verbose:
             print(f"External functions generated in {1000*(t1-t0):.3f} ms.")
 
-        sim.dump_to_json()
+        sim.dump_to_json(with_hash=False)
 
         t0 = time.time()
         sim.render_templates(cmake_builder)
         t1 = time.time()
 
+        sim.dump_to_json()
+
         if verbose:
             print(f"Templated solver code generated in {1000*(t1-t0):.3f} ms.")
 
-- 
2.43.0


From fc6a05f3f11f97427236ef6062bc8cd2a9952ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 123/166] fix: library of another formulation was loaded after
 an interrupted build

---
 .../acados_template/acados_template/acados_ocp_solver.py  | 7 ++++++-
 .../acados_template/acados_template/acados_sim_solver.py  | 7 ++++++-
 interfaces/acados_template/acados_template/utils.py       | 8 ++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_solver.py
index f8eec47..4874f23 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_solver.py
@@ -53,7 +53,7 @@ from .builders import CMakeBuilder
 from .acados_ocp import AcadosOcp
 from .acados_multiphase_ocp import AcadosMultiphaseOcp
 from .gnsf import detect_gnsf_structure
-from .utils import (get_shared_lib_ext, get_shared_lib_prefix, get_shared_lib_dir, get_shared_lib,
+from .utils import (get_shared_lib_ext, remove_shared_lib, get_shared_lib_prefix, get_shared_lib_dir, get_shared_lib,
                     make_object_json_dumpable, verbose_system_call,
                     acados_lib_is_compiled_with_openmp, set_directory, status_to_str, hash_class_instance,
                     compare_ocp_formulations)
@@ -308,6 +308,11 @@ class AcadosOcpSolver:
             elif verbose:
                 print("Code reuse possible, skipping code generation.")
 
+        if generate and build:
+            # make sure that no library of another formulation is loaded if building is interrupted
+            remove_shared_lib(os.path.join(ocp.code_gen_options.code_export_directory,
+                f'{get_shared_lib_prefix()}acados_ocp_solver_{ocp.name}{get_shared_lib_ext()}'))
+
         if generate:
             self.generate(ocp, cmake_builder=cmake_builder, verbose=verbose)
             self.__generated = True
diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index ef86328..7b01978 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -50,7 +50,7 @@ from .acados_sim import AcadosSim
 
 from .builders import CMakeBuilder
 from .gnsf import detect_gnsf_structure
-from .utils import (get_shared_lib_ext, get_shared_lib_prefix, get_shared_lib_dir, hash_class_instance,
+from .utils import (get_shared_lib_ext, remove_shared_lib, get_shared_lib_prefix, get_shared_lib_dir, hash_class_instance,
                     status_to_str,
                     verbose_system_call, acados_lib_is_compiled_with_openmp,
                     get_shared_lib, set_directory)
@@ -215,6 +215,11 @@ class AcadosSimSolver:
             elif verbose:
                 print("Code reuse possible, skipping code generation.")
 
+        if generate and build:
+            # make sure that no library of another formulation is loaded if building is interrupted
+            remove_shared_lib(os.path.join(sim.code_gen_options.code_export_directory,
+                f'{get_shared_lib_prefix()}acados_sim_solver_{sim.name}{get_shared_lib_ext()}'))
+
         if generate:
             self.generate(sim, cmake_builder=cmake_builder, verbose=verbose)
             self.__generated = True
diff --git a/interfaces/acados_template/acados_template/utils.py b/interfaces/acados_template/acados_template/utils.py
index 0d017f8..c830280 100644
--- a/interfaces/acados_template/acados_template/utils.py
+++ b/interfaces/acados_template/acados_template/utils.py
@@ -120,6 +120,14 @@ def acados_lib_is_compiled_with_openmp(acados_lib: DllLoader, verbose: bool) ->
     return acados_lib_uses_omp
 
 
+def remove_shared_lib(shared_lib_name: str) -> None:
+    """Removes a shared library, if it exists."""
+    try:
+        os.remove(shared_lib_name)
+    except OSError:
+        pass
+
+
 def get_shared_lib(shared_lib_name: str, winmode = None) -> DllLoader:
     if winmode is not None:
         shared_lib = DllLoader(shared_lib_name, winmode=winmode)
-- 
2.43.0


From 4f49f4739d4d0f82860e54bcf102801c6e3df4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:43 +0000
Subject: [PATCH 124/166] fix: simulation solvers loaded libraries of other
 formulations if created with build=False

---
 .../acados_template/acados_template/acados_sim_solver.py      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_sim_solver.py b/interfaces/acados_template/acados_template/acados_sim_solver.py
index 7b01978..0fc9522 100644
--- a/interfaces/acados_template/acados_template/acados_sim_solver.py
+++ b/interfaces/acados_template/acados_template/acados_sim_solver.py
@@ -156,7 +156,7 @@ class AcadosSimSolver:
 
         sim.make_consistent()
 
-        if generate is False and check_reuse_possible:
+        if check_reuse_possible and (not generate or not build):
             reuse_possible = AcadosSimSolver.is_code_reuse_possible(sim, verbose=verbose)
             if not reuse_possible:
                 generate = True
@@ -205,7 +205,7 @@ class AcadosSimSolver:
             self.__T = sim.solver_options.T
             sim.make_consistent()
 
-        if isinstance(sim, AcadosSim) and generate is False and check_reuse_possible:
+        if isinstance(sim, AcadosSim) and check_reuse_possible and (not generate or not build):
             reuse_possible = AcadosSimSolver.is_code_reuse_possible(sim, verbose=verbose)
             if not reuse_possible:
                 generate = True
-- 
2.43.0


From b70927ed7a76aecc4dbdb530a2ceac4eeb5a86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 125/166] fix: QP descriptions ignored documented mask defaults
 and could not leave out empty blocks

---
 .../acados_template/acados_ocp_qp.py          | 29 ++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 7bd1519..9ae496c 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -291,21 +291,36 @@ class AcadosOcpQp:
             return True
         return False
 
-    def make_consistent(self, assert_dims: bool = True):
-        # detect dims
-        nx_next = None
+    def __set_defaults(self):
+        # replace None entries: masks by ones, everything else by empty arrays
+        def length(field, i):
+            value = getattr(self, field)[i]
+            return 0 if value is None else value.shape[0]
 
         for i in range(self.N+1):
+            nx, nu, ng = length('Q', i), length('R', i), length('lg', i)
+            nx_next = length('Q', i+1) if i < self.N else 0
+            matrix_shapes = {'A': (nx_next, nx), 'B': (nx_next, nu), 'S': (nu, nx), 'C': (ng, nx), 'D': (ng, nu)}
 
-            # replace None entries with empty numpy arrays
             for field in self.all_fields:
                 if field in self.dynamics_fields and i == self.N:
                     continue  # skip dynamics fields at terminal stage
                 if getattr(self, field)[i] is None:
-                    if field in self.vector_fields:
+                    if field.endswith('_mask'):
+                        self.set(field, i, np.ones((length(field[:-len('_mask')], i),)))
+                    elif field in self.vector_fields:
                         self.set(field, i, np.zeros((0,)))
-                    elif field in self.matrix_fields:
-                        self.set(field, i, np.zeros((0,0)))
+                    else:
+                        shape = matrix_shapes.get(field, (0, 0))
+                        self.set(field, i, np.zeros(shape if 0 in shape else (0, 0)))
+
+    def make_consistent(self, assert_dims: bool = True):
+        # detect dims
+        nx_next = None
+
+        self.__set_defaults()
+
+        for i in range(self.N+1):
 
             # cost
             nx = self.Q[i].shape[0]
-- 
2.43.0


From 16f96f47ab1ca1f288cc95a22d15e5a8dc6b6cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 126/166] fix: QPs with empty blocks could not be read from
 dictionaries and files

---
 .../acados_template/acados_template/acados_ocp_qp.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 9ae496c..8739968 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -395,9 +395,11 @@ class AcadosOcpQp:
 
     @classmethod
     def from_dict(cls, qp_dict) -> 'AcadosOcpQp':
-        # Determine N from the keys
-        Q_keys = [k for k in qp_dict.keys() if k.startswith('Q_')]
-        N = len(Q_keys) - 1
+        # Determine N from the keys, NOTE: fields of dimension zero might be missing
+        stages = [int(s) for k in qp_dict.keys() if (s := k.split('_')[-1]).isdigit()]
+        if not stages:
+            raise ValueError("qp_dict does not contain any QP data.")
+        N = max(stages)
         lN = len(str(N+1))
 
         # Sanity check
@@ -414,8 +416,6 @@ class AcadosOcpQp:
                 key = f'{field}_{i:0{lN}d}'
                 if key in qp_dict:
                     qp.set(field, i, qp_dict[key])
-                else:
-                    qp.set(field, i, np.zeros((0,0)))
 
         # Parse cost & constraint data (stages 0 to N)
         for field in qp.cost_fields | qp.constraint_fields:
@@ -423,8 +423,6 @@ class AcadosOcpQp:
                 key = f'{field}_{i:0{lN}d}'
                 if key in qp_dict:
                     qp.set(field, i, qp_dict[key])
-                else:
-                    qp.set(field, i, np.zeros((0,0)))
 
         qp.make_consistent()
         return qp
-- 
2.43.0


From e86825afe661ae56c376e123ea40d8fac512a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 127/166] fix: loading a QP changed the data handed over

---
 interfaces/acados_template/acados_template/acados_ocp_qp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 8739968..1e8ac56 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -430,7 +430,7 @@ class AcadosOcpQp:
     @classmethod
     def from_json(cls, json_file_path: str = None, json_data: dict = None) -> 'AcadosOcpQp':
         if json_data is not None:
-            qp_dict = json_data
+            qp_dict = dict(json_data)
         elif json_file_path is not None:
             with open(json_file_path, 'r') as f:
                 qp_dict = json.load(f)
-- 
2.43.0


From 0355c5010678475bc9089502bd2552b785aa6e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 128/166] fix: QP solver could not be created with default
 options

---
 .../acados_template/acados_template/acados_ocp_qp_solver.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
index 9f4c3eb..375d4ce 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
@@ -71,10 +71,10 @@ class AcadosOcpQpSolver:
         self.__solver_created = False
         self.__N = qp.N
         self.qp = qp
-        self.__qp_solver_name = opts.qp_solver
         qp.make_consistent()
         if opts is None:
             opts = AcadosOcpQpOptions()
+        self.__qp_solver_name = opts.qp_solver
         opts.make_consistent(qp.N)
 
         # check compatibility of qp and opts
-- 
2.43.0


From d62c008fbb5c806d253f5c219268b15b20ba28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 129/166] fix: multipliers of soft constraints at stage 0 were
 altered when read from the QP solver

---
 .../acados_template/acados_ocp_qp_solver.py        | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
index 375d4ce..759bc20 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
@@ -387,14 +387,12 @@ class AcadosOcpQpSolver:
 
         # Fallback for when setting remove_x_elimination == True
         if field_ == 'lam' and unique_duals and stage_ == 0:
-            hard = self.qp.dims.ng[stage_] + self.qp.dims.nbx[stage_] + self.qp.dims.nbu[stage_]
-            lam_0 = out[:2*hard]
-            lb_ = len(lam_0) // 2
-            unique_lam = lam_0[lb_:] - lam_0[:lb_]
-            lb_lam = np.maximum(0.0, -unique_lam)
-            ub_lam = np.maximum(0.0,  unique_lam)
-            out[:lb_] = lb_lam
-            out[lb_:2*lb_] = ub_lam
+            n_con = self.qp.dims.ng[stage_] + self.qp.dims.nbx[stage_] + self.qp.dims.nbu[stage_]
+            # multipliers of soft constraints are unique, as lower and upper one are tied to different slacks
+            hard = np.where(self.qp.idxs_rev[stage_] < 0)[0]
+            unique_lam = out[n_con + hard] - out[hard]
+            out[hard] = np.maximum(0.0, -unique_lam)
+            out[n_con + hard] = np.maximum(0.0,  unique_lam)
 
         return out
 
-- 
2.43.0


From 5857de6af24a3d72cfc54f51ee268713dd3d279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 130/166] fix: cost value of QP solver was the one of the
 condensed QP and assumed a fixed statistics layout

---
 .../acados_template/acados_ocp_qp_solver.py   | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
index 759bc20..c498278 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp_solver.py
@@ -464,8 +464,10 @@ class AcadosOcpQpSolver:
             if 'HPIPM' not in self.qp_solver_name:
                 raise NotImplementedError("statistics is only implemented for HPIPM solver for now.")
             iter_qp = self.get_stats('iter')
-            stat_m = 20 # ad-hoc hard code for metric number
-            out = np.zeros((iter_qp+1, stat_m), dtype=np.float64, order="C")
+            # number of metrics depends on the HPIPM version
+            stat_m = c_int()
+            self.__acados_lib.ocp_qp_xcond_solver_get_scalar(self.c_solver, self.c_out, 'stat_m'.encode('utf-8'), byref(stat_m))
+            out = np.zeros((iter_qp+1, stat_m.value), dtype=np.float64, order="C")
             out_data = cast(out.ctypes.data, POINTER(c_double))
             self.__acados_lib.ocp_qp_solver_get_stats(self.c_solver, out_data, self.qp_solver_name.encode('utf-8'))
 
@@ -478,9 +480,16 @@ class AcadosOcpQpSolver:
         """
         Returns the cost value of the current solution.
         """
-        full_stat = self.get_stats("statistics")
-        cost = full_stat[-1, 12]
-        return cost
+        qp = self.qp
+        cost = 0.0
+        for i in range(self.N+1):
+            x, u, sl, su = (self.get(i, field) for field in ['x', 'u', 'sl', 'su'])
+            cost += 0.5 * x @ qp.Q[i] @ x + qp.q[i] @ x
+            if u.size > 0:
+                cost += 0.5 * u @ qp.R[i] @ u + u @ qp.S[i] @ x + qp.r[i] @ u
+            cost += 0.5 * sl @ (qp.Zl[i] * sl) + qp.zl[i] @ sl
+            cost += 0.5 * su @ (qp.Zu[i] * su) + qp.zu[i] @ su
+        return float(cost)
 
 
     def get_residuals(self, recompute=False):
-- 
2.43.0


From 97e51f9e03bbd49bbe5144d8a3c4387a62869c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 131/166] fix: soft bounds of CasADi QPs were put on the wrong
 variables

---
 .../acados_template/acados_template/acados_casadi_ocp_qp.py   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 7a4b36e..0e8ccac 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -170,7 +170,7 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsbu_rev,
             )
             if s_idx.size > 0:
-                expr = ui[soft_idx]
+                expr = ui[qp.idxb[i][:nbu][soft_idx]]
                 sl_k = sli[s_idx]
                 su_k = sui[s_idx]
                 self._append_constraints(expr+sl_k, lbu_soft, np.full(lbu_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bu_soft_lower')
@@ -186,7 +186,7 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsxb_rev,
             )
             if s_idx.size > 0:
-                expr = xi[soft_idx]
+                expr = xi[qp.idxb[i][nbu:][soft_idx] - nu]
                 sl_k = sli[s_idx]
                 su_k = sui[s_idx]
                 self._append_constraints(expr+sl_k, lbx_soft, np.full(lbx_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bx_soft_lower')
-- 
2.43.0


From 1e09450b7b25f8a90c9b8f6a53a0ebc13576aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:04 +0000
Subject: [PATCH 132/166] fix: bound multipliers of CasADi QPs belonged to
 other variables or were missing for partly soft bounds

---
 .../acados_template/acados_casadi_ocp_qp.py   |   6 +-
 .../acados_casadi_ocp_qp_solver.py            | 131 +++++++-----------
 2 files changed, 51 insertions(+), 86 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 0e8ccac..238d0f5 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -341,7 +341,8 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsx_rev,
                 bound_to_var_indices=x_state_indices,
             )
-            self._index_map['lam_bx_in_lam_w'].append(list(range(self.offset_lam, self.offset_lam + nbx)))
+            # hard bounds only, multipliers of soft ones are found in lam_g
+            self._index_map['lam_bx_in_lam_w'].append([self.offset_lam + int(j) for j in x_state_indices[idxsx_rev < 0]])
             self.offset_lam += nx
 
         elif _field == 'u':
@@ -363,7 +364,8 @@ class AcadosCasadiOcpQp:
                 idxs_rev_slice=idxsu_rev,
                 bound_to_var_indices=u_state_indices,
             )
-            self._index_map['lam_bu_in_lam_w'].append(list(range(self.offset_lam, self.offset_lam + nbu)))
+            # hard bounds only, multipliers of soft ones are found in lam_g
+            self._index_map['lam_bu_in_lam_w'].append([self.offset_lam + int(j) for j in u_state_indices[idxsu_rev < 0]])
             self.offset_lam += nu
 
         elif _field == 'sl':
diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
index 25d74a8..6214c02 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
@@ -188,44 +188,36 @@ class AcadosCasadiOcpQpSolver:
         lam_w = self.qp_sol_lam_w
         lam_g = self.qp_sol_lam_g
 
-        # --- hard/soft u-bound multipliers ---
-        if self.index_map['lam_bu_sl_in_lam_g'][stage] == []:
-            bu_lam = lam_w[self.index_map['lam_bu_in_lam_w'][stage]]
-            lbu_lam = np.maximum(0.0, -bu_lam)
-            ubu_lam = np.maximum(0.0,  bu_lam)
-        else:
-            lbu_lam = -lam_g[self.index_map['lam_bu_sl_in_lam_g'][stage]]
-            ubu_lam = lam_g[self.index_map['lam_bu_su_in_lam_g'][stage]]
-        # --- hard/soft x-bound multipliers ---
-        if self.index_map['lam_bx_sl_in_lam_g'][stage] == []:
-            bx_lam = lam_w[self.index_map['lam_bx_in_lam_w'][stage]]
-            lbx_lam = np.maximum(0.0, -bx_lam)
-            ubx_lam = np.maximum(0.0, bx_lam)
-        else:
-            lbx_lam = -lam_g[self.index_map['lam_bx_sl_in_lam_g'][stage]]
-            ubx_lam = lam_g[self.index_map['lam_bx_su_in_lam_g'][stage]]
-        # --- hard and soft constraint multipliers ---
-        g_lam = lam_g[self.index_map['lam_g_in_lam_g'][stage]]
-        if self.index_map['lam_g_sl_in_lam_g'][stage]:
-            lg_soft_lam = lam_g[self.index_map['lam_g_sl_in_lam_g'][stage]]
-            ug_soft_lam = lam_g[self.index_map['lam_g_su_in_lam_g'][stage]]
-            g_indices = np.array(self.index_map['lam_g_in_lam_g'][stage]+\
-                                 self.index_map['lam_g_sl_in_lam_g'][stage])
-            sorted_indices = np.argsort(g_indices) # get the right order
-            g_lam_lower = np.concatenate((np.maximum(0, -g_lam), -lg_soft_lam))
-            lbg_lam = g_lam_lower[sorted_indices]
-            g_lam_upper = np.concatenate((np.maximum(0, g_lam), ug_soft_lam))
-            ubg_lam = g_lam_upper[sorted_indices]
-        else:
-            lbg_lam = np.maximum(0, -g_lam)
-            ubg_lam = np.maximum(0, g_lam)
+        lower, upper = [], []
+        for field in ['bu', 'bx', 'g']:
+            hard, soft = self._get_hard_and_soft_positions(stage, field)
+            lam_lower = np.zeros(hard.size + soft.size)
+            lam_upper = np.zeros(hard.size + soft.size)
+            if field == 'g':
+                hard_lam = lam_g[self.index_map['lam_g_in_lam_g'][stage]]
+            else:
+                hard_lam = lam_w[self.index_map[f'lam_{field}_in_lam_w'][stage]]
+            lam_lower[hard] = np.maximum(0.0, -hard_lam)
+            lam_upper[hard] = np.maximum(0.0,  hard_lam)
+            lam_lower[soft] = -lam_g[self.index_map[f'lam_{field}_sl_in_lam_g'][stage]]
+            lam_upper[soft] = lam_g[self.index_map[f'lam_{field}_su_in_lam_g'][stage]]
+            lower.append(lam_lower)
+            upper.append(lam_upper)
         # --- slack variables multipliers ---
         # TODO: could be classified into bu, bx, g
         sl_lam = -lam_w[self.index_map['lam_sl_in_lam_w'][stage]]
         su_lam = -lam_w[self.index_map['lam_su_in_lam_w'][stage]]
-        return np.concatenate((lbu_lam, lbx_lam, lbg_lam,
-                                ubu_lam, ubx_lam, ubg_lam, 
-                                sl_lam, su_lam)).flatten()
+        return np.concatenate((*lower, *upper, sl_lam, su_lam)).flatten()
+
+    def _get_hard_and_soft_positions(self, stage: int, field: str):
+        """
+        Return the positions of hard and soft constraints within the constraints of type field in ['bu', 'bx', 'g'].
+        """
+        dims = self.acados_ocp_qp.dims
+        nbu, nb = dims.nbu[stage], dims.nb[stage]
+        section = {'bu': slice(0, nbu), 'bx': slice(nbu, nb), 'g': slice(nb, None)}[field]
+        idxs_rev = self.acados_ocp_qp.idxs_rev[stage][section]
+        return np.where(idxs_rev < 0)[0], np.where(idxs_rev >= 0)[0]
 
     def set(self, stage: int, field: str, value: np.ndarray):
         """
@@ -272,53 +264,28 @@ class AcadosCasadiOcpQpSolver:
            lsbu, lsbx, lsg, usbu, usbx, usg ]``.
         """
         dims = self.acados_ocp_qp.dims
-        nbu = dims.nbu[stage]
-        nbx = dims.nbx[stage]
-        ng_hard = len(self.index_map['lam_g_in_lam_g'][stage])
-        nsg = len(self.index_map['lam_g_sl_in_lam_g'][stage])
-        ns = len(self.index_map['lam_sl_in_lam_w'][stage])
-        ng = ng_hard + nsg
-
-        offset_upper = nbu + nbx + ng
-        lbu_lam = value[:nbu]
-        lbx_lam = value[nbu:nbu + nbx]
-        lbg_lam = value[nbu + nbx:nbu + nbx + ng]
-        ubu_lam = value[offset_upper:offset_upper + nbu]
-        ubx_lam = value[offset_upper + nbu:offset_upper + nbu + nbx]
-        ubg_lam = value[offset_upper + nbu + nbx:offset_upper + nbu + nbx + ng]
+        ns = dims.ns[stage]
+        n_con = dims.nb[stage] + dims.ng[stage]
+        if value.shape != (2 * (n_con + ns),):
+            raise ValueError(f"set(): field 'lam' at stage {stage} should have length {2 * (n_con + ns)}, got {value.size}.")
+
         # slacks
-        offset_soft_l = 2 * (nbu + nbx + ng)
-        offset_soft_u = offset_soft_l + ns
-        sl_lam = value[offset_soft_l:offset_soft_l + ns]
-        su_lam = value[offset_soft_u:offset_soft_u + ns]
-
-        g_indices = np.array(
-            self.index_map['lam_g_in_lam_g'][stage]
-            + self.index_map['lam_g_sl_in_lam_g'][stage]
-        )
-        sorted_indices = np.argsort(g_indices)
-        inverted_indices = np.argsort(sorted_indices)
-        gnl_indices = inverted_indices[:ng_hard]
-        gnl_sl_indices = inverted_indices[ng_hard:]
-        lg_lam_hard = lbg_lam[gnl_indices]
-        lg_lam_soft = lbg_lam[gnl_sl_indices]
-        ug_lam_hard = ubg_lam[gnl_indices]
-        ug_lam_soft = ubg_lam[gnl_sl_indices]
-
-        if stage < self.acados_ocp_qp.N:
-            if self.index_map['lam_bu_sl_in_lam_g'][stage] == []:
-                self.lam_x0[self.index_map['lam_bu_in_lam_w'][stage]] = ubu_lam - lbu_lam
+        sl_lam = value[2 * n_con:2 * n_con + ns]
+        su_lam = value[2 * n_con + ns:]
+
+        offset = 0
+        for field in ['bu', 'bx', 'g']:
+            hard, soft = self._get_hard_and_soft_positions(stage, field)
+            n = hard.size + soft.size
+            lam_lower = value[offset:offset + n]
+            lam_upper = value[n_con + offset:n_con + offset + n]
+            offset += n
+            if field == 'g':
+                self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = lam_upper[hard] - lam_lower[hard]
             else:
-                self.lam_g0[self.index_map['lam_bu_sl_in_lam_g'][stage]] = -lbu_lam
-                self.lam_g0[self.index_map['lam_bu_su_in_lam_g'][stage]] = ubu_lam
-        if self.index_map['lam_bx_sl_in_lam_g'][stage] == []:
-            self.lam_x0[self.index_map['lam_bx_in_lam_w'][stage]] = ubx_lam - lbx_lam
-        else:
-            self.lam_g0[self.index_map['lam_bx_sl_in_lam_g'][stage]] = -lbx_lam
-            self.lam_g0[self.index_map['lam_bx_su_in_lam_g'][stage]] = ubx_lam
-        self.lam_g0[self.index_map['lam_g_in_lam_g'][stage]] = lg_lam_hard - ug_lam_hard
-        self.lam_g0[self.index_map['lam_g_sl_in_lam_g'][stage]] = -lg_lam_soft
-        self.lam_g0[self.index_map['lam_g_su_in_lam_g'][stage]] = ug_lam_soft
+                self.lam_x0[self.index_map[f'lam_{field}_in_lam_w'][stage]] = lam_upper[hard] - lam_lower[hard]
+            self.lam_g0[self.index_map[f'lam_{field}_sl_in_lam_g'][stage]] = -lam_lower[soft]
+            self.lam_g0[self.index_map[f'lam_{field}_su_in_lam_g'][stage]] = lam_upper[soft]
         # TODO: separate soft contributions into bu, bx, g for more accurate warm-starting
         self.lam_x0[self.index_map['lam_sl_in_lam_w'][stage]] = -sl_lam
         self.lam_x0[self.index_map['lam_su_in_lam_w'][stage]] = -su_lam
@@ -417,11 +384,7 @@ class AcadosCasadiOcpQpSolver:
         elif field == 'lam':
             offset = 0
             for i in range(N + 1):
-                nbu = dims.nbu[i]
-                nbx = dims.nbx[i]
-                ng_hard = len(self.index_map['lam_g_in_lam_g'][i])
-                ns_i = dims.ns[i]
-                n_lam_i = 2 * (nbu + nbx + ng_hard + ns_i)
+                n_lam_i = 2 * (dims.nb[i] + dims.ng[i] + dims.ns[i])
                 self.set(i, 'lam', v[offset:offset + n_lam_i]); offset += n_lam_i
         else:
             raise NotImplementedError(f"set_flat(): field '{field}' not implemented.")
\ No newline at end of file
-- 
2.43.0


From 62c470bfe9969f23b2eac437c44644c186027e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 133/166] fix: QP Hessian blocks were not ordered as documented

---
 interfaces/acados_template/acados_template/acados_ocp_qp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 1e8ac56..e3648ff 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -451,14 +451,14 @@ class AcadosOcpQp:
 
         """
         Get Hessian block from last QP at stage i
-        In HPIPM form [[R, S^T], [S, Q]]
+        In HPIPM form [[R, S], [S^T, Q]], i.e. for (u, x)
         """
         if stage < self.N:
             Q_mat = self.Q[stage]
             R_mat = self.R[stage]
             S_mat = self.S[stage]
-            hess_block = np.block([[Q_mat, S_mat.T],
-                                   [S_mat, R_mat]])
+            hess_block = np.block([[R_mat, S_mat],
+                                   [S_mat.T, Q_mat]])
         else:
             Q_mat = self.Q[stage]
             hess_block = Q_mat
-- 
2.43.0


From d979b731239dac841f9175bc2cec837524f26531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 134/166] fix: LICQ check of QPs mixed up variables, ignored
 the terminal stage and dependencies across stages

---
 .../acados_template/acados_ocp_qp.py          | 96 +++++++------------
 1 file changed, 37 insertions(+), 59 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index e3648ff..47df46e 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -528,64 +528,42 @@ class AcadosOcpQp:
         NOTE: slack variables and masked constraints are not considered in this check yet.
         '''
 
-        horizon = self.N
-
-        # for each stage, collect the gradients of the active constraints
-        for i in range(horizon):
-            nx = self.dims.nx[i]
-            nu = self.dims.nu[i]
-            ng = self.dims.ng[i]
-            nbx = self.dims.nbx[i]
-            nbu = self.dims.nbu[i]
-
-            # Collect active constraint gradients, constraint matrix should be nx+nu+nx at each stage
-            A_active = []
-            row_len = nx + nu + nx
-
-            # Dynamic constraints are always active with [A, B, -I] structure
-            if i < horizon:
-                A_dyn = np.hstack([self.A[i], self.B[i], -np.eye(nx)])
+        nx, nu = self.dims.nx, self.dims.nu
+
+        # all variables (u_0, x_0, u_1, x_1, ...), stage i starts at offset[i]
+        offset = np.concatenate([[0], np.cumsum(nu + nx)])
+        n_var = offset[-1]
+
+        # gradients of all active constraints
+        A_active = [np.zeros((0, n_var))]
+
+        for i in range(self.N+1):
+            stage = slice(offset[i], offset[i+1])
+            # Dynamic constraints are always active with [B, A, -I] structure
+            if i < self.N:
+                A_dyn = np.zeros((nx[i+1], n_var))
+                A_dyn[:, stage] = np.hstack([self.B[i], self.A[i]])
+                A_dyn[:, offset[i+1] + nu[i+1]:offset[i+2]] = -np.eye(nx[i+1])
                 A_active.append(A_dyn)
 
-            # Box constraints on states
-            for j in range(nbx):
-                idx = self.idxb[i][j]
-                if np.isclose(iterate.x[i][idx], self.lbx[i][j]):
-                    grad = np.zeros(row_len)
-                    grad[idx] = 1.0
-                    A_active.append(grad)
-
-                elif np.isclose(iterate.x[i][idx], self.ubx[i][j]):
-                    grad = np.zeros(row_len)
-                    grad[idx] = -1.0
-                    A_active.append(grad)
-
-            # Box constraints on controls
-            for j in range(nbu):
-                idx = j  # assuming inputs are indexed from 0 to nbu-1
-                if np.isclose(iterate.u[i][idx], self.lbu[i][j]):
-                    grad = np.zeros(row_len)
-                    grad[nx + idx] = 1.0
-                    A_active.append(grad)
-
-                elif np.isclose(iterate.u[i][idx], self.ubu[i][j]):
-                    grad = np.zeros(row_len)
-                    grad[nx + idx] = -1.0
-                    A_active.append(grad)
-
-            # General constraints
-            for j in range(ng):
-                value = self.C[i]@iterate.x[i] + self.D[i]@iterate.u[i]
-                if np.isclose(value[j], self.lg[i][j]):
-                    grad = np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx)])
-                    A_active.append(grad)
-
-                elif np.isclose(value[j], self.ug[i][j]):
-                    grad = -np.hstack([self.C[i][j, :], self.D[i][j, :], np.zeros(nx)])
-                    A_active.append(grad)
-
-            A_active_matrix = np.vstack(A_active)
-            rank = np.linalg.matrix_rank(A_active_matrix)
-            if rank < A_active_matrix.shape[0]:
-                return False  # LICQ violated at this stage
-        return True  # LICQ holds at all stages
+            x = iterate.x[i]
+            u = iterate.u[i] if nu[i] > 0 else np.zeros((0,))
+            ux = np.concatenate([u, x])
+
+            # Box constraints on controls and states and general constraints
+            E = np.eye(nu[i] + nx[i])
+            grad = np.vstack([E[self.idxb[i].astype(int)],
+                              np.hstack([self.D[i].reshape((self.dims.ng[i], nu[i])), self.C[i]])])
+            lower = np.concatenate([self.lbu[i], self.lbx[i], self.lg[i]])
+            upper = np.concatenate([self.ubu[i], self.ubx[i], self.ug[i]])
+            value = grad @ ux
+            active = np.isclose(value, lower) | np.isclose(value, upper)
+
+            A_stage = np.zeros((np.count_nonzero(active), n_var))
+            A_stage[:, stage] = grad[active]
+            A_active.append(A_stage)
+
+        A_active_matrix = np.vstack(A_active)
+        if A_active_matrix.shape[0] == 0:
+            return True
+        return bool(np.linalg.matrix_rank(A_active_matrix) == A_active_matrix.shape[0])
-- 
2.43.0


From 1829e1d275938cde89466fdda12cbc105d7b21ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 135/166] fix: lengths of upper bounds and terminal state of
 QPs were not checked

---
 .../acados_template/acados_template/acados_ocp_qp.py  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_ocp_qp.py b/interfaces/acados_template/acados_template/acados_ocp_qp.py
index 47df46e..77ddf90 100644
--- a/interfaces/acados_template/acados_template/acados_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp_qp.py
@@ -335,10 +335,16 @@ class AcadosOcpQp:
                     assert self.S[i].shape == (nu, nx), f"Inconsistent dimensions in S matrix at stage {i}."
 
             # dynamics
-            if assert_dims and i < self.N:
+            if assert_dims:
+                assert self.Q[i].shape == (nx, nx), f"Inconsistent dimensions in Q matrix at stage {i}."
+                assert self.R[i].shape == (nu, nu), f"Inconsistent dimensions in R matrix at stage {i}."
                 if nx_next is not None:
                     assert nx == nx_next, f"Inconsistent dimensions between consecutive A matrices at stage {i}."
 
+            if assert_dims and i < self.N:
+                assert self.A[i].shape[1] == nx, f"Inconsistent number of states in A matrix at stage {i}."
+                assert self.B[i].shape[1] == nu, f"Inconsistent number of inputs in B matrix at stage {i}."
+
                 nx_next = self.A[i].shape[0]
 
                 assert self.B[i].shape[0] == nx_next, "Inconsistent dimensions between A and B matrices."
@@ -361,6 +367,9 @@ class AcadosOcpQp:
                     if i < self.N:
                         assert self.D[i].shape[1] == self.__dims.nu[i], f"Inconsistent number of inputs in general constraints at stage {i}."
 
+                for field, n in [('ubx', self.__dims.nbx[i]), ('ubu', self.__dims.nbu[i]), ('ug', self.__dims.ng[i]), ('lus', self.__dims.ns[i])]:
+                    assert len(getattr(self, field)[i]) == n, f"Inconsistent number of lower and upper bounds in {field} at stage {i}."
+
                 assert len(self.idxs_rev[i]) == self.__dims.nb[i] + self.__dims.ng[i], f"Inconsistent number of slack variable indices at stage {i}."
 
                 # slack cost
-- 
2.43.0


From 563f40fd44b51d2137e6841e5cfe6dd4f4739d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 136/166] fix: flat trajectories of CasADi QPs without
 intervals raised

---
 .../acados_template/acados_casadi_ocp_qp_solver.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
index 6214c02..f4ca993 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp_solver.py
@@ -346,7 +346,7 @@ class AcadosCasadiOcpQpSolver:
         if field in ['x', 'lam', 'sl', 'su']:
             return np.concatenate([self.get(i, field) for i in range(N + 1)])
         elif field in ['u', 'pi', 'z']:
-            return np.concatenate([self.get(i, field) for i in range(N)])
+            return np.concatenate([np.zeros((0,))] + [self.get(i, field) for i in range(N)])
         elif field == 'lam_x':
             return self.qp_sol_lam_w.copy()
         elif field == 'lam_g':
-- 
2.43.0


From 596d4b42ac3ddd6ba452e12f39b2e492f0c5c3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 137/166] fix: QPs dumped by C could not be read for N = 9, 99,
 ...

---
 interfaces/acados_c/ocp_nlp_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_c/ocp_nlp_interface.c b/interfaces/acados_c/ocp_nlp_interface.c
index 08b21b6..ce8f179 100644
--- a/interfaces/acados_c/ocp_nlp_interface.c
+++ b/interfaces/acados_c/ocp_nlp_interface.c
@@ -2245,7 +2245,7 @@ void ocp_nlp_dump_last_qp_to_json(ocp_nlp_config *config, ocp_nlp_dims *dims, oc
     int size1 = 0, size2 = 0;
     int is_first = 1, is_int = 0;
     int num_fields = sizeof(_qp_fields) / sizeof(_qp_fields[0]);
-    int width = snprintf(NULL, 0, "%d", dims->N);
+    int width = snprintf(NULL, 0, "%d", dims->N+1);
     char key[MAX_STR_LEN];
 
     // go through fields of last QP and write to json
-- 
2.43.0


From c4c0c76cac85d4cd492962a37685eb61c6965983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 138/166] fix: slacks of inactive soft constraints were wrong
 with DAQP if their minimizer exceeds the lower bound

---
 acados/dense_qp/dense_qp_daqp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/acados/dense_qp/dense_qp_daqp.c b/acados/dense_qp/dense_qp_daqp.c
index a9d49eb..4de5451 100644
--- a/acados/dense_qp/dense_qp_daqp.c
+++ b/acados/dense_qp/dense_qp_daqp.c
@@ -823,12 +823,13 @@ static void dense_qp_daqp_fill_output(dense_qp_daqp_memory *mem, const dense_qp_
 
         // Recover slacks from primal feasibility. This also handles soft
         // zero rows that DAQP can safely omit from its active-set system.
-        BLASFEO_DVECEL(v, nv+i) = MAX(mem->d_ls[i], mem->blower[idxdaqp] - constraint_value);
+        // Slacks of inactive constraints are at the minimizer of their penalty, which might exceed the lower bound.
+        BLASFEO_DVECEL(v, nv+i) = MAX(MAX(mem->d_ls[i], -mem->zl[i]/mem->Zl[i]), mem->blower[idxdaqp] - constraint_value);
         BLASFEO_DVECEL(lambda, 2*(nb+ng)+i) =
             mem->Zl[i] * BLASFEO_DVECEL(v, nv+i) + mem->zl[i]
             - BLASFEO_DVECEL(lambda, idxs[i]);
 
-        BLASFEO_DVECEL(v, nv+ns+i) = MAX(mem->d_us[i], constraint_value - mem->bupper[idxdaqp]);
+        BLASFEO_DVECEL(v, nv+ns+i) = MAX(MAX(mem->d_us[i], -mem->zu[i]/mem->Zu[i]), constraint_value - mem->bupper[idxdaqp]);
         BLASFEO_DVECEL(lambda, 2*(nb+ng)+ns+i) =
             mem->Zu[i] * BLASFEO_DVECEL(v, nv+ns+i) + mem->zu[i]
             - BLASFEO_DVECEL(lambda, idxs[i]+nb+ng);
-- 
2.43.0


From 70e23bc96863d6c603f436495bde254f323402a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:45 +0000
Subject: [PATCH 139/166] fix: DAQP interface ignored masks of slack bounds

---
 acados/dense_qp/dense_qp_daqp.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acados/dense_qp/dense_qp_daqp.c b/acados/dense_qp/dense_qp_daqp.c
index 4de5451..6509159 100644
--- a/acados/dense_qp/dense_qp_daqp.c
+++ b/acados/dense_qp/dense_qp_daqp.c
@@ -616,6 +616,15 @@ static int dense_qp_daqp_update_memory(dense_qp_in *qp_in, const dense_qp_daqp_o
             work->sense[nb+ng+ii] = DAQP_ACTIVE | DAQP_IMMUTABLE;
     }
 
+    // ignore slack bounds that are marked as unconstrained in qp_in via dmask
+    for (int ii = 0; ii < ns; ii++)
+    {
+        if (BLASFEO_DVECEL(qp_in->d_mask, 2*(nb+ng)+ii) == 0.0)
+            mem->d_ls[ii] = -DAQP_INF;
+        if (BLASFEO_DVECEL(qp_in->d_mask, 2*(nb+ng)+ns+ii) == 0.0)
+            mem->d_us[ii] = -DAQP_INF;
+    }
+
     // Soft constraints
     int idxdaqp;  // index of soft constraint within DAQP ordering
     for (int ii = 0; ii < ns; ii++)
-- 
2.43.0


From 01677d3fcb9db8f5ed2dd88b8cb9d281f06bf240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:04 +0000
Subject: [PATCH 140/166] fix: CasADi QPs with several constraints sharing the
 only slack of a stage could not be built

---
 .../acados_template/acados_casadi_ocp_qp.py          | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
index 238d0f5..e9f1ef8 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_qp.py
@@ -171,8 +171,8 @@ class AcadosCasadiOcpQp:
             )
             if s_idx.size > 0:
                 expr = ui[qp.idxb[i][:nbu][soft_idx]]
-                sl_k = sli[s_idx]
-                su_k = sui[s_idx]
+                sl_k = sli[s_idx, 0]
+                su_k = sui[s_idx, 0]
                 self._append_constraints(expr+sl_k, lbu_soft, np.full(lbu_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bu_soft_lower')
                 self._append_constraints(expr-su_k, np.full(ubu_soft.shape, -np.inf), ubu_soft, g_list, lbg_list, ubg_list, i, type='bu_soft_upper')
 
@@ -187,8 +187,8 @@ class AcadosCasadiOcpQp:
             )
             if s_idx.size > 0:
                 expr = xi[qp.idxb[i][nbu:][soft_idx] - nu]
-                sl_k = sli[s_idx]
-                su_k = sui[s_idx]
+                sl_k = sli[s_idx, 0]
+                su_k = sui[s_idx, 0]
                 self._append_constraints(expr+sl_k, lbx_soft, np.full(lbx_soft.shape, np.inf), g_list, lbg_list, ubg_list, i, type='bx_soft_lower')
                 self._append_constraints(expr-su_k, np.full(ubx_soft.shape, -np.inf), ubx_soft, g_list, lbg_list, ubg_list, i, type='bx_soft_upper')
 
@@ -209,8 +209,8 @@ class AcadosCasadiOcpQp:
 
                     if s_idx >= 0:
                         # soft: split into two one-sided constraints with slack
-                        sl_k = sli[s_idx]
-                        su_k = sui[s_idx]
+                        sl_k = sli[s_idx, 0]
+                        su_k = sui[s_idx, 0]
                         self._append_constraints(expr+sl_k, lb_j, np.inf, g_list, lbg_list, ubg_list, i, type='lg_soft_lower')
                         self._append_constraints(expr-su_k, -np.inf, ub_j, g_list, lbg_list, ubg_list, i, type='lg_soft_upper')
                     else:
-- 
2.43.0


From 55b1a1b15ebd14867155321723767058b808be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:09 +0000
Subject: [PATCH 141/166] fix: multipliers of violated soft constraints on
 fixed variables were put on the slack bounds with DAQP

---
 acados/dense_qp/dense_qp_daqp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/acados/dense_qp/dense_qp_daqp.c b/acados/dense_qp/dense_qp_daqp.c
index 6509159..350bf28 100644
--- a/acados/dense_qp/dense_qp_daqp.c
+++ b/acados/dense_qp/dense_qp_daqp.c
@@ -834,11 +834,16 @@ static void dense_qp_daqp_fill_output(dense_qp_daqp_memory *mem, const dense_qp_
         // zero rows that DAQP can safely omit from its active-set system.
         // Slacks of inactive constraints are at the minimizer of their penalty, which might exceed the lower bound.
         BLASFEO_DVECEL(v, nv+i) = MAX(MAX(mem->d_ls[i], -mem->zl[i]/mem->Zl[i]), mem->blower[idxdaqp] - constraint_value);
+        // Zero rows left out of the active-set system have no multiplier yet.
+        if (DAQP_IS_IMMUTABLE(idxdaqp) && mem->blower[idxdaqp] - constraint_value >= BLASFEO_DVECEL(v, nv+i))
+            BLASFEO_DVECEL(lambda, idxdaqp) = mem->Zl[i] * BLASFEO_DVECEL(v, nv+i) + mem->zl[i];
         BLASFEO_DVECEL(lambda, 2*(nb+ng)+i) =
             mem->Zl[i] * BLASFEO_DVECEL(v, nv+i) + mem->zl[i]
             - BLASFEO_DVECEL(lambda, idxs[i]);
 
         BLASFEO_DVECEL(v, nv+ns+i) = MAX(MAX(mem->d_us[i], -mem->zu[i]/mem->Zu[i]), constraint_value - mem->bupper[idxdaqp]);
+        if (DAQP_IS_IMMUTABLE(idxdaqp) && constraint_value - mem->bupper[idxdaqp] >= BLASFEO_DVECEL(v, nv+ns+i))
+            BLASFEO_DVECEL(lambda, idxdaqp+nb+ng) = mem->Zu[i] * BLASFEO_DVECEL(v, nv+ns+i) + mem->zu[i];
         BLASFEO_DVECEL(lambda, 2*(nb+ng)+ns+i) =
             mem->Zu[i] * BLASFEO_DVECEL(v, nv+ns+i) + mem->zu[i]
             - BLASFEO_DVECEL(lambda, idxs[i]+nb+ng);
-- 
2.43.0


From 6450476366f3842a71f26d382eaf355295bafe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:22 +0000
Subject: [PATCH 142/166] fix: GNSF detection failed for models without
 controls

---
 interfaces/acados_template/acados_template/gnsf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 9b1ed80..6baf2ea 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -940,7 +940,9 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
                     print(f"phi({ii}) is nonlinear in u(", str(iu), ") = ", varname)
                     print(fii)
                     print("-----------------------------------------------------")
-    f_next = gnsf["phi_expr"] - gnsf["B"] @ u
+    f_next = gnsf["phi_expr"]
+    if nu > 0:
+        f_next = f_next - gnsf["B"] @ u
     f_next = ca.simplify(f_next)
     n_nodes_next = ca.n_nodes(f_next)
 
-- 
2.43.0


From adbb8ee3bb4e44332c0e31ae5bca84b2c53b3259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:22 +0000
Subject: [PATCH 143/166] fix: GNSF detection failed for models without
 nonlinear feedback or with nonlinearities in the controls only

---
 interfaces/acados_template/acados_template/gnsf.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 6baf2ea..199a41b 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -1111,10 +1111,10 @@ def determine_input_nonlinearity_function(gnsf):
     ## generate gnsf['phi_expr_fun']
     # linear input matrices
     if is_empty(y):
-        gnsf["L_x"] = []
-        gnsf["L_xdot"] = []
-        gnsf["L_u"] = []
-        gnsf["L_z"] = []
+        gnsf["L_x"] = np.zeros((0, gnsf["nx1"]))
+        gnsf["L_xdot"] = np.zeros((0, gnsf["nx1"]))
+        gnsf["L_u"] = ca.evalf(ca.jacobian(uhat, gnsf["u"])).full().reshape(-1, gnsf["nu"])
+        gnsf["L_z"] = np.zeros((0, gnsf["nz1"]))
     else:
         dummy = ca.SX.sym("dummy_input", 0)
         L_x_fun = ca.Function(
@@ -1604,15 +1604,15 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
 
     ## rewrite I_LOS_eq as LOS
     if gnsf["n_out"] == 0:
-        C_phi = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        C_phi = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
         C_phi = C @ phi_old
     if gnsf["nx1"] == 0:
-        Ax1 = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        Ax1 = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
         Ax1 = A[:, sorted(I_x1)] @ x1
     if gnsf["nx1"] + gnsf["nz1"] == 0:
-        lhs_nsf = np.zeros(gnsf["nx"] + gnsf["nz"], 1)
+        lhs_nsf = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
         lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1, z1)
     n_LO = len(I_LOS_eq)
-- 
2.43.0


From 72ee52387f4cafd05a93266fb13d4b1ec2a57d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:22 +0000
Subject: [PATCH 144/166] fix: GNSF detection used the states instead of their
 derivatives in the linear output system

---
 interfaces/acados_template/acados_template/gnsf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 199a41b..fc29198 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -1614,7 +1614,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     if gnsf["nx1"] + gnsf["nz1"] == 0:
         lhs_nsf = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
-        lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1, z1)
+        lhs_nsf = E[:, sorted(I_nsf_components)] @ ca.vertcat(x1dot, z1)
     n_LO = len(I_LOS_eq)
     B_LO = np.zeros((n_LO, gnsf["nu"]))
     A_LO = np.zeros((gnsf["nx2"] + gnsf["nz2"], gnsf["nx2"]))
-- 
2.43.0


From d96e611f734c08f97e710e83568ba7bca85fc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:23 +0000
Subject: [PATCH 145/166] fix: GNSF detection failed for algebraic variables in
 the nonlinearity

---
 interfaces/acados_template/acados_template/gnsf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index fc29198..7dd8ebe 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -637,7 +637,7 @@ def check_reformulation(model, gnsf, print_info):
     impl_dae_fun = ca.Function("impl_dae_fun", [x, xdot, u, z, p], [model.f_impl_expr])
     phi_fun = ca.Function("phi_fun", [y, uhat, p], [gnsf["phi_expr"]])
     f_lo_fun = ca.Function(
-        "f_lo_fun", [x[range(nx1)], xdot[range(nx1)], z, u, p], [gnsf["f_lo_expr"]]
+        "f_lo_fun", [x[range(nx1)], xdot[range(nx1)], z[range(nz1)], u, p], [gnsf["f_lo_expr"]]
     )
 
     for i_check in range(num_eval):
@@ -1577,7 +1577,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     if is_empty(I_z1):
         z1 = []
     else:
-        z1 = z(I_z1)
+        z1 = z[list(I_z1)]
     if is_empty(I_z2):
         z2 = []
     else:
-- 
2.43.0


From 2461c222ca51daae9f7648f6e316ff7cce52f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 146/166] fix: GNSF detection failed for implicitly coupled
 equations

---
 .../acados_template/acados_template/gnsf.py   | 157 ++++++------------
 1 file changed, 55 insertions(+), 102 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 7dd8ebe..d905b41 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -1296,51 +1296,19 @@ def reformulate_with_invertible_E_mat(gnsf, model, print_info):
                 ind = range(gnsf["nx1"])
             else:
                 ind = range(gnsf["nx1"], gnsf["nx1"] + gnsf["nz1"])
-            mat = gnsf["E"][np.ix_(ind, ind)]
-            breakpoint()
-
-            while np.linalg.matrix_rank(mat) < len(ind):
-                # import pdb; pdb.set_trace()
-                if print_info:
-                    print(" ")
-                    print(f"the rank of E", str(i), str(i), " is not full")
-                    print(
-                        f"the algorithm will try to reformulate the model with an invertible matrix instead"
-                    )
-                    print(
-                        f"NOTE: this feature is not super stable and might need more testing!!!!!!"
-                    )
-                for sub_max in ind:
-                    sub_ind = range(min(ind), sub_max)
-                    # regard the submatrix mat(sub_ind, sub_ind)
-                    sub_mat = gnsf["E"][sub_ind, sub_ind]
-                    if np.linalg.matrix_rank(sub_mat) < len(sub_ind):
-                        # reformulate the model by adding a 1 to last diagonal
-                        # element and changing rhs respectively.
-                        gnsf["E"][sub_max, sub_max] = gnsf["E"][sub_max, sub_max] + 1
-                        # this means adding the term 1 * k(sub_max) to the sub_max
-                        # row of the l.h.s
-                        if len(np.nonzero(gnsf["C"][sub_max, :])[0]) == 0:
-                            # if isempty(find(gnsf['C'](sub_max,:), 1)):
-                            # add new nonlinearity entry
-                            gnsf["C"][sub_max, gnsf["n_out"] + 1] = 1
-                            gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], k[sub_max])
-                        else:
-                            ind_f = np.nonzero(gnsf["C"][sub_max, :])[0]
-                            if len(ind_f) != 1:
-                                raise ValueError("C is assumed to be a selection matrix")
-                            else:
-                                ind_f = ind_f[0]
-                            # add term to corresponding nonlinearity entry
-                            # note: herbey we assume that C is a selection matrix,
-                            # i.e. gnsf['phi_expr'](ind_f) is only entering one equation
-
-                            gnsf["phi_expr"][ind_f] = (
-                                gnsf["phi_expr"][ind_f]
-                                + k[sub_max] / gnsf["C"][sub_max, ind_f]
-                            )
-                            gnsf = determine_input_nonlinearity_function(gnsf)
-                            check_reformulation(model, gnsf, print_info)
+            for sub_max in ind:
+                # make all leading submatrices invertible
+                sub_ind = range(min(ind), sub_max + 1)
+                sub_mat = gnsf["E"][np.ix_(sub_ind, sub_ind)]
+                if np.linalg.matrix_rank(sub_mat) < len(sub_ind):
+                    if print_info:
+                        print(" ")
+                        print(f"the rank of E{i}{i} is not full")
+                        print("the algorithm will try to reformulate the model with an invertible matrix instead")
+                    # add the term 1 * k(sub_max) to both sides of the sub_max row
+                    _add_to_both_sides(gnsf, sub_max, sub_max, k[sub_max])
+                    gnsf = determine_input_nonlinearity_function(gnsf)
+                    check_reformulation(model, gnsf, print_info)
         print("successfully reformulated the model with invertible matrices E11, E22")
     else:
         if print_info:
@@ -1369,6 +1337,33 @@ def reformulate_with_invertible_E_mat(gnsf, model, print_info):
 
 
 
+def _least_dependent_equation(I_eq, A, E, I_LOS_candidates):
+    # equation with the least linear dependencies on the candidates for the linear output system
+    nx = A.shape[1]
+    def number_of_dependencies(eq):
+        return len([i for i in I_LOS_candidates if E[eq, i] != 0 or (i < nx and A[eq, i] != 0)])
+    return min(sorted(I_eq), key=number_of_dependencies)
+
+
+def _add_to_both_sides(gnsf, i_eq, i_var, var):
+    # add 1 * var, the variable of column i_var of E, to both sides of equation i_eq of the NSF system
+    gnsf["E"][i_eq, i_var] += 1
+    i_phi = np.nonzero(gnsf["C"][i_eq, :])[0]
+    if len(i_phi) == 0:
+        # add new nonlinearity entry
+        new_column = np.zeros((gnsf["C"].shape[0], 1))
+        new_column[i_eq] = 1
+        gnsf["C"] = np.hstack((gnsf["C"], new_column))
+        gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], var)
+    elif len(i_phi) == 1:
+        # NOTE: C is assumed to be a selection matrix, i.e. phi_expr[i_phi] only enters one equation
+        i_phi = int(i_phi[0])
+        gnsf["phi_expr"][i_phi] += var / gnsf["C"][i_eq, i_phi]
+    else:
+        raise ValueError("C is assumed to be a selection matrix")
+    gnsf["n_out"] = casadi_length(gnsf["phi_expr"])
+
+
 def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
 
     ## Description:
@@ -1454,7 +1449,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
         ## find equations corresponding to new_nsf_components
         for ii in new_nsf_components:
             current_var = xdot_z[ii]
-            var_name = current_var.name
+            var_name = current_var.name()
 
             # print( unsorted_dyn)
             # print("np.nonzero(E[:,ii])[0]",np.nonzero(E[:,ii])[0])
@@ -1466,51 +1461,20 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
             elif len(I_eq) > 1:  # x_ii_dot occurs in more than 1 eq linearly
                 # find the equation with least linear dependencies on
                 # I_LOS_cancidates
-                number_of_eq = 0
-                candidate_dependencies = np.zeros(len(I_eq), 1)
-                I_x2_candidates = set.intersection(I_LOS_candidates, set(range(nx)))
-                for eq in I_eq:
-                    depending_candidates = set.union(
-                        np.nonzero(E[eq, I_LOS_candidates])[0],
-                        np.nonzero(A[eq, I_x2_candidates])[0],
-                    )
-                    candidate_dependencies[number_of_eq] = +len(depending_candidates)
-                    number_of_eq += 1
-                    number_of_eq = np.argmin(candidate_dependencies)
-                i_eq = I_eq[number_of_eq]
+                i_eq = _least_dependent_equation(I_eq, A, E, I_LOS_candidates)
             else:  ## x_ii_dot does not occur linearly in any of the unsorted dynamics
                 for j in unsorted_dyn:
-                    phi_eq_j = gnsf["phi_expr"][np.nonzero(C[j, :])[0]]
-                    if ca.which_depends(phi_eq_j, xdot_z(ii))[0]:
-                        I_eq = set.union(I_eq, j)
+                    phi_eq_j = gnsf["phi_expr"][np.nonzero(gnsf["C"][j, :])[0].tolist()]
+                    if ca.depends_on(phi_eq_j, xdot_z[ii]):
+                        I_eq = set.union(I_eq, {j})
                 if is_empty(I_eq):
                     I_eq = unsorted_dyn
                 # find the equation with least linear dependencies on I_LOS_cancidates
-                number_of_eq = 0
-                candidate_dependencies = np.zeros(len(I_eq), 1)
-                I_x2_candidates = set.intersection(I_LOS_candidates, set(range(nx)))
-                for eq in I_eq:
-                    depending_candidates = set.union(
-                        np.nonzero(E[eq, I_LOS_candidates])[0],
-                        np.nonzero(A[eq, I_x2_candidates])[0],
-                    )
-                    candidate_dependencies[number_of_eq] = +len(depending_candidates)
-                    number_of_eq += 1
-                    number_of_eq = np.argmin(candidate_dependencies)
-                i_eq = I_eq[number_of_eq]
+                i_eq = _least_dependent_equation(I_eq, A, E, I_LOS_candidates)
                 ## add 1 * [xdot,z](ii) to both sides of i_eq
                 if print_info:
                     print(f"adding 1 * {var_name} to both sides of equation {i_eq}.")
-                gnsf["E"][i_eq, ii] = 1
-                i_phi = np.nonzero(gnsf["C"][i_eq, :])
-                if is_empty(i_phi):
-                    i_phi = len(gnsf["phi_expr"]) + 1
-                    gnsf["C"][i_eq, i_phi] = 1  # add column to C with 1 entry
-                    gnsf["phi_expr"] = ca.vertcat(gnsf["phi_expr"], 0)
-                    gnsf["phi_expr"][i_phi] = (
-                        gnsf["phi_expr"](i_phi)
-                        + gnsf["E"][i_eq, ii] / gnsf["C"][i_eq, i_phi] * xdot_z[ii]
-                    )
+                _add_to_both_sides(gnsf, i_eq, ii, xdot_z[ii])
                 if print_info:
                     print(f"detected equation {i_eq} to correspond to variable {var_name}")
             I_nsf_eq = set.union(I_nsf_eq, {i_eq})
@@ -1533,22 +1497,11 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
             break
         # remove new_nsf_components from candidates
         I_LOS_candidates = set.difference(I_LOS_candidates, new_nsf_components)
-    if not is_empty(Eq_map):
-        # [~, new_eq_order] = sort(Eq_map(1,:))
-        # I_nsf_eq = Eq_map(2, new_eq_order )
-        for count, m in enumerate(Eq_map):
-            m.append(count)
-        sorted(Eq_map, key=lambda x: x[1])
-        new_eq_order = [m[2] for m in Eq_map]
-        Eq_map = [Eq_map[i] for i in new_eq_order]
-        I_nsf_eq = [m[1] for m in Eq_map]
-
-    else:
-        I_nsf_eq = []
+    # order the equations as the corresponding components
+    I_nsf_eq = [i_eq for _, i_eq in sorted(Eq_map)]
 
     I_LOS_components = I_LOS_candidates
     I_LOS_eq = sorted(set.difference(set(range(nx + nz)), I_nsf_eq))
-    I_nsf_eq = sorted(I_nsf_eq)
 
     I_x1 = set.intersection(I_nsf_components, set(range(nx)))
     I_z1 = set.intersection(I_nsf_components, set(range(nx, nx + nz)))
@@ -1606,7 +1559,7 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     if gnsf["n_out"] == 0:
         C_phi = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
-        C_phi = C @ phi_old
+        C_phi = gnsf["C"] @ gnsf["phi_expr"]
     if gnsf["nx1"] == 0:
         Ax1 = np.zeros((gnsf["nx"] + gnsf["nz"], 1))
     else:
@@ -1640,11 +1593,11 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
     gnsf["f_lo_expr"] = f_LO
 
     ## remove I_LOS_eq from NSF type system
-    gnsf["A"] = gnsf["A"][np.ix_(sorted(I_nsf_eq), sorted(I_x1))]
-    gnsf["B"] = gnsf["B"][sorted(I_nsf_eq), :]
-    gnsf["C"] = gnsf["C"][sorted(I_nsf_eq), :]
-    gnsf["E"] = gnsf["E"][np.ix_(sorted(I_nsf_eq), sorted(I_nsf_components))]
-    gnsf["c"] = gnsf["c"][sorted(I_nsf_eq), :]
+    gnsf["A"] = gnsf["A"][np.ix_(I_nsf_eq, sorted(I_x1))]
+    gnsf["B"] = gnsf["B"][I_nsf_eq, :]
+    gnsf["C"] = gnsf["C"][I_nsf_eq, :]
+    gnsf["E"] = gnsf["E"][np.ix_(I_nsf_eq, sorted(I_nsf_components))]
+    gnsf["c"] = gnsf["c"][I_nsf_eq, :]
 
     ## reduce phi, C
     I_nonzero = []
-- 
2.43.0


From 5077cdc6dbaee24264249a0329e1ed5aa230c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 147/166] fix: GNSF detection ended in the debugger instead of
 raising exceptions and accepted global parameters

---
 .../acados_template/acados_template/gnsf.py    | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index d905b41..04b1fc3 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -668,13 +668,10 @@ def check_reformulation(model, gnsf, print_info):
             C_phi = C @ phi_val
         else:
             C_phi = np.zeros((nx1 + nz1, 1))
-        try:
-            gnsf_val1 = (
-                A @ x0[I_x1] + B @ u0 + C_phi + c - E @ ca.vertcat(x0dot[I_x1], z0[I_z1])
-            )
-            # gnsf_1 = (A @ x[I_x1] + B @ u + C_phi + c - E @ ca.vertcat(xdot[I_x1], z[I_z1]))
-        except:
-            breakpoint()
+        gnsf_val1 = (
+            A @ x0[I_x1] + B @ u0 + C_phi + c - E @ ca.vertcat(x0dot[I_x1], z0[I_z1])
+        )
+        # gnsf_1 = (A @ x[I_x1] + B @ u + C_phi + c - E @ ca.vertcat(xdot[I_x1], z[I_z1]))
 
         if nx2 > 0:  # eval LOS:
             gnsf_val2 = (
@@ -698,7 +695,7 @@ def check_reformulation(model, gnsf, print_info):
             print("abs_error:", abs_error)
             #         error('transcription failed rel_error > TOL')
             #         check = 0
-            breakpoint()
+            raise RuntimeError("GNSF structure detection failed: detected model is not equivalent.")
 
     if print_info:
         print(" ")
@@ -783,7 +780,7 @@ def detect_gnsf_structure(model: AcadosModel, dims: Union[AcadosSimDims, AcadosO
     # acados_root_dir = getenv('ACADOS_INSTALL_DIR')
 
     if not is_empty(model.p_global) and ca.depends_on(model.f_impl_expr, model.p_global):
-        NotImplementedError("GNSF does not support global parameters")
+        raise NotImplementedError("GNSF does not support global parameters")
 
     ## Reformulate implicit index-1 DAE into GNSF form
     # (Generalized nonlinear static feedback)
@@ -1168,8 +1165,7 @@ def determine_trivial_gnsf_transcription(model: AcadosModel, dims: Union[AcadosS
     if isinstance(x[0], ca.SX):
         isSX = True
     else:
-        print("GNSF detection only works for SX CasADi type!!!")
-        breakpoint()
+        raise NotImplementedError("GNSF detection only works for SX CasADi type.")
     # xdot
     xdot = model.xdot
     # u
-- 
2.43.0


From 7ed94bbd04bac0094c1cf7140564bb89cc48b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:30 +0000
Subject: [PATCH 148/166] fix: GNSF detection failed for linear models and
 linear output systems of algebraic variables only

---
 .../acados_template/acados_template/gnsf.py       | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 04b1fc3..ae0a792 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -673,7 +673,7 @@ def check_reformulation(model, gnsf, print_info):
         )
         # gnsf_1 = (A @ x[I_x1] + B @ u + C_phi + c - E @ ca.vertcat(xdot[I_x1], z[I_z1]))
 
-        if nx2 > 0:  # eval LOS:
+        if nx2 + nz - nz1 > 0:  # eval LOS:
             gnsf_val2 = (
                 A_LO @ x0[I_x2]
                 + B_LO @ u0
@@ -1110,7 +1110,7 @@ def determine_input_nonlinearity_function(gnsf):
     if is_empty(y):
         gnsf["L_x"] = np.zeros((0, gnsf["nx1"]))
         gnsf["L_xdot"] = np.zeros((0, gnsf["nx1"]))
-        gnsf["L_u"] = ca.evalf(ca.jacobian(uhat, gnsf["u"])).full().reshape(-1, gnsf["nu"])
+        gnsf["L_u"] = ca.evalf(ca.jacobian(uhat, gnsf["u"])).full() if gnsf["nu"] > 0 else np.zeros((0, 0))
         gnsf["L_z"] = np.zeros((0, gnsf["nz1"]))
     else:
         dummy = ca.SX.sym("dummy_input", 0)
@@ -1267,10 +1267,13 @@ def reformulate_with_invertible_E_mat(gnsf, model, print_info):
             np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_22, ind_22)]) != gnsf["nz1"]
         )
 
-    if (
-        np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_11, ind_11)]) != gnsf["nx1"]
-        or z_check
-    ):
+    x_check = False
+    if gnsf["nx1"] > 0:
+        x_check = (
+            np.linalg.matrix_rank(gnsf["E"][np.ix_(ind_11, ind_11)]) != gnsf["nx1"]
+        )
+
+    if x_check or z_check:
         # print warning (always)
         print(f"the rank of E11 or E22 is not full after the reformulation")
         print("")
-- 
2.43.0


From 37636c2059e8ae325184d9b6711ce66e77684f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 149/166] fix: GNSF integrator without nonlinear feedback
 overwrote its workspace

---
 interfaces/acados_template/acados_template/gnsf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index ae0a792..f707cec 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -1023,7 +1023,8 @@ def detect_affine_terms_reduce_nonlinearity(gnsf, model: AcadosModel, print_info
         fii = ca.simplify(fii)
         if not fii.is_zero():
             ind_non_zero = list(set.union(set(ind_non_zero), set([ii])))
-    gnsf["phi_expr"] = gnsf["phi_expr"][ind_non_zero]
+    # NOTE: an empty index list yields a 1x0 expression
+    gnsf["phi_expr"] = ca.reshape(gnsf["phi_expr"][ind_non_zero], len(ind_non_zero), 1)
 
     # C
     gnsf["C"] = np.zeros((nx + nz, len(ind_non_zero)))
@@ -1605,7 +1606,8 @@ def reformulate_with_LOS(model: AcadosModel, gnsf, print_info):
         if not all(gnsf["C"][:, ii] == 0):  # if column ~= 0
             I_nonzero.append(ii)
     gnsf["C"] = gnsf["C"][:, I_nonzero]
-    gnsf["phi_expr"] = gnsf["phi_expr"][I_nonzero]
+    # NOTE: an empty index list yields a 1x0 expression
+    gnsf["phi_expr"] = ca.reshape(gnsf["phi_expr"][I_nonzero], len(I_nonzero), 1)
 
     gnsf = determine_input_nonlinearity_function(gnsf)
 
-- 
2.43.0


From 179e8e763da084f441a150557de6b7a7fc69e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 150/166] fix: GNSF structure detection without linear output
 system raised

---
 interfaces/acados_template/acados_template/gnsf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index f707cec..83c70d6 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -1215,11 +1215,11 @@ def determine_trivial_gnsf_transcription(model: AcadosModel, dims: Union[AcadosS
 
     gnsf = determine_input_nonlinearity_function(gnsf)
 
-    gnsf["A_LO"] = []
-    gnsf["E_LO"] = []
-    gnsf["B_LO"] = []
-    gnsf["c_LO"] = []
-    gnsf["f_lo_expr"] = []
+    gnsf["A_LO"] = np.zeros((0, 0))
+    gnsf["E_LO"] = np.zeros((0, 0))
+    gnsf["B_LO"] = np.zeros((0, nu))
+    gnsf["c_LO"] = np.zeros((0, 1))
+    gnsf["f_lo_expr"] = ca.SX.zeros(0, 1)
 
     # permutation
     gnsf["idx_perm_x"] = range(nx)
-- 
2.43.0


From 1f46eba65b402d4a8115f978f09f064e8db0fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 151/166] fix: GNSF integrator ignored constant terms of fully
 linear models and reused sensitivities that were not computed

---
 acados/sim/sim_gnsf.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index fbfcf33..fdeac00 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -1160,6 +1160,14 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
 
     // generate sensitivities
     mem->first_call = true;
+    // reusing the precomputed sensitivities is only possible if they are available and without constant terms
+    if (!opts->sens_forw || (nz > 0 && !opts->sens_algebraic))
+        model->fully_linear = false;
+    for (int ii = 0; ii < nx2 + nz2; ii++)
+    {
+        if (model->c_LO[ii] != 0.0)
+            model->fully_linear = false;
+    }
     if (model->fully_linear)
     {
         // set identity seed
-- 
2.43.0


From cec6365d7b04cd1ecbc54d13b9cba4b70d8833ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:30 +0000
Subject: [PATCH 152/166] fix: forward sensitivities of fully linear GNSF
 models were wrong for other seeds than the identity

---
 acados/sim/sim_gnsf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index fdeac00..e4ea4c4 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -2371,7 +2371,7 @@ int sim_gnsf(void *config, sim_in *in, sim_out *out, void *args, void *mem_, voi
             blasfeo_dgemm_nn(nx, nx, nx, 1.0, S_forw, 0, 0, dxf_dwn, 0, 0, 0.0, S_forw_new, 0, 0,
                                     S_forw_new, 0, 0);
             // S_forw_new_u = S_forw_x * S_forw_new_u + dxf_du
-            blasfeo_dgemm_nn(nx, nu, nx, 1.0, S_forw, 0, 0, dxf_dwn, 0, nx, 1.0, S_forw_new, 0, nx,
+            blasfeo_dgemm_nn(nx, nu, nx, 1.0, S_forw, 0, 0, dxf_dwn, 0, nx, 1.0, S_forw, 0, nx,
                                 S_forw_new, 0, nx);
         }
         else
-- 
2.43.0


From 7ff14badc228c34c6cfe55b8828cad1334180d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:05 +0000
Subject: [PATCH 153/166] fix: GNSF functions of the linear output system had
 misshaped arguments without nonlinear states

---
 interfaces/acados_template/acados_template/gnsf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/gnsf.py b/interfaces/acados_template/acados_template/gnsf.py
index 83c70d6..c434504 100644
--- a/interfaces/acados_template/acados_template/gnsf.py
+++ b/interfaces/acados_template/acados_template/gnsf.py
@@ -398,8 +398,13 @@ class GnsfModel():
         if is_empty(self.z):
             self.__z = casadi_symbol("z", 0, 0)
 
-        self.__x1 = self.x[self.idx_perm_x[:self.dims.nx1]]
-        self.__x1dot = self.xdot[self.idx_perm_x[:self.dims.nx1]]
+        if self.dims.nx1 > 0:
+            self.__x1 = self.x[self.idx_perm_x[:self.dims.nx1]]
+            self.__x1dot = self.xdot[self.idx_perm_x[:self.dims.nx1]]
+        else:
+            # indexing with an empty list results in row vectors
+            self.__x1 = casadi_symbol("x1", 0, 0)
+            self.__x1dot = casadi_symbol("x1dot", 0, 0)
         if self.dims.nz1 > 0:
             self.__z1 = self.z[self.idx_perm_z[:self.dims.nz1]]
         else:
-- 
2.43.0


From 3b56fec216c10199ed28b80d6a820cf174e3ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:52 +0000
Subject: [PATCH 154/166] fix: GNSF integrator permuted the wrong matrix for
 coupled algebraic variables

---
 acados/sim/sim_gnsf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acados/sim/sim_gnsf.c b/acados/sim/sim_gnsf.c
index e4ea4c4..c17f331 100644
--- a/acados/sim/sim_gnsf.c
+++ b/acados/sim/sim_gnsf.c
@@ -950,7 +950,7 @@ int sim_gnsf_precompute(void *config_, sim_in *in, sim_out *out, void *opts_, vo
     blasfeo_dgead(nZ1, nx1, 1.0, &AA2, 0, 0, ZZx, 0, 0);  // ZZx = ZZx + AA2;
 
     // solve QQ1\ZZx and store result in ZZx;
-    blasfeo_drowpe(nZ1, ipivQQ1, ZZu);  // permute also rhs
+    blasfeo_drowpe(nZ1, ipivQQ1, ZZx);  // permute also rhs
     blasfeo_dtrsm_llnu(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0, 0);
     blasfeo_dtrsm_lunn(nZ1, nx1, 1.0, &QQ1, 0, 0, ZZx, 0, 0, ZZx, 0,
                        0);  // ZZx now contains QQ1\ZZx
-- 
2.43.0


From c7c9b19f46fcc8157d5f5252562001cf9716e714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 155/166] fix: AcadosCasadiOcpSolver.cost_get raised for all
 fields

---
 .../acados_template/acados_casadi_ocp_solver.py    | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 8973524..57d36e6 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -456,19 +456,11 @@ class AcadosCasadiOcpSolver:
         self.p[index] = param_values_.flatten()
 
     def cost_get(self, stage_: int, field_: str) -> np.ndarray:
-        cost_dict = self.acados_casadi_ocp._get_cost_node(stage_)
         if field_ == 'yref':
             return self.p[self.index_map['yref_in_p_nlp'][stage_]].flatten()
-        elif field_ == 'W':
-            return cost_dict['W_mat']
-        elif field_ == 'Zl':
-            return cost_dict['Zl']
-        elif field_ == 'Zu':
-            return cost_dict['Zu']
-        elif field_ == 'zl':
-            return cost_dict['zl']
-        elif field_ == 'zu':
-            return cost_dict['zu']
+        elif field_ in ['W', 'Zl', 'Zu', 'zl', 'zu']:
+            suffix = '_0' if stage_ == 0 else '_e' if stage_ == self.ocp.dims.N else ''
+            return getattr(self.ocp.cost, field_ + suffix)
         else:
             raise NotImplementedError(f"Field '{field_}' is not yet implemented in cost_get().")
 
-- 
2.43.0


From d9911a7298bf556f27a9695a097213004f11c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 156/166] fix: AcadosCasadiOcpSolver.set_flat ignored the
 multipliers of slack bounds

---
 .../acados_template/acados_casadi_ocp_solver.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 57d36e6..de90304 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -280,11 +280,11 @@ class AcadosCasadiOcpSolver:
             offset = 0
             for i in range(dims.N+1):
                 if i == 0:
-                    n_lam_i = 2 * (dims.nbx_0 + dims.nbu + dims.ng + dims.nh_0 + dims.nphi_0)
+                    n_lam_i = 2 * (dims.nbx_0 + dims.nbu + dims.ng + dims.nh_0 + dims.nphi_0 + dims.ns_0)
                 elif i < dims.N:
-                    n_lam_i = 2 * (dims.nbx + dims.nbu + dims.ng + dims.nh + dims.nphi)
+                    n_lam_i = 2 * (dims.nbx + dims.nbu + dims.ng + dims.nh + dims.nphi + dims.ns)
                 elif i == dims.N:
-                    n_lam_i = 2 * (dims.nbx_e + dims.ng_e + dims.nh_e + dims.nphi_e)
+                    n_lam_i = 2 * (dims.nbx_e + dims.ng_e + dims.nh_e + dims.nphi_e + dims.ns_e)
                 self.set(i, 'lam', value_[offset : offset + n_lam_i])
                 offset += n_lam_i
         elif field_ in ['sl', 'su']:
-- 
2.43.0


From 1f8d1b80d0ac658df1193ced85fe81fec2d37b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 157/166] fix: AcadosCasadiOcpSolver ignored the bounds on
 slacks

---
 .../acados_template/acados_casadi_ocp.py               | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index c903159..ea04449 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -491,6 +491,8 @@ class AcadosCasadiOcp:
             ubx = constraints.ubx_0
             lbu = constraints.lbu
             ubu = constraints.ubu
+            lsh = constraints.lsh_0
+            ush = constraints.ush_0
             ns = dims.ns_0
         elif i < dims.N:
             idxbx = constraints.idxbx
@@ -499,11 +501,15 @@ class AcadosCasadiOcp:
             ubx = constraints.ubx
             lbu = constraints.lbu
             ubu = constraints.ubu
+            lsh = constraints.lsh
+            ush = constraints.ush
             ns = dims.ns
         elif i == dims.N:
             idxbx = constraints.idxbx_e
             lbx = constraints.lbx_e
             ubx = constraints.ubx_e
+            lsh = constraints.lsh_e
+            ush = constraints.ush_e
             ns = dims.ns_e
 
         if _field == 'x':
@@ -521,12 +527,12 @@ class AcadosCasadiOcp:
             self._index_map['lam_bu_in_lam_w'].append(list(self.offset_lam + idxbu))
             self.offset_lam += dims.nu
         elif _field == 'sl':
-            lb_default = 0 * ca.DM.ones((ns, 1))
+            lb_default = ca.DM(lsh) if ns > 0 else ca.DM.zeros((0, 1))
             ub_default = np.inf * ca.DM.ones((ns, 1))
             self._index_map['lam_sl_h_in_lam_w'].append(list(self.offset_lam + np.arange(ns)))
             self.offset_lam += ns
         elif _field == 'su':
-            lb_default = 0 * ca.DM.ones((ns, 1))
+            lb_default = ca.DM(ush) if ns > 0 else ca.DM.zeros((0, 1))
             ub_default = np.inf * ca.DM.ones((ns, 1))
             self._index_map['lam_su_h_in_lam_w'].append(list(self.offset_lam + np.arange(ns)))
             self.offset_lam += ns
-- 
2.43.0


From e8c7ae4fceb5f3a2d64212f9a1b56efdd461c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:14 +0000
Subject: [PATCH 158/166] fix: AcadosCasadiOcp silently dropped softened
 convex-over-nonlinear constraints of the first stage and general slack maps

---
 .../acados_template/acados_template/acados_casadi_ocp.py      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index ea04449..a2ee7d9 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -107,8 +107,10 @@ class AcadosCasadiOcp:
         # check what is not supported yet
         if any([dims.nsbx, dims.nsbx_e, dims.nsbu]):
             raise NotImplementedError("AcadosCasadiOcpSolver does not support slack variables (s) for variables (x and u) yet.")
-        if any([dims.nsg, dims.nsg_e, dims.nsphi, dims.nsphi_e]):
+        if any([dims.nsg, dims.nsg_e, dims.nsphi_0, dims.nsphi, dims.nsphi_e]):
             raise NotImplementedError("AcadosCasadiOcpSolver does not support slack variables (s)  for general linear and convex-over-nonlinear constraints (g, phi).")
+        if dims.ns_0 != dims.nsh_0 or dims.ns != dims.nsh or dims.ns_e != dims.nsh_e:
+            raise NotImplementedError("AcadosCasadiOcpSolver does not support general slack maps (idxs_rev).")
         if dims.nz > 0:
             raise NotImplementedError("AcadosCasadiOcpSolver does not support algebraic variables (z) yet.")
         if with_casados:
-- 
2.43.0


From 4da2d4c6653c6ad09804b5453c6a4f70c5ee6857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:01 +0000
Subject: [PATCH 159/166] fix: AcadosCasadiOcpSolver lost bounds of softened
 nonlinear constraints in the setters and getters

---
 .../acados_template/acados_casadi_ocp.py               | 10 ++++++++++
 .../acados_template/acados_casadi_ocp_solver.py        |  8 ++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index a2ee7d9..89abbd6 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -85,6 +85,9 @@ class AcadosCasadiOcp:
             'lam_g_in_lam_g': [[] for _ in range(ocp.solver_options.N_horizon+1)],
             'lam_h_in_lam_g': [[] for _ in range(ocp.solver_options.N_horizon+1)],
             'lam_phi_in_lam_g': [[] for _ in range(ocp.solver_options.N_horizon+1)],
+            # indices of the bounds of all (hard and soft) h constraints within lbg and ubg in casadi formulation
+            'lh_in_lbg': [[] for _ in range(ocp.solver_options.N_horizon+1)],
+            'uh_in_ubg': [[] for _ in range(ocp.solver_options.N_horizon+1)],
             # backward-compatible combined indices for [g, h, phi]
             'lam_gnl_in_lam_g': [[] for _ in range(ocp.solver_options.N_horizon+1)],
             # indices of dual variable for soften constraints within lam_g in casadi formulation
@@ -553,6 +556,11 @@ class AcadosCasadiOcp:
         elif _field == 'gnl':
             if gnl_type not in ['g', 'h', 'phi']:
                 raise ValueError(f"Invalid gnl_type: {gnl_type}. Expected 'g', 'h', or 'phi'.")
+            if gnl_type == 'h':
+                if not su:
+                    self._index_map['lh_in_lbg'][i].extend(range(self.offset_gnl, self.offset_gnl + cons_dim))
+                if not sl:
+                    self._index_map['uh_in_ubg'][i].extend(range(self.offset_gnl, self.offset_gnl + cons_dim))
             if not sl and not su:
                 target_key = f"lam_{gnl_type}_in_lam_g"
                 self._index_map[target_key][i].extend(list(range(self.offset_gnl, self.offset_gnl + cons_dim)))
@@ -769,6 +777,8 @@ class AcadosCasadiOcp:
         - 'pi_in_lam_g': indices of dynamic constraints within g in casadi formulation
         - 'lam_g_in_lam_g': indices to linear g constraints within lam_g in casadi formulation
         - 'lam_h_in_lam_g': indices to nonlinear h constraints within lam_g in casadi formulation
+        - 'lh_in_lbg': indices of the lower bounds of all h constraints within lbg in casadi formulation
+        - 'uh_in_ubg': indices of the upper bounds of all h constraints within ubg in casadi formulation
         - 'lam_phi_in_lam_g': indices to conl phi constraints within lam_g in casadi formulation
         - 'lam_gnl_in_lam_g': combined indices for [g, h, phi] within lam_g in casadi formulation
         - 'lam_gnl_sl_in_lam_g': indices to softened lower bounds of [g, h, phi] constraints within lam_g in casadi formulation
diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index de90304..419d9fe 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -484,9 +484,9 @@ class AcadosCasadiOcpSolver:
         elif field_ == 'ug':
             return self.bounds['ubg'][self.index_map['lam_g_in_lam_g'][stage_]]
         elif field_ == 'lh':
-            return self.bounds['lbg'][self.index_map['lam_h_in_lam_g'][stage_]]
+            return self.bounds['lbg'][self.index_map['lh_in_lbg'][stage_]]
         elif field_ == 'uh':
-            return self.bounds['ubg'][self.index_map['lam_h_in_lam_g'][stage_]]
+            return self.bounds['ubg'][self.index_map['uh_in_ubg'][stage_]]
         elif field_ == 'lphi':
             return self.bounds['lbg'][self.index_map['lam_phi_in_lam_g'][stage_]]
         elif field_ == 'uphi':
@@ -508,9 +508,9 @@ class AcadosCasadiOcpSolver:
         elif field == 'ug':
             self.bounds['ubg'][self.index_map['lam_g_in_lam_g'][stage]] = value_.flatten()
         elif field == 'lh':
-            self.bounds['lbg'][self.index_map['lam_h_in_lam_g'][stage]] = value_.flatten()
+            self.bounds['lbg'][self.index_map['lh_in_lbg'][stage]] = value_.flatten()
         elif field == 'uh':
-            self.bounds['ubg'][self.index_map['lam_h_in_lam_g'][stage]] = value_.flatten()
+            self.bounds['ubg'][self.index_map['uh_in_ubg'][stage]] = value_.flatten()
         elif field == 'lphi':
             self.bounds['lbg'][self.index_map['lam_phi_in_lam_g'][stage]] = value_.flatten()
         elif field == 'uphi':
-- 
2.43.0


From a5ba0dc034ef474814f70d3e934726b0f332c9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 160/166] fix: custom Hessian of AcadosCasadiOcp failed with
 linear, softened or convex-over-nonlinear constraints

---
 .../acados_template/acados_casadi_ocp.py      | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 89abbd6..5d0ff69 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -270,6 +270,8 @@ class AcadosCasadiOcp:
                                          ubg_expr = constraint_dict['ug'],
                                          cons_dim=constraint_dict['ng'],
                                          gnl_type='g')
+                if with_hessian:
+                    lam_g.append(ca_symbol(f'lam_g_{i}', constraint_dict['ng'], 1))
 
             # add nonlinear constraints using constraint_dict directly (no locals)
             if constraint_dict['nh'] > 0:
@@ -311,8 +313,11 @@ class AcadosCasadiOcp:
                                              gnl_type='h')
                 if with_hessian:
                     # add hessian contribution
-                    lam_h = ca_symbol(f'lam_h_{i}', constraint_dict['nh'], 1)
-                    lam_g.append(lam_h)
+                    # softened constraints have separate multipliers for lower and upper bounds
+                    soft = constraint_dict['idxsh'] if constraint_dict['nsh'] > 0 else []
+                    lam_h_list = [ca_symbol(f'lam_h_{i}_{j}', 2 if j in soft else 1, 1) for j in range(constraint_dict['nh'])]
+                    lam_g.extend(lam_h_list)
+                    lam_h = ca.vertcat(*[ca.sum1(lam_h_j) for lam_h_j in lam_h_list])
                     if ocp.solver_options.hessian_approx == 'EXACT' and ocp.solver_options.exact_hess_constr:
                         adj = ca.jtimes(constraint_dict['h_i_nlp_expr'], w, lam_h, True)
                         hess_l += ca.jacobian(adj, w, {"symmetric": is_casadi_SX(model.x)})
@@ -335,11 +340,13 @@ class AcadosCasadiOcp:
                     lam_phi = ca_symbol(f'lam_phi_{i}', constraint_dict['nphi'], 1)
                     lam_g.append(lam_phi)
                     # always use CONL Hessian approximation here, disregarding inner second derivative
-                    outer_hess_r = ca.vertcat(*[ca.hessian(constraint_dict['con_phi_expr'][j], constraint_dict['con_r_in_phi'])[0] for j in range(constraint_dict['nphi'])])
+                    lam_phi_model = ca_symbol('lam_phi', constraint_dict['nphi'], 1)
+                    outer_hess_r = ca.hessian(lam_phi_model.T @ constraint_dict['con_phi_expr'], constraint_dict['con_r_in_phi'])[0]
                     outer_hess_r = ca.substitute(outer_hess_r, constraint_dict['con_r_in_phi'], constraint_dict['con_r_expr'])
-                    r_in_nlp = ca.substitute(constraint_dict['con_r_expr'], model.x, xtraj_nodes[-1])
-                    dr_dw = ca.jacobian(r_in_nlp, w)
-                    hess_l += dr_dw.T @ outer_hess_r @ dr_dw
+                    outer_hess_fun = ca.Function('outer_hess_fun', [model.x, model.u, model.p, model.p_global, lam_phi_model], [outer_hess_r])
+                    r_fun = ca.Function('r_fun', [model.x, model.u, model.p, model.p_global], [constraint_dict['con_r_expr']])
+                    dr_dw = ca.jacobian(r_fun(xtraj_nodes[i], utraj_node, ptraj_node, model.p_global), w)
+                    hess_l += dr_dw.T @ outer_hess_fun(xtraj_nodes[i], utraj_node, ptraj_node, model.p_global, lam_phi) @ dr_dw
 
         ### Cost and Hessian ###
         nlp_cost = 0
-- 
2.43.0


From 810fed96cd815c2961ed90c40414d90e06d46ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 161/166] fix: Gauss-Newton Hessian of AcadosCasadiOcp was
 wrong for weights which are not diagonal and ignored the slack penalties

---
 .../acados_template/acados_casadi_ocp.py           | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 5d0ff69..2d9e42b 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -350,6 +350,7 @@ class AcadosCasadiOcp:
 
         ### Cost and Hessian ###
         nlp_cost = 0
+        slack_penalty = 0
         residual_list = []
         for i in range(N_horizon+1):
             cost_dict = self._get_cost_node(i, N_horizon, xtraj_nodes, utraj_nodes, p_nlp, sl_nodes, su_nodes, ocp)
@@ -360,14 +361,15 @@ class AcadosCasadiOcp:
 
             if cost_dict['residual_expr'] is not None:
                 residual_fun_i = ca.Function(f'residual_fun_{i}', [model.x, model.u, cost_dict['p_for_model'], model.p_global], [cost_dict['residual_expr']])
-                residual_i = ca.sqrt(solver_options.cost_scaling[i]) * ca.sqrt(cost_dict['W_mat']) @ residual_fun_i(cost_dict['xtraj_node'], cost_dict['utraj_node'], cost_dict['ptraj_node'], model.p_global)
-                residual_list.append(residual_i)
+                residual_i = residual_fun_i(cost_dict['xtraj_node'], cost_dict['utraj_node'], cost_dict['ptraj_node'], model.p_global)
+                residual_list.append((residual_i, solver_options.cost_scaling[i] * cost_dict['W_mat']))
             if cost_dict['ns'] > 0:
                 penalty_expr_i = 0.5 * ca.mtimes(cost_dict['sl_node'].T, ca.mtimes(np.diag(cost_dict['Zl']), cost_dict['sl_node'])) + \
                     ca.mtimes(cost_dict['zl'].reshape(-1, 1).T, cost_dict['sl_node']) + \
                     0.5 * ca.mtimes(cost_dict['su_node'].T, ca.mtimes(np.diag(cost_dict['Zu']), cost_dict['su_node'])) + \
                     ca.mtimes(cost_dict['zu'].reshape(-1, 1).T, cost_dict['su_node'])
                 nlp_cost += solver_options.cost_scaling[i] * penalty_expr_i
+                slack_penalty += solver_options.cost_scaling[i] * penalty_expr_i
 
         if with_hessian:
             lam_f = ca_symbol('lam_f', 1, 1)
@@ -377,10 +379,10 @@ class AcadosCasadiOcp:
                 if  ocp.solver_options.hessian_approx == 'EXACT':
                     hess_l += lam_f * ca.hessian(nlp_cost, w)[0]
                 elif ocp.solver_options.hessian_approx == 'GAUSS_NEWTON':
-                    Gauss_Newton = 0
-                    for i in range(len(residual_list)):
-                        dr_dw = ca.jacobian(residual_list[i], w)
-                        Gauss_Newton += dr_dw.T @ dr_dw
+                    Gauss_Newton = ca.hessian(slack_penalty, w)[0]
+                    for residual, weight in residual_list:
+                        dr_dw = ca.jacobian(residual, w)
+                        Gauss_Newton += dr_dw.T @ weight @ dr_dw
                     hess_l += lam_f * Gauss_Newton
             else:
                 raise NotImplementedError("Hessian approximation not implemented for this cost type.")
-- 
2.43.0


From ce18a433ed5f3506e3caf09be08cac6115496f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 162/166] fix: single shooting formulation of
 AcadosCasadiOcpSolver could not be created

---
 .../acados_template/acados_template/acados_casadi_ocp.py | 7 ++-----
 .../acados_template/acados_casadi_ocp_solver.py          | 9 ++++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 2d9e42b..0075bec 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -251,11 +251,8 @@ class AcadosCasadiOcp:
                     utraj_node = utraj_nodes[i] if dims.nu > 0 else ca_symbol('dummy_u', 0, 1)
                     ptraj_node = ptraj_nodes[i][:dims.np] if dims.np > 0 else ca_symbol('dummy_p', 0, 1)
                     x_current = xtraj_nodes[i]
-                    if solver_options.integrator_type == "DISCRETE":
-                        x_next = self.f_discr_fun(x_current, utraj_node, ptraj_node, model.p_global)
-                    elif solver_options.integrator_type == "ERK":
-                        param = ca.vertcat(utraj_node, ptraj_node, model.p_global)
-                        x_next = self.f_discr_fun(x_current, param, solver_options.time_steps[i])
+                    param = ca.vertcat(ptraj_node, model.p_global, solver_options.time_steps[i])
+                    x_next = self.f_discr_fun(x_current, utraj_node, param)
                     xtraj_nodes.append(x_next)
                     self._x_traj_fun.append(self.f_discr_fun)
 
diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index 419d9fe..e3039f6 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -140,11 +140,10 @@ class AcadosCasadiOcpSolver:
             self.nlp_sol_x = [self.x_traj_fun[0]]
             for i in range(0, self.ocp.dims.N):
                 x_current = self.nlp_sol_x[i]
-                if self.ocp.solver_options.integrator_type == "DISCRETE":
-                    x_next = self.x_traj_fun[i+1](x_current, self.nlp_sol_w[i], self.ocp.parameter_values, self.ocp.p_global_values)
-                elif self.ocp.solver_options.integrator_type == "ERK":
-                    param = np.concatenate([self.nlp_sol_w[i], self.ocp.parameter_values, self.ocp.p_global_values])
-                    x_next = self.x_traj_fun[i+1](x_current, param, self.ocp.solver_options.time_steps[i])
+                param = np.concatenate([self.p[self.index_map['p_in_p_nlp'][i]].flatten(),
+                                        self.p[self.index_map['p_global_in_p_nlp']].flatten(),
+                                        [self.ocp.solver_options.time_steps[i]]])
+                x_next = self.x_traj_fun[i+1](x_current, self.nlp_sol_w[self.index_map['u_in_w'][i]], param)
                 self.nlp_sol_x.append(x_next.full())
 
         # statistics
-- 
2.43.0


From 98effa4abddf63feb46340b2c14a29220ad4e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:53 +0000
Subject: [PATCH 163/166] fix: AcadosCasadiOcpSolver.solve raised if CasADi
 does not record timings

---
 .../acados_template/acados_casadi_ocp_solver.py             | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
index e3039f6..782e32f 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp_solver.py
@@ -151,16 +151,16 @@ class AcadosCasadiOcpSolver:
         if self._solver_name == "ipopt":
             self._status = str_to_status_ipopt(solver_stats['return_status'])
             self.nlp_iter = solver_stats['iter_count']
-            self.time_total = solver_stats['t_wall_total']
+            self.time_total = solver_stats.get('t_wall_total')
         elif self._solver_name == "fatrop":
             self._status = solver_stats['return_status']
             self.nlp_iter = solver_stats['iter_count']
-            self.time_total = solver_stats['t_wall_total']
+            self.time_total = solver_stats.get('t_wall_total')
         else:
             self._status = -1
             print(f"Solver statistics parsing not implemented for solver {self._solver_name}.")
             self.nlp_iter = solver_stats['iter_count'] if 'iter_count' in solver_stats else None
-            self.time_total = solver_stats['t_wall_total'] if 't_wall_total' in solver_stats else None
+            self.time_total = solver_stats.get('t_wall_total')
 
         self.solver_stats = solver_stats
         return self.status
-- 
2.43.0


From dbf50b43d39f5ac63dfcdd1b29444c137bc4ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:16 +0000
Subject: [PATCH 164/166] fix: AcadosCasadiOcp failed for MX models without
 parameters and references

---
 .../acados_template/acados_casadi_ocp.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 0075bec..8850e67 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -589,7 +589,10 @@ class AcadosCasadiOcp:
         cost = ocp.cost
         p_index = self._index_map['p_in_p_nlp'][i]
         yref_index = self._index_map['yref_in_p_nlp'][i]
-        yref = p_nlp[yref_index]
+        # indexing with an empty list results in row vectors
+        empty = model.get_casadi_symbol()('empty', 0, 1)
+        yref = p_nlp[yref_index] if yref_index else empty
+        ptraj_node = p_nlp[p_index + yref_index] if p_index + yref_index else empty
         if i == 0:
             if cost.cost_type_0 == "NONLINEAR_LS" and not is_empty(ocp.model.cost_y_expr_0):
                 y = ocp.model.cost_y_expr_0
@@ -601,7 +604,7 @@ class AcadosCasadiOcp:
                 residual_expr = None
             cost_dict['xtraj_node'] = xtraj_node[0]
             cost_dict['utraj_node'] = utraj_node[0]
-            cost_dict['ptraj_node'] = p_nlp[p_index + yref_index]
+            cost_dict['ptraj_node'] = ptraj_node
             cost_dict['sl_node'] = sl_node[0]
             cost_dict['su_node'] = su_node[0]
             cost_dict['cost_expr'] = ocp.get_initial_cost_expression(yref)
@@ -624,7 +627,7 @@ class AcadosCasadiOcp:
                 residual_expr = None
             cost_dict['xtraj_node'] = xtraj_node[i]
             cost_dict['utraj_node'] = utraj_node[i]
-            cost_dict['ptraj_node'] = p_nlp[p_index + yref_index]
+            cost_dict['ptraj_node'] = ptraj_node
             cost_dict['sl_node'] = sl_node[i]
             cost_dict['su_node'] = su_node[i]
             cost_dict['cost_expr'] = ocp.get_path_cost_expression(yref)
@@ -647,7 +650,7 @@ class AcadosCasadiOcp:
                 residual_expr = None
             cost_dict['xtraj_node'] = xtraj_node[-1]
             cost_dict['utraj_node'] = utraj_node[-1]
-            cost_dict['ptraj_node'] = p_nlp[p_index + yref_index]
+            cost_dict['ptraj_node'] = ptraj_node
             cost_dict['sl_node'] = sl_node[-1]
             cost_dict['su_node'] = su_node[-1]
             cost_dict['cost_expr'] = ocp.get_terminal_cost_expression(yref)
-- 
2.43.0


From 0b648d2e22f3abbe492f609e13905bc13a06a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:15 +0000
Subject: [PATCH 165/166] fix: AcadosCasadiOcp silently solved another problem
 for stage-wise integrator options, integrated costs and bounded states in
 single shooting

---
 .../acados_template/acados_casadi_ocp.py              | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_casadi_ocp.py b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
index 8850e67..899c564 100644
--- a/interfaces/acados_template/acados_template/acados_casadi_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_casadi_ocp.py
@@ -125,6 +125,17 @@ class AcadosCasadiOcp:
         if ocp.solver_options.integrator_type not in ["DISCRETE", "ERK"] and not with_casados:
             raise NotImplementedError(f"AcadosCasadiOcpSolver does not support integrator_type "f"{ocp.solver_options.integrator_type} without casados.")
 
+        if ocp.solver_options.integrator_type != "DISCRETE":
+            if len(set(np.asarray(solver_options.sim_method_num_steps).flatten())) > 1 or len(set(np.asarray(solver_options.sim_method_num_stages).flatten())) > 1:
+                raise NotImplementedError("AcadosCasadiOcpSolver does not support integrator options that vary over the horizon.")
+        if solver_options.cost_discretization != 'EULER':
+            raise NotImplementedError(f"AcadosCasadiOcpSolver does not support cost_discretization {solver_options.cost_discretization}.")
+        if not multiple_shooting:
+            if not constraints.has_x0:
+                raise NotImplementedError("AcadosCasadiOcpSolver with single shooting requires a fixed initial state.")
+            if dims.nbx > 0 or dims.nbx_e > 0:
+                raise NotImplementedError("AcadosCasadiOcpSolver with single shooting does not support bounds on states.")
+
         ### Variables and Parameters ###
         ## List for Symbolic variables
         # variables
-- 
2.43.0


From 2175ceddb0e2c221dc614d0bb7f31aba29ef26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:31 +0000
Subject: [PATCH 166/166] fix: formulations with idxs_rev_0 but no slack at the
 initial stage could not be loaded from json

---
 interfaces/acados_template/acados_template/acados_ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/acados_template/acados_template/acados_ocp.py b/interfaces/acados_template/acados_template/acados_ocp.py
index 4a95bbe..6a61e00 100644
--- a/interfaces/acados_template/acados_template/acados_ocp.py
+++ b/interfaces/acados_template/acados_template/acados_ocp.py
@@ -674,6 +674,8 @@ class AcadosOcp:
 
         # check cost penalty
         for field in ("Zl_0", "Zu_0", "zl_0", "zu_0"):
+            if ns_0 == 0 and getattr(cost, field) is None:
+                setattr(cost, field, np.array([]))
             dim = getattr(cost, field).shape[0]
             if dim != ns_0:
                 raise Exception(f'Inconsistent size for field {field}, with dimension {dim}, \n\t'\
-- 
2.43.0


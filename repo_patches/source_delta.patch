From 334dbae5162dd7b0b09855904ae81a4f934c6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 01/37] fix: binary bounds of the second block when stacking
 constraints

The second block's size was read from the first constraint.
---
 neural_network_lyapunov/gurobi_torch_mip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 038fc3e..5a1e30c 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -341,7 +341,7 @@ def concatenate_mixed_integer_constraints(
         ret.binary_up = take_minimum(cnstr1.binary_up, cnstr2.binary_up)
     else:
         num_binary1 = cnstr1.num_binary()
-        num_binary2 = cnstr1.num_binary()
+        num_binary2 = cnstr2.num_binary()
         ret.binary_lo = stack_bounds(cnstr1.binary_lo, cnstr2.binary_lo,
                                      num_binary1, num_binary2, False)
         ret.binary_up = stack_bounds(cnstr1.binary_up, cnstr2.binary_up,
-- 
2.43.0


From 75368aac8f9e5026e3a88bc987d8b773d0f505af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 02/37] fix: transform_input rejects constraints carrying input
 bounds

The assertion on a non-empty string always passed, so bounds on the old input
were silently kept for the new input.
---
 neural_network_lyapunov/gurobi_torch_mip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 5a1e30c..209a809 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -149,8 +149,9 @@ class MixedIntegerConstraintsReturn:
                 self.Cout = self.Aout_input @ b
             self.Aout_input = self.Aout_input @ A
         if self.input_lo is not None or self.input_up is not None:
-            assert ("transform_input(): cannot handle non-empty input_lo or " +
-                    "input_up")
+            raise NotImplementedError(
+                "transform_input(): cannot handle non-empty input_lo or " +
+                "input_up")
 
 
 def concatenate_mixed_integer_constraints(
-- 
2.43.0


From 3fa7cec29be002d044a6b2a6c545e105ec7f2bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 03/37] fix: misspelled slack matrix in the absolute value
 constraint with x_lo = 0

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index da34766..2ccf3cd 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -289,7 +289,7 @@ def absolute_value_as_mixed_integer_constraint(
         # α[0] = 0
         # α[1] + α[2] = 1
         ret.Ain_input = torch.tensor([[-1], [1], [1]], dtype=dtype)
-        ret.Ain_salck = torch.tensor([[0], [0], [1]], dtype=dtype)
+        ret.Ain_slack = torch.tensor([[0], [0], [1]], dtype=dtype)
         ret.Ain_binary = torch.zeros((3, 3), dtype=dtype)
         ret.Ain_binary[2, 2] = -2 * x_up
         ret.rhs_in = torch.stack((-x_lo, x_up, torch.tensor(0, dtype=dtype)))
-- 
2.43.0


From 01b4029ec2c38fe35104204825c27c546e67e2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 04/37] fix: max constraint with exactly one dominated entry

squeeze() turned the single index into a scalar and len() raised.
---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 2ccf3cd..c7d8b2c 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -104,7 +104,7 @@ def max_as_mixed_integer_constraint(
     non_maximal_idx = torch.nonzero(
         torch.any(x_up.unsqueeze(1).repeat(1, nx) -
                   x_lo.unsqueeze(1).T.repeat(nx, 1) < 0,
-                  dim=1)).squeeze().tolist()
+                  dim=1)).squeeze(1).tolist()
     if (len(non_maximal_idx) > 0):
         Aeq_binary_non_maximal = torch.zeros((len(non_maximal_idx), nx),
                                              dtype=dtype)
-- 
2.43.0


From 87fb2a7d6b7ae2d6e46d915cc0b7cad40e3a9432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 05/37] fix: l1_gradient takes the zero entries from x, not
 from sign(x)

With 0 < |x(i)| < zero_tol the left and right gradients came out identical.
---
 neural_network_lyapunov/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index c7d8b2c..8f5fe03 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1437,19 +1437,19 @@ def l1_gradient(x: torch.Tensor,
 
     if not torch.any(torch.abs(x) <= zero_tol):
         return torch.sign(x).reshape((1, -1))
-    elif torch.sum(torch.abs(x) < zero_tol) == 1:
+    elif torch.sum(torch.abs(x) <= zero_tol) == 1:
         s = torch.sign(x)
         s_plus = s.clone()
-        s_plus[torch.abs(s_plus) <= zero_tol] = 1
+        s_plus[torch.abs(x) <= zero_tol] = 1
         s_minus = s.clone()
-        s_minus[torch.abs(s_minus) <= zero_tol] = -1
+        s_minus[torch.abs(x) <= zero_tol] = -1
         if subgradient_samples is None:
             return torch.vstack((s_plus, s_minus))
         else:
             s_list = [s_plus, s_minus]
             for i in range(subgradient_samples.size):
                 s_subgradient = s.clone()
-                s_subgradient[torch.abs(s_subgradient) <=
+                s_subgradient[torch.abs(x) <=
                               zero_tol] = subgradient_samples[i]
                 s_list.append(s_subgradient)
             return torch.vstack(s_list)
-- 
2.43.0


From 6b8fbc196f00a7f89e69c85053c75b147408344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 06/37] fix: continuity constraint has one row per common
 vertex

---
 neural_network_lyapunov/simple_pwl_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/simple_pwl_lyapunov.py b/neural_network_lyapunov/simple_pwl_lyapunov.py
index f38258d..239cf29 100644
--- a/neural_network_lyapunov/simple_pwl_lyapunov.py
+++ b/neural_network_lyapunov/simple_pwl_lyapunov.py
@@ -147,7 +147,7 @@ class SimplePWLLyapunov:
         self.constraints.append(
             common_vertices @ (self.c[:, mode_i] - self.c[:, mode_j]) +
             (self.d[mode_i] - self.d[mode_j]) *
-            np.ones(common_vertices.shape[1]) == 0)
+            np.ones(common_vertices.shape[0]) == 0)
 
     def solve(self, weight):
         """
-- 
2.43.0


From 26f54692b6c3ce33653b0a9947be49e141adbb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 07/37] fix: width of the zero block of G in the second order
 system constraints

---
 neural_network_lyapunov/control_affine_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/control_affine_system.py b/neural_network_lyapunov/control_affine_system.py
index 79382d9..5354582 100644
--- a/neural_network_lyapunov/control_affine_system.py
+++ b/neural_network_lyapunov/control_affine_system.py
@@ -215,7 +215,7 @@ class SecondOrderControlAffineSystem(ControlPiecewiseAffineSystem):
                     field]
         if mip_cnstr_b_flat.Aout_input is not None:
             ret.mip_cnstr_G.Aout_input = torch.vstack(
-                (torch.zeros((self.nq * self.u_dim, self.nq),
+                (torch.zeros((self.nq * self.u_dim, self.x_dim),
                              dtype=self.dtype), mip_cnstr_b_flat.Aout_input))
         if mip_cnstr_b_flat.Aout_slack is not None:
             ret.mip_cnstr_G.Aout_slack = torch.vstack((torch.zeros(
-- 
2.43.0


From 0c7f2fa8e93c2d078781ad3da92b6f031ff6202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 08/37] fix: Armijo test of LineSearchGD uses the step that is
 being tried

The required decrement was not scaled with the reduced step size, so steps
satisfying the documented rule were rejected.
---
 neural_network_lyapunov/line_search_gd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/line_search_gd.py b/neural_network_lyapunov/line_search_gd.py
index 2b92b80..0b1df16 100644
--- a/neural_network_lyapunov/line_search_gd.py
+++ b/neural_network_lyapunov/line_search_gd.py
@@ -118,7 +118,7 @@ class LineSearchGD(Optimizer):
         while alpha > min_step_size_decrease:
             loss = self.directional_evaluate(closure, p,
                                              (alpha - alpha_prev) * t, d_p)
-            if loss <= loss0 + t * increment and \
+            if loss <= loss0 + alpha * t * increment and \
                     loss <= loss0 - min_improvement:
                 return loss
             alpha_prev = alpha
-- 
2.43.0


From 59f517c47b8938e702eeff016709ce27cc2fe00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 09/37] fix: pass binary_var_type to the Lyapunov network
 constraint

A relaxed derivative program still got true binary variables for the network.
---
 neural_network_lyapunov/continuous_time_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 992ccb3..451a16e 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -99,7 +99,7 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
         # Adds the mixed-integer constraints to compute V(x).
         relu_slack, relu_binary, relu_a_out, relu_b_out,\
             relu_output_mip_cnstr_ret = self.add_lyap_relu_output_constraint(
-                milp, x)
+                milp, x, binary_var_type=binary_var_type)
 
         l1_slack, l1_binary = self.add_state_error_l1_constraint(
             milp,
-- 
2.43.0


From 7bb88a8c807a53b8b23f5f6c138e79943054e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 10/37] fix: region of attraction only ignores a program proven
 infeasible

A program stopped for any other reason (time limit, numerics) was treated as
empty, which enlarges the certified level set.
---
 neural_network_lyapunov/lyapunov.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index e4b480f..3602684 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -1115,16 +1115,26 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         milp1, _, _, _, _ = self._construct_milp_for_roa(
             V_lambda, R, x_equilibrium, x_lo_larger, x_up_larger, True)
         milp1.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
+        milp1.gurobi_model.setParam(gurobipy.GRB.Param.DualReductions, 0)
         milp1.gurobi_model.optimize()
-        obj1 = milp1.gurobi_model.ObjVal if milp1.gurobi_model.status ==\
-            gurobipy.GRB.Status.OPTIMAL else np.inf
+        if milp1.gurobi_model.status == gurobipy.GRB.Status.OPTIMAL:
+            obj1 = milp1.gurobi_model.ObjVal
+        elif milp1.gurobi_model.status == gurobipy.GRB.Status.INFEASIBLE:
+            obj1 = np.inf
+        else:
+            raise Exception("compute_region_of_attraction: MILP not solved.")
 
         milp2, _, _, _, _ = self._construct_milp_for_roa(
             V_lambda, R, x_equilibrium, x_lo_larger, x_up_larger, False)
         milp2.gurobi_model.setParam(gurobipy.GRB.Param.OutputFlag, False)
+        milp2.gurobi_model.setParam(gurobipy.GRB.Param.DualReductions, 0)
         milp2.gurobi_model.optimize()
-        obj2 = milp2.gurobi_model.ObjVal if milp2.gurobi_model.status ==\
-            gurobipy.GRB.Status.OPTIMAL else np.inf
+        if milp2.gurobi_model.status == gurobipy.GRB.Status.OPTIMAL:
+            obj2 = milp2.gurobi_model.ObjVal
+        elif milp2.gurobi_model.status == gurobipy.GRB.Status.INFEASIBLE:
+            obj2 = np.inf
+        else:
+            raise Exception("compute_region_of_attraction: MILP not solved.")
 
         if V_upper_bound is None:
             V_upper_bound = np.inf
-- 
2.43.0


From dab056e7bb9a90ca1b042c32e5c8f05df5866376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 11/37] fix: check the solver status before using the bounds of
 R*xdot

---
 neural_network_lyapunov/continuous_time_lyapunov.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neural_network_lyapunov/continuous_time_lyapunov.py b/neural_network_lyapunov/continuous_time_lyapunov.py
index 451a16e..7bf9797 100644
--- a/neural_network_lyapunov/continuous_time_lyapunov.py
+++ b/neural_network_lyapunov/continuous_time_lyapunov.py
@@ -211,6 +211,8 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
                     gurobipy.GRB.MAXIMIZE)
                 system_constraint_return.x_next_bound_prog.gurobi_model.\
                     optimize()
+                assert (system_constraint_return.x_next_bound_prog.
+                        gurobi_model.status == gurobipy.GRB.Status.OPTIMAL)
                 Rxdot_ub[i] = system_constraint_return.x_next_bound_prog.\
                     gurobi_model.ObjVal
                 system_constraint_return.x_next_bound_prog.setObjective(
@@ -218,6 +220,8 @@ class LyapunovContinuousTimeSystem(lyapunov.LyapunovHybridLinearSystem):
                     gurobipy.GRB.MINIMIZE)
                 system_constraint_return.x_next_bound_prog.gurobi_model.\
                     optimize()
+                assert (system_constraint_return.x_next_bound_prog.
+                        gurobi_model.status == gurobipy.GRB.Status.OPTIMAL)
                 Rxdot_lb[i] = system_constraint_return.x_next_bound_prog.\
                     gurobi_model.ObjVal
         dl1dx_times_xdot_slack = milp.addVars(R.shape[0],
-- 
2.43.0


From d85cf0f3ea03a2756b9e655d8de4616a95c0c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 12/37] fix: SearchRwithSPDOptions.extract_params read
 attributes that do not exist

---
 neural_network_lyapunov/r_options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/r_options.py b/neural_network_lyapunov/r_options.py
index fcb3d7c..3d18443 100644
--- a/neural_network_lyapunov/r_options.py
+++ b/neural_network_lyapunov/r_options.py
@@ -111,8 +111,8 @@ class SearchRwithSPDOptions(ROptions):
     def extract_params(self):
         return {
             "R_size": self.R_size,
-            "R_epsilon": self.R_epsilon,
-            "R_variables": self.R_variables()
+            "R_epsilon": self.epsilon,
+            "R_variables": self._variables
         }
 
 
-- 
2.43.0


From 1fd2e9f5ce1c035ca21ae23eee08ec625af720e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 13/37] fix: project_gradient keeps the plain sum for
 orthogonal gradients

As documented; with one zero gradient the projection divided 0 by 0.
---
 neural_network_lyapunov/train_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_utils.py b/neural_network_lyapunov/train_utils.py
index 9a54b5b..c7fbaae 100644
--- a/neural_network_lyapunov/train_utils.py
+++ b/neural_network_lyapunov/train_utils.py
@@ -53,7 +53,7 @@ def project_gradient(network, loss1, loss2, mode, retain_graph=False):
     loss2.backward(retain_graph=retain_graph)
     n2 = torch.cat([p.grad.reshape((-1, )) for p in network.parameters()])
     with torch.no_grad():
-        if n1 @ n2 > 0:
+        if n1 @ n2 >= 0:
             grad = n1 + n2
             need_projection = False
         else:
-- 
2.43.0


From 0fd073033a0972301ee69fefedafc10cbf4fcdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 14/37] fix: show_sample clamps the next sample to [0, 1]

---
 neural_network_lyapunov/pybullet_data_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index 6b1be58..faf79ff 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -19,7 +19,7 @@ def show_sample(X_sample, X_next_sample=None, clamp=False):
     if clamp:
         X_sample = torch.clamp(X_sample, 0, 1)
         if X_next_sample is not None:
-            X_next_sample = torch.clamp(X_next_sample)
+            X_next_sample = torch.clamp(X_next_sample, 0, 1)
     if X_sample.shape[0] == 6:
         num_channels = 3
         cmap = None
-- 
2.43.0


From add4a3075e35112fd94b139072b2fcc0e4e651f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 15/37] fix: combine the URDF loading flags with or

---
 neural_network_lyapunov/worlds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/worlds.py b/neural_network_lyapunov/worlds.py
index e77d295..c26819d 100644
--- a/neural_network_lyapunov/worlds.py
+++ b/neural_network_lyapunov/worlds.py
@@ -34,8 +34,8 @@ def get_load_falling_cubes_callback():
 
 def get_load_cluttered_table_callback():
     def cb(pb):
-        flags = pb.URDF_ENABLE_CACHED_GRAPHICS_SHAPES & \
-            pb.URDF_USE_SELF_COLLISION & \
+        flags = pb.URDF_ENABLE_CACHED_GRAPHICS_SHAPES | \
+            pb.URDF_USE_SELF_COLLISION | \
             pb.URDF_USE_INERTIA_FROM_FILE
         table_height = .625
         pb.setAdditionalSearchPath(pbd.getDataPath())
-- 
2.43.0


From 4e93e90700fb5ac8ff17692f4616b0b3baa51b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 16/37] fix: adversarial_samples returns empty lists when no
 state violates

z_adv_der_lo and z_adv_der_up were unbound when the derivative condition held
everywhere.
---
 neural_network_lyapunov/dynamics_learning.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 0ea8ba9..364ba6f 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -149,17 +149,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_lo = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_lo.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_lo = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_lo) > 0:
+            z_adv_der_lo = torch.cat(z_adv_der_lo, dim=0)
 
         lyap_der_mip_ = self.lyap.lyapunov_derivative_as_milp(
             self.lyap.system.x_equilibrium,
@@ -177,17 +177,17 @@ class DynamicsLearning:
             lyap_der_mip.gurobi_model.optimize(
                 utils.get_gurobi_terminate_if_callback())
         num_sol = lyap_der_mip.gurobi_model.solCount
-        z_adv_der = []
+        z_adv_der_up = []
         for i in range(num_sol):
             lyap_der_mip.gurobi_model.setParam(
                 gurobipy.GRB.Param.SolutionNumber, i)
             obj = lyap_der_mip.gurobi_model.PoolObjVal
             if obj > 0:
-                z_adv_der.append(
+                z_adv_der_up.append(
                     torch.tensor([r.xn for r in x_var],
                                  dtype=self.opt.dtype).unsqueeze(0))
-        if len(z_adv_der) > 0:
-            z_adv_der_up = torch.cat(z_adv_der, dim=0)
+        if len(z_adv_der_up) > 0:
+            z_adv_der_up = torch.cat(z_adv_der_up, dim=0)
 
         return z_adv_pos, z_adv_der_lo, z_adv_der_up
 
-- 
2.43.0


From c127b5fb6ff2c449349f3642254fb39a21beffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 17/37] fix: read position and velocity of every joint

With more than one joint the state was sliced out of the first joint's
position, velocity, reaction force and torque.
---
 neural_network_lyapunov/pybullet_data_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/pybullet_data_generation.py b/neural_network_lyapunov/pybullet_data_generation.py
index faf79ff..ac004cb 100644
--- a/neural_network_lyapunov/pybullet_data_generation.py
+++ b/neural_network_lyapunov/pybullet_data_generation.py
@@ -225,8 +225,8 @@ class PybulletSampleGenerator:
             pb.stepSimulation()
         if self.joint_space:
             state = pb.getJointStates(self.robot_id, list(range(len(q0))))
-            q1 = state[0][:len(q0)]
-            v1 = state[0][len(q0):len(q0) + len(v0)]
+            q1 = [joint_state[0] for joint_state in state]
+            v1 = [joint_state[1] for joint_state in state]
             q1 = torch.tensor(q1, dtype=self.dtype)
             v1 = torch.tensor(v1, dtype=self.dtype)
             x1 = torch.cat((q1, v1))
-- 
2.43.0


From 0f9c218066b7a5c6444696be230a8f224365788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 18/37] fix: L2 reconstruction loss averages over the whole
 batch

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 364ba6f..34311d4 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -778,7 +778,7 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
         if self.opt.use_bce:
             loss = self.bce_loss(x_decoded, x)
         else:
-            loss = (x - x_decoded).pow(2).mean(dim=[1, 2, 3])[0]
+            loss = (x - x_decoded).pow(2).mean()
         return loss
 
     def dynamics_loss(self, x, x_next):
-- 
2.43.0


From 76a47cee5f2c534302bdc93efd101270c4494313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:35 +0000
Subject: [PATCH 19/37] fix: rollout_loss passes the prediction as the input of
 the BCE loss

---
 neural_network_lyapunov/dynamics_learning.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 34311d4..4ee1c23 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -883,8 +883,8 @@ class LatentSpaceDynamicsLearning(DynamicsLearning):
             rollout_expected.shape[0] - 2,
             decode_intermediate=decode_intermediate)
         if self.opt.use_bce:
-            loss = self.bce_loss_none(rollout_expected,
-                                      rollout_pred).mean(dim=[1, 2, 3])
+            loss = self.bce_loss_none(rollout_pred,
+                                      rollout_expected).mean(dim=[1, 2, 3])
         else:
             loss = (rollout_expected - rollout_pred).pow(2).mean(dim=[1, 2, 3])
         return loss
-- 
2.43.0


From 0fe26e2e13be2f672b82f36bcd026903775378b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 20/37] fix: MIQP objective from data ignored the cross term
 and the transpose of Q_r

---
 neural_network_lyapunov/gurobi_torch_mip.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index 209a809..f1a887d 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -1306,17 +1306,17 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         If we fix the binary variable ζ, and take out the active linear
         constraints as A_act * r = b_act, then the optimal solution and cost of
         the QP can be computed from the KKT condition
-        [2*Qᵣ, A_actᵀ] * [r] = [ -cᵣ ]
-        [ A_act,   0 ]   [λ]   [b_act]
+        [Qᵣ+Qᵣᵀ, A_actᵀ] * [r] = [ -cᵣ - Q_rzeta*ζ ]
+        [ A_act,     0 ]   [λ]   [     b_act       ]
         where λ is the dual variable. We could compare the pair of primal/dual
         variable (r, λ) as
-        [r] = [2*Qᵣ, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,   0 ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
+        [λ]   [ A_act,     0 ]     [     b_act       ]
         since the matrix is not invertible (it is psd but not positive
         definite), so we add a small identity matrix to make sure it is
         invertible
-        [r] = [2*Qᵣ + εI, A_actᵀ]⁻¹ * [ -cᵣ ]
-        [λ]   [ A_act,       εI ]     [b_act]
+        [r] = [Qᵣ+Qᵣᵀ + εI, A_actᵀ]⁻¹ * [ -cᵣ - Q_rzeta*ζ ]
+        [λ]   [ A_act,         εI ]     [     b_act       ]
         We can then compute the optimal cost
         rᵀQᵣr + ζᵀ*Q_zeta*ζ + rᵀ*Q_rzeta*ζ+cᵣᵀr+c_zetaᵀζ + c_constant as a
         function of the MIQP data.
@@ -1331,13 +1331,16 @@ class GurobiTorchMIQP(GurobiTorchMIP):
         M = torch.zeros((len(self.r) + len(b_act), len(self.r) + len(b_act)),
                         dtype=self.dtype)
         M[:len(self.r), :len(self.r)] =\
-            2 * self.Q_r + penalty * torch.eye(len(self.r), dtype=self.dtype)
+            self.Q_r + self.Q_r.T +\
+            penalty * torch.eye(len(self.r), dtype=self.dtype)
         M[:len(self.r), len(self.r):] = A_act.T
         M[len(self.r):, :len(self.r)] = A_act
         M[len(self.r):, len(self.r):] =\
             penalty * torch.eye(len(b_act), dtype=self.dtype)
 
-        primal_dual = torch.inverse(M) @ torch.cat((-self.c_r, b_act), axis=0)
+        # With ζ fixed, rᵀ*Q_rzeta*ζ is linear in r.
+        primal_dual = torch.inverse(M) @ torch.cat(
+            (-self.c_r - self.Q_rzeta @ zeta_sol, b_act), axis=0)
         r = primal_dual[:len(self.r)]
         return r @ (self.Q_r @ r) + zeta_sol @ (self.Q_zeta @ zeta_sol) +\
             r @ (self.Q_rzeta @ zeta_sol) + self.c_r @ r +\
-- 
2.43.0


From db6dc414bc1ca01fafd5d003887bd4fca55f292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 21/37] fix: accept relaxed binaries as given binary variables

add_mixed_integer_linear_constraints asserted that variables passed as the
binary variables have vtype BINARYRELAX, which no variable ever has: relaxed
binaries are created as CONTINUOUS.
---
 neural_network_lyapunov/gurobi_torch_mip.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/gurobi_torch_mip.py b/neural_network_lyapunov/gurobi_torch_mip.py
index f1a887d..a35dfa6 100644
--- a/neural_network_lyapunov/gurobi_torch_mip.py
+++ b/neural_network_lyapunov/gurobi_torch_mip.py
@@ -774,7 +774,10 @@ class GurobiTorchMIP:
                     (isinstance(v, gurobipy.Var) for v in binary_var_name)):
                 binary = binary_var_name
                 assert (len(binary) == binary_size)
-                assert (all((v.vtype == binary_var_type for v in binary)))
+                # A relaxed binary variable is a continuous variable.
+                vtype = gurobipy.GRB.CONTINUOUS if \
+                    binary_var_type == BINARYRELAX else binary_var_type
+                assert (all((v.vtype == vtype for v in binary)))
         else:
             binary = []
 
-- 
2.43.0


From 6aea28d9d74c96b929ac850e8814766e03fd77dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 22/37] fix: cost-to-go does not modify the state a cost
 function views

---
 neural_network_lyapunov/hybrid_linear_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index d4f63d5..959b185 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -700,7 +700,7 @@ def compute_discrete_time_system_cost_to_go(system,
                 break
         assert (mode is not None)
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
-        total_cost += cost_steps[i + 1]
+        total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
     x_steps = torch.stack(x_steps[:terminal_step + 1], axis=1)
     costs = torch.stack([
-- 
2.43.0


From fb65dc995e767f0c5f98412b242d0dfb47becf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 23/37] fix: discrete cost-to-go raises StepForwardException
 outside all modes

---
 neural_network_lyapunov/hybrid_linear_system.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index 959b185..c792dde 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -698,7 +698,10 @@ def compute_discrete_time_system_cost_to_go(system,
                 mode = j
                 x_steps[i + 1] = system.A[j] @ x_steps[i] + system.g[j]
                 break
-        assert (mode is not None)
+        if mode is None:
+            raise system.StepForwardException(
+                "compute_discrete_time_system_cost_to_go(): x is not in any "
+                "mode.")
         cost_steps[i + 1] = instantaneous_cost_fun(x_steps[i + 1])
         total_cost = total_cost + cost_steps[i + 1]
         costs_from_start[i + 1] = costs_from_start[i] + cost_steps[i + 1]
-- 
2.43.0


From f980d2f0e554af4480b83287ea9999842ef7f12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 24/37] fix: restore a gurobi parameter which is set twice
 while strengthening the MILP

strengthen_lyapunov_derivative_milp_binary recorded the value to restore on
every call, so when gurobi_options contains OutputFlag, DualReductions or
SolutionLimit, the temporary value was left in the model.
---
 neural_network_lyapunov/lyapunov.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index 3602684..db7a588 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -812,7 +812,9 @@ class LyapunovDiscreteTimeHybridSystem(LyapunovHybridLinearSystem):
         def set_gurobi_options(param, param_val):
             default_val = lyap_deriv_milp_return.milp.gurobi_model.\
                 getParamInfo(param)[2]
-            gurobi_default_options[param] = default_val
+            # The same parameter can be set more than once, keep the value
+            # before the first one.
+            gurobi_default_options.setdefault(param, default_val)
             lyap_deriv_milp_return.milp.gurobi_model.setParam(param, param_val)
 
         set_gurobi_options(gurobipy.GRB.Param.OutputFlag, False)
-- 
2.43.0


From 3918609bcac977ed0d5ba139ffd904a9745f424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 25/37] fix: keep training R after restoring the best training
 parameters

_set_training_params replaced R_options._variables with a clone. The clone is
neither a leaf nor one of the training parameters collected at the start of
train_adversarial(), so R was not trained any more after the first iteration.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 788c9af..a651f7f 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1112,7 +1112,7 @@ class Trainer:
         params["lyap_relu_params"] = copy.deepcopy(
             self.lyapunov_hybrid_system.lyapunov_relu.state_dict())
         if not self.R_options.fixed_R:
-            params["R_params"] = self.R_options._variables.clone()
+            params["R_params"] = self.R_options._variables.detach().clone()
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             params["controller_params"] = copy.deepcopy(
@@ -1127,7 +1127,10 @@ class Trainer:
         self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
             params["lyap_relu_params"])
         if not self.R_options.fixed_R:
-            self.R_options._variables = params["R_params"].clone()
+            # Set the value in place, such that the optimizer still updates
+            # the variables of R.
+            with torch.no_grad():
+                self.R_options._variables.copy_(params["R_params"])
         if isinstance(self.lyapunov_hybrid_system.system,
                       feedback_system.FeedbackSystem):
             self.lyapunov_hybrid_system.system.controller_network.\
-- 
2.43.0


From c5e1a5fa9dc4809e8a9b86c9f330c9d02e430415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 26/37] fix: train_lyapunov_on_samples restores R together with
 the best network

R is one of the training parameters, but only the networks were put back to
the iteration with the smallest test loss.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index a651f7f..5f84015 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1064,20 +1064,10 @@ class Trainer:
                   f"{test_loss.item()}")
             if test_loss.item() < best_loss:
                 best_loss = test_loss.item()
-                best_lyapunov_relu = copy.deepcopy(
-                    self.lyapunov_hybrid_system.lyapunov_relu)
-                if isinstance(self.lyapunov_hybrid_system.system,
-                              feedback_system.FeedbackSystem):
-                    best_controller_relu = copy.deepcopy(
-                        self.lyapunov_hybrid_system.system.controller_network)
+                best_training_params = self._get_current_training_params()
 
         print(f"best loss {best_loss}")
-        self.lyapunov_hybrid_system.lyapunov_relu.load_state_dict(
-            best_lyapunov_relu.state_dict())
-        if isinstance(self.lyapunov_hybrid_system.system,
-                      feedback_system.FeedbackSystem):
-            self.lyapunov_hybrid_system.system.controller_network.\
-                load_state_dict(best_controller_relu.state_dict())
+        self._set_training_params(best_training_params)
 
     class AdversarialTrainingOptions:
         def __init__(self):
-- 
2.43.0


From 53234710c766ebad7c9004e4a5a8cd779d18e1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 27/37] fix: solve_barrier_derivative_mip without adversarial
 states

torch.stack raised on the empty list when no solution violates the barrier
derivative condition, namely when the condition is verified.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 5f84015..e83c76f 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -583,7 +583,11 @@ class Trainer:
                 mip_adversarial.append(
                     torch.tensor([v.xn for v in barrier_deriv_return.x],
                                  dtype=dtype))
-        mip_adversarial = torch.stack(mip_adversarial)
+        if len(mip_adversarial) > 0:
+            mip_adversarial = torch.stack(mip_adversarial)
+        else:
+            mip_adversarial = torch.empty(
+                (0, self.barrier_system.system.x_dim), dtype=dtype)
         return barrier_deriv_return.milp, barrier_deriv_mip_obj,\
             mip_adversarial
 
-- 
2.43.0


From 50352d4587960bd5aacef7778c822df5ddde8bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 28/37] fix: number of repetitions with two clusters of
 adversarial states

With exactly one new adversarial state after the first one, a single
repetition count was returned for two clusters.
---
 neural_network_lyapunov/train_lyapunov_barrier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index e83c76f..324d686 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -1473,7 +1473,7 @@ def _cluster_adversarial_states(adversarial_states, cluster_radius):
             1)[states_distance_squared > cluster_radius**2] + 1
         repeatition = new_adversarial_state_index[1:] - \
             new_adversarial_state_index[:-1]
-        if repeatition.shape == (0, ):
+        if new_adversarial_state_index.shape == (0, ):
             repeatition = torch.tensor([adversarial_states.shape[0]])
         else:
             repeatition = torch.cat(
-- 
2.43.0


From 7c8a12b5e95756a366cab4d84c65fcdf2f3d195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 29/37] fix: do not certify with the incumbent of an MIP not
 solved to optimality

When the solver stops early (TimeLimit in lyapunov_derivative_mip_params, or
the termination threshold), ObjVal is only a lower bound of the maximal
violation. train() and train_adversarial() compared it with the convergence
tolerance and could return True although a violating state exists.
---
 .../train_lyapunov_barrier.py                 | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/neural_network_lyapunov/train_lyapunov_barrier.py b/neural_network_lyapunov/train_lyapunov_barrier.py
index 324d686..a5f29f2 100644
--- a/neural_network_lyapunov/train_lyapunov_barrier.py
+++ b/neural_network_lyapunov/train_lyapunov_barrier.py
@@ -343,8 +343,7 @@ class Trainer:
                     threshold=self.lyapunov_positivity_mip_term_threshold))
         else:
             lyapunov_positivity_mip.gurobi_model.optimize()
-        lyapunov_positivity_mip_obj = \
-            lyapunov_positivity_mip.gurobi_model.ObjVal
+        lyapunov_positivity_mip_obj = _max_objective(lyapunov_positivity_mip)
         if self.lyapunov_positivity_mip_warmstart:
             self.lyapunov_positivity_last_x_adv = torch.tensor(
                 [v.x for v in lyapunov_positivity_as_milp_return[1]],
@@ -407,8 +406,7 @@ class Trainer:
                     threshold=self.lyapunov_derivative_mip_term_threshold))
         else:
             lyapunov_derivative_mip.gurobi_model.optimize()
-        lyapunov_derivative_mip_obj = \
-            lyapunov_derivative_mip.gurobi_model.ObjVal
+        lyapunov_derivative_mip_obj = _max_objective(lyapunov_derivative_mip)
 
         if self.output_flag:
             print("adversarial x " +
@@ -543,7 +541,7 @@ class Trainer:
                     gurobipy.GRB.Param.PoolSolutions,
                     self.barrier_value_mip_pool_solutions)
             mip[region_count].gurobi_model.optimize()
-            mip_obj[region_count] = mip[region_count].gurobi_model.ObjVal
+            mip_obj[region_count] = _max_objective(mip[region_count])
             num_adversarial = np.min((self.barrier_value_mip_pool_solutions,
                                       mip[region_count].gurobi_model.solCount))
             mip_adversarial[region_count] = torch.empty(
@@ -569,7 +567,7 @@ class Trainer:
         for param, val in self.barrier_derivative_mip_params.items():
             barrier_deriv_return.milp.gurobi_model.setParam(param, val)
         barrier_deriv_return.milp.gurobi_model.optimize()
-        barrier_deriv_mip_obj = barrier_deriv_return.milp.gurobi_model.ObjVal
+        barrier_deriv_mip_obj = _max_objective(barrier_deriv_return.milp)
         num_adversarial = np.min(
             (self.barrier_derivative_mip_pool_solutions,
              barrier_deriv_return.milp.gurobi_model.solCount))
@@ -1447,6 +1445,19 @@ class TrainValueApproximator:
                                           x_equilibrium, R)
 
 
+def _max_objective(mip):
+    """
+    The largest objective value of a maximization problem after optimize(). If
+    the solver stopped before it proves optimality (for example with a time
+    limit), then the incumbent doesn't certify that the objective is small,
+    hence we take the upper bound of the objective.
+    """
+    obj = mip.gurobi_model.ObjVal
+    if mip.gurobi_model.status != gurobipy.GRB.Status.OPTIMAL:
+        obj = max(obj, mip.gurobi_model.ObjBound)
+    return obj
+
+
 def _cluster_adversarial_states(adversarial_states, cluster_radius):
     """
     The adversarial states generated from Gurobi often have clusters (some
-- 
2.43.0


From 80012a37ca0b58eccbd57f7e229c474d79d098f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 30/37] fix: rollout_validation returned the sum, not the mean,
 of the roll-out losses

---
 neural_network_lyapunov/dynamics_learning.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/dynamics_learning.py b/neural_network_lyapunov/dynamics_learning.py
index 4ee1c23..b2ae765 100644
--- a/neural_network_lyapunov/dynamics_learning.py
+++ b/neural_network_lyapunov/dynamics_learning.py
@@ -380,7 +380,7 @@ class DynamicsLearning:
                 rollout_expected = rollout_expected.to(device)
                 validation_loss += self.rollout_loss(rollout_expected)
         self.all_to_device('cpu')
-        validation_loss = validation_loss.to('cpu')
+        validation_loss = validation_loss.to('cpu') / len(rollouts)
         return validation_loss
 
     def log(self, name, value):
-- 
2.43.0


From a1d123972ce5517302c485259984492d4189053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 31/37] fix: update_relu_params made the network share memory
 with the parameter vector

---
 neural_network_lyapunov/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 8f5fe03..ae9e28d 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1006,11 +1006,11 @@ def update_relu_params(relu, params: torch.Tensor):
                                        layer.in_features *
                                        layer.out_features].reshape(
                                            (layer.out_features,
-                                            layer.in_features))
+                                            layer.in_features)).clone()
             params_count += layer.in_features * layer.out_features
             if layer.bias is not None:
                 layer.bias.data = params[params_count:params_count +
-                                         layer.out_features]
+                                         layer.out_features].clone()
                 params_count += layer.out_features
 
 
-- 
2.43.0


From 79da2efb1946fd0b112231b3e02a468c53d919f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 32/37] fix: compute_numerical_gradient returned 0 for a
 function returning its argument

---
 neural_network_lyapunov/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index ae9e28d..4fb1c8d 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -633,8 +633,14 @@ def compute_numerical_gradient(fun, *args, **kwargs):
                         or isinstance(fun_plus, float))
                 if (isinstance(fun_plus, np.ndarray)):
                     assert (len(fun_plus.shape) == 1)
+            # fun might return (a view of) its argument, which is overwritten
+            # below.
+            if isinstance(fun_plus, np.ndarray):
+                fun_plus = np.copy(fun_plus)
             perturbed_arg[i] -= 2 * dx
             fun_minus = fun(*perturbed_args)
+            if isinstance(fun_minus, np.ndarray):
+                fun_minus = np.copy(fun_minus)
             perturbed_arg[i] = val
             if (grad[arg_index] is None):
                 grad[arg_index] =\
-- 
2.43.0


From 7547e4a1813f0573c439ba3d5c26b071a802fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 33/37] fix: index out of range when sampling the box boundary
 with a draw of 0

---
 neural_network_lyapunov/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index 4fb1c8d..bb72cef 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -1351,8 +1351,9 @@ def uniform_sample_on_box_boundary(lo: torch.Tensor, hi: torch.Tensor,
     x_dim = lo.numel()
     boundary_face_rand = torch.rand((num_samples, )) * 2 - 1
     for i in range(num_samples):
-        boundary_face_index = int(
-            (torch.abs(boundary_face_rand[i]) * x_dim).item())
+        # torch.rand can return 0, and hence boundary_face_rand can be -1.
+        boundary_face_index = min(
+            int((torch.abs(boundary_face_rand[i]) * x_dim).item()), x_dim - 1)
         samples_in_box[i, boundary_face_index] = lo[
             boundary_face_index] if boundary_face_rand[i] < 0 else hi[
                 boundary_face_index]
-- 
2.43.0


From 90085b5e80a98be4be4e9c63019fe20f189d23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:10 +0000
Subject: [PATCH 34/37] fix: store scalars, not one-element arrays, into the
 lift-off row of the SLIP apex map approximation

---
 neural_network_lyapunov/slip_hybrid_linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network_lyapunov/slip_hybrid_linear_system.py b/neural_network_lyapunov/slip_hybrid_linear_system.py
index 3ca0eb6..e3a39b0 100644
--- a/neural_network_lyapunov/slip_hybrid_linear_system.py
+++ b/neural_network_lyapunov/slip_hybrid_linear_system.py
@@ -82,9 +82,9 @@ class SlipHybridLinearSystem:
         # Now approximate the constraint that at liftoff, the vertical velocity
         # should be positive.
         P[1, :3] = -dx_post_lo_dx_apex[3, :]
-        P[1, 3] = -dx_post_lo_dleg_angle[3]
+        P[1, 3] = -dx_post_lo_dleg_angle[3, 0]
         q[1, 0] = x_post_lo[3] - dx_post_lo_dx_apex[3, :].dot(apex_state) -\
-            dx_post_lo_dleg_angle[3] * leg_angle
+            dx_post_lo_dleg_angle[3, 0] * leg_angle
         # Now approximate the constraint that the touchdown point is on the
         # stepping stone left ≤ x⁻_TD[0] + l₀sinθ ≤ right
         constraint_count = 2
-- 
2.43.0


From 2a162f5c831080f781a02fb0e3af31939107cad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:31 +0000
Subject: [PATCH 35/37] fix: partition_state_input_space rounded the cells to
 single precision

---
 neural_network_lyapunov/hybrid_linear_system.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neural_network_lyapunov/hybrid_linear_system.py b/neural_network_lyapunov/hybrid_linear_system.py
index c792dde..5f57a49 100644
--- a/neural_network_lyapunov/hybrid_linear_system.py
+++ b/neural_network_lyapunov/hybrid_linear_system.py
@@ -912,14 +912,16 @@ def partition_state_input_space(x_lo, x_up, u_lo, u_up, num_breaks_x,
     states_u_up = torch.Tensor(0, u_dim).type(dtype)
     for k in range(indices_cart_product.shape[0]):
         indices = indices_cart_product[k, :]
-        sample = torch.Tensor([
+        sample = torch.tensor([
             grid_samples[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        ],
+                              dtype=dtype)
         x_sample = sample[:x_dim]
         u_sample = sample[x_dim:x_dim + u_dim]
-        sample_limits = torch.Tensor([
+        sample_limits = torch.tensor([
             grid_limits[i][indices[i]] for i in range(x_dim + u_dim)
-        ]).type(dtype)
+        ],
+                                     dtype=dtype)
         sample_lo = sample_limits[:, 0]
         sample_up = sample_limits[:, 1]
         x_sample_lo = sample_lo[:x_dim] - x_delta_scaled
-- 
2.43.0


From 23f026c87e49c6993fd6df0109262111016a37c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:03 +0000
Subject: [PATCH 36/37] fix: continuous-time Lyapunov derivative accepts R=None
 (identity)

---
 neural_network_lyapunov/lyapunov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neural_network_lyapunov/lyapunov.py b/neural_network_lyapunov/lyapunov.py
index db7a588..0068723 100644
--- a/neural_network_lyapunov/lyapunov.py
+++ b/neural_network_lyapunov/lyapunov.py
@@ -496,6 +496,7 @@ class LyapunovHybridLinearSystem:
         gradient.
         """
         assert (x.shape == (self.system.x_dim, ))
+        R = _get_R(R, self.system.x_dim, x_equilibrium.device)
         dphidx = utils.relu_network_gradient(self.lyapunov_relu,
                                              x,
                                              zero_tol=zero_tol).squeeze(1)
-- 
2.43.0


From 97bd3e1ebb294363b6c1ccfffb03dd648144611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 37/37] fix: linear_program_cost with several active inequality
 constraints

---
 neural_network_lyapunov/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network_lyapunov/utils.py b/neural_network_lyapunov/utils.py
index bb72cef..3b1153e 100644
--- a/neural_network_lyapunov/utils.py
+++ b/neural_network_lyapunov/utils.py
@@ -894,7 +894,7 @@ def linear_program_cost(c, d, A_in, b_in, A_eq, b_eq):
     b_act = torch.empty((num_act, ), dtype=torch.float64)
     A_act[:num_eq, :] = A_eq
     b_act[:num_eq] = b_eq
-    active_in_indices = np.nonzero(active_in_flag)
+    active_in_indices = np.nonzero(active_in_flag)[0]
     for i in range(num_act - num_eq):
         A_act[i + num_eq] = A_in[active_in_indices[i]]
         b_act[i + num_eq] = b_in[active_in_indices[i]]
-- 
2.43.0


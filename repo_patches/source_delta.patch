From 37c872faf5be3f3ffa10c00158f8a5586c6bee94 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:15:32 +0000
Subject: [PATCH 01/32] fix: count both segments' quadrature weights at shared
 nodes in the running cost

---
 mpopt/mpopt.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..715d7d7 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -98,6 +98,7 @@ class mpopt:
         self.collocation = Collocation(self.poly_orders, scheme)
         self._compD = self.collocation.get_composite_differentiation_matrix()
         self._compW = self.collocation.get_composite_quadrature_weights()
+        self._quad_weights = self.collocation.get_quad_weight_matrices()
         self._taus = self.collocation.roots
         self.tau0, self.tau1 = self.collocation.tau0, self.collocation.tau1
         self._collocation_approximation_computed = True
@@ -186,6 +187,7 @@ class mpopt:
         dynamics = self._ocp.get_dynamics(phase)
         path_constraints = self._ocp.get_path_constraints(phase)
         running_costs = self._ocp.get_running_costs(phase)
+        quad_weights = self._quad_weights
         for index in range(self._Npoints):
             if point > self.poly_orders[seg]:
                 seg, point = seg + 1, 1
@@ -203,7 +205,19 @@ class mpopt:
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
             # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            # At a node shared by two segments, both segments contribute to the
+            # integral: weigh the two widths with the respective quadrature weights
+            h_cost = h_seg
+            if (point == self.poly_orders[seg]) and (seg < self.n_segments - 1):
+                w_end = quad_weights[self.poly_orders[seg]][-1]
+                w_start = quad_weights[self.poly_orders[seg + 1]][0]
+                h_next = (
+                    (tf - t0)
+                    / (self.tau1 - self.tau0)
+                    * self.seg_widths[seg + 1, phase]
+                )
+                h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)
+            q[index] = h_cost * ca.vertcat(running_costs(x, u, t, a)).T
 
             point += 1
             self.time_grid[phase][index] = t
@@ -4057,9 +4071,12 @@ class Collocation:
             tau1 = self.tau1
 
         quad_mats = self.get_quad_weight_matrices(poly_orders, tau0=tau0, tau1=tau1)
-        comp_quad_weights = ca.vertcat(
-            *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
-        ).T
+        n_nodes = sum(poly_orders) + 1
+        comp_quad_weights = ca.DM.zeros(1, n_nodes)
+        for i, p in enumerate(poly_orders):
+            # Nodes shared by two segments collect the weights of both segments
+            start = sum(poly_orders[:i])
+            comp_quad_weights[0, start : start + p + 1] += quad_mats[p].T
 
         return comp_quad_weights
 
-- 
2.43.0


From d737ac7bda02b4762f65f5e90e2d403f3d97fe71 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 02/32] fix: order the initial guess of multiple controls like
 the NLP variables

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 715d7d7..2342eae 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -699,7 +699,7 @@ class mpopt:
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3038,7 +3038,7 @@ class mpopt_adaptive(mpopt):
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From 4e43fefb0f0b45b412f35195b650a2df4d5a0e2f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:16:00 +0000
Subject: [PATCH 03/32] fix: unscale algebraic parameters element-wise in the
 post processor

---
 mpopt/mpopt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 2342eae..50afaa6 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1676,7 +1676,9 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
-            return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
+            # Parameters are stored in a column vector
+            a_opt = a_opt / np.reshape(scale_a, (-1, 1))
+            return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt)
 
         return (x_opt, u_opt, t_opt, a_opt)
 
-- 
2.43.0


From 8bda6bd64eb014e1c2bacb675753e24c95ce1bb0 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 04/32] fix: exclude only the end nodes of the phase from the
 fixed residual grid

---
 mpopt/mpopt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 50afaa6..6416a22 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1194,7 +1194,8 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
+            # Exclude the end node of the phase (last node in the last segment)
+            taus_on_original_grid[-1] = taus_on_original_grid[-1][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
@@ -1230,6 +1231,8 @@ class mpopt:
         """
         cumulative_sw = np.append(0, np.cumsum(seg_widths))
         assert abs(cumulative_sw[-1] - 1) < 1e-6
+        # Terminal node is not lost due to the round-off in the summation
+        cumulative_sw[-1] = 1.0
         n_segments = len(seg_widths)
 
         # Scale nodes_req between 0 & 1
-- 
2.43.0


From 188b470a7fedd5e3ec1f4d61da0c2ead32f6366a Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 05/32] fix: honour the residual grid type of each phase

---
 mpopt/mpopt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6416a22..ec84b44 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1326,9 +1326,7 @@ class mpopt:
         if nodes is None:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
-            target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
-            )
+            target_nodes = self.get_residual_grid_taus(phase=phase, grid_type=grid_type)
         else:
             target_nodes = nodes
         ti = self.get_interpolated_time_grid(
@@ -1403,9 +1401,10 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
-                target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
+                target_nodes = self.get_residual_grid_taus(
+                    phase,
+                    grid_type=self.grid_type[phase] if grid_type is None else grid_type,
+                )
             else:
                 target_nodes = nodes[phase]
 
-- 
2.43.0


From 7b1dc8c913d8b3f20bc3288afb844dac2e2af0d8 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:16:49 +0000
Subject: [PATCH 06/32] fix: equal-area segment widths always sum to one

---
 mpopt/mpopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index ec84b44..9f367de 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2660,6 +2660,10 @@ class mpopt_h_adaptive(mpopt):
         cumulative_area = cumulative_area / cumulative_area[-1]
         seg_widths_cumulative = [None] * n_segments
         for i in range(n_segments):
+            if i == n_segments - 1:
+                # Last segment always ends at the end of the phase
+                seg_widths_cumulative[i] = 1.0
+                break
             ind_j = (cumulative_area >= (i + 1) / n_segments).argmax()
             seg_widths_cumulative[i] = (
                 ind_j
-- 
2.43.0


From 979acd52626a60ff64badd0fed04c4d4762aa5bb Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:17:03 +0000
Subject: [PATCH 07/32] fix: h-adaptive solve no longer modifies the option
 dictionaries

---
 mpopt/mpopt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 9f367de..6a50bc4 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2384,13 +2384,13 @@ class mpopt_h_adaptive(mpopt):
 
         start_time = time.monotonic()
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
-            if "ipopt.print_level" not in nlp_solver_options:
-                nlp_solver_options["ipopt.print_level"] = 0
             self.create_solver(solver=solver, options=nlp_solver_options)
 
         if mpopt_options == {}:
-            mpopt_options["method"] = self._DEFAULT_METHOD
-            mpopt_options["sub_method"] = self._DEFAULT_SUB_METHOD
+            mpopt_options = {
+                "method": self._DEFAULT_METHOD,
+                "sub_method": self._DEFAULT_SUB_METHOD,
+            }
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
-- 
2.43.0


From af6f26fda4d77e77cf44b647ba9e16cf29789e17 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 08/32] fix: keep state residuals when dynamics residuals are
 not requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 6a50bc4..65a0dcc 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -935,7 +935,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
@@ -3337,7 +3337,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        if not resid_value:
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From ed1c3e81c26478187763cc99c2815866e1a30acc Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 09/32] fix: plot residuals of phases with different number of
 points

---
 mpopt/mpopt.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 65a0dcc..e1be56a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2233,16 +2233,12 @@ class post_process:
                 for err in residual
             ]
         )
-        t, r = time[0], norm_residual(residuals[0])
-        if len(phases) > 1:
-            for phase in phases[1:]:
-                tp, rp = time[phase], norm_residual(residuals[phase])
-                r = np.vstack((r, rp))
-                t = np.vstack((t, tp))
-
-            r = np.concatenate(r)
-
-        t = np.concatenate(t)
+        # Phases are given as indices or as tuples of indices (phases_to_plot)
+        phases = np.concatenate([np.atleast_1d(phase) for phase in phases])
+        t = np.concatenate(
+            [t_seg for phase in phases for t_seg in time[phase] if t_seg is not None]
+        )
+        r = np.concatenate([norm_residual(residuals[phase]) for phase in phases])
         r = r.reshape(t.shape[0], 1)
         return (r, t)
 
-- 
2.43.0


From 719bd3d3aba2682500d195acdb97177808e7b61d Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:17:42 +0000
Subject: [PATCH 10/32] fix: relative dynamics residual may exceed one

---
 mpopt/mpopt.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e1be56a..1a1f981 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1432,7 +1432,6 @@ class mpopt:
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-                        assert abs(residuals[phase][seg]).max() <= 1
 
         if plot:
             fig, axs = post_process.plot_residuals(
-- 
2.43.0


From ce17bd410b996693f849f925810fad24e12fda2f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 11/32] fix: relative residual of a state with zero magnitude

---
 mpopt/mpopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 1a1f981..e123fd5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1151,6 +1151,8 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                # Residual of a state with zero magnitude can not be scaled
+                max_val[max_val == 0] = 1.0
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
@@ -1429,6 +1431,8 @@ class mpopt:
                                 if max_val[id] > seg_max[id]
                                 else seg_max[id]
                             )
+                # Residual of a state with zero magnitude can not be scaled
+                max_val[max_val == 0] = 1.0
                 for seg, res_seg in enumerate(residuals[phase]):
                     if res_seg is not None:
                         residuals[phase][seg] = np.array(res_seg) / max_val
-- 
2.43.0


From b06169dab8ba43df2962c29be3c69f9f3cc88aa8 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 12/32] fix: bound the control slope in time

---
 mpopt/mpopt.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e123fd5..991e115 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -327,12 +327,24 @@ class mpopt:
         """
         # Estimate constraint vector and bounds for the collocated constraint on slope of control input
         if self._ocp.diff_u[phase]:
-            _compDU = (
-                ca.kron(ca.DM.eye(self._ocp.nu), self._compD)
-                if self._ocp.nu > 1
-                else self._compD
+            # Width (in time) of the segment at each node, unscaled
+            h_seg = (
+                (self.tf[phase] - self.t0[phase])
+                / self._ocp.scale_t
+                / (self.tau1 - self.tau0)
+                * self.seg_widths[:, phase]
             )
-            DU = ca.mtimes(_compDU, self.U[phase][:])
+            h = ca.vertcat(
+                h_seg[0],
+                *[
+                    h_seg[seg]
+                    for seg, p in enumerate(self.poly_orders)
+                    for _ in range(p)
+                ],
+            )
+            # Slope is computed with respect to time, for unscaled control input
+            DU = ca.mtimes(self._compD, ca.mtimes(self.U[phase], self.__invScU))
+            DU = ca.vec(DU / ca.repmat(h, 1, self._ocp.nu))
             nDu = DU.size1()
             DUmin = [self._ocp.lbdu[phase]] * (nDu)
             DUmax = [self._ocp.ubdu[phase]] * (nDu)
-- 
2.43.0


From a8a5c8a48d2f2043b7359ddd32b97864780d6f1f Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:18:25 +0000
Subject: [PATCH 13/32] fix: control slope continuity across segments of
 unequal width

---
 mpopt/mpopt.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 991e115..e27f373 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -426,12 +426,12 @@ class mpopt:
         comp_interpolation_D = self.collocation.get_composite_interpolation_Dmatrix_at(
             taus_end, self.poly_orders, order=1
         )
-        _compD = comp_interpolation_D[1:-1][::2] - comp_interpolation_D[2:-1][::2]
+        dU_end = ca.mtimes(comp_interpolation_D[1:-1][::2], self.U[phase])
+        dU_start = ca.mtimes(comp_interpolation_D[2:-1][::2], self.U[phase])
 
-        _compDU = (
-            ca.kron(ca.DM.eye(self._ocp.nu), _compD) if self._ocp.nu > 1 else _compD
-        )
-        dU = ca.mtimes(_compDU, self.U[phase][:])
+        # Slopes are compared in time, hence the widths of the adjacent segments
+        h_seg = ca.repmat(self.seg_widths[:, phase], 1, self._ocp.nu)
+        dU = ca.vec(dU_end * h_seg[1:, :] - dU_start * h_seg[:-1, :])
         nDu = dU.size1()
         dUmin = [0] * (nDu)
         dUmax = [0] * (nDu)
-- 
2.43.0


From b7208e7c552d503da73c9f9150d2bba8f483f19d Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:18:39 +0000
Subject: [PATCH 14/32] fix: apply control slope continuity in mpopt_adaptive

---
 mpopt/mpopt.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e27f373..894f748 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3193,6 +3193,12 @@ class mpopt_adaptive(mpopt):
         ) = self.get_nlp_constraints_for_terminal_contraints(phase)
         (DU, DUmin, DUmax) = self.get_nlp_constraints_for_control_input_slope(phase)
 
+        (
+            dU,
+            dUmin,
+            dUmax,
+        ) = self.get_nlp_constrains_for_control_slope_continuity_across_segments(phase)
+
         # Constraints related to segment widths
         (SW, SWmin, SWmax) = self.get_nlp_constrains_for_segment_widths(phase)
 
@@ -3200,9 +3206,9 @@ class mpopt_adaptive(mpopt):
         J = mayer_term + ca.mtimes(self._compW, ca.vertcat(*q))
 
         # Merge constraint vectors into sigle constraint vector
-        G = ca.vertcat(*[F, C, DU, TC, SW])
-        Gmin = np.concatenate([Fmin, Cmin, DUmin, TCmin, SWmin])
-        Gmax = np.concatenate([Fmax, Cmax, DUmax, TCmax, SWmax])
+        G = ca.vertcat(*[F, C, DU, dU, TC, SW])
+        Gmin = np.concatenate([Fmin, Cmin, DUmin, dUmin, TCmin, SWmin])
+        Gmax = np.concatenate([Fmax, Cmax, DUmax, dUmax, TCmax, SWmax])
 
         return (G, Gmin, Gmax, J)
 
-- 
2.43.0


From 137f963f3b76abd7f4ff55e9b1e37852a61e7abd Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:18:54 +0000
Subject: [PATCH 15/32] fix: default control slope bounds are floats

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 894f748..c06fa0c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3516,8 +3516,8 @@ class OCP:
 
         # Slope has_constraints
         self.diff_u = np.array([0] * self.n_phases)
-        self.lbdu = np.array([-15 for _ in range(self.n_phases)])
-        self.ubdu = np.array([15 for _ in range(self.n_phases)])
+        self.lbdu = np.array([-15.0 for _ in range(self.n_phases)])
+        self.ubdu = np.array([15.0 for _ in range(self.n_phases)])
 
         # Constrains on control input at mid point of collocation nodes
         # Enabled by default
-- 
2.43.0


From 7425170502188dd1414a3c66ad59e3bb3789eaf6 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:19:09 +0000
Subject: [PATCH 16/32] fix: remove undefined variable in solve_ph

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c06fa0c..71f2c88 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4478,8 +4478,6 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
-- 
2.43.0


From 7eefecc9d1e06abb987a1c36cd6683fb089e92e3 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 19:19:24 +0000
Subject: [PATCH 17/32] fix: control-slope refinement selects the steepest
 slopes

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 71f2c88..dc42320 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2861,7 +2861,7 @@ class mpopt_h_adaptive(mpopt):
         # du_grid = np.interp(t_grid, t_orig, du_max)
 
         t_du = [i for i in zip(t_orig[1:-1], du_max[1:-1]) if i[1] >= threshold]
-        t_du.sort(key=lambda t: t[1])
+        t_du.sort(key=lambda t: t[1], reverse=True)
         if len(t_du) > 0:
             times = np.array(t_du)[:, 0]
         else:
@@ -2877,7 +2877,7 @@ class mpopt_h_adaptive(mpopt):
         n_points_available = len(times)
         segment_widths = [None] * n_segments
         if n_points_available > (n_segments - 2):
-            times = times[:n_segments]
+            times = times[: n_segments - 1]
             times.sort()
             segment_widths[0] = times[0] - t0
             for i in range(1, n_segments - 1):
-- 
2.43.0


From 24cb94e429f1bba3d75b5ba7a6134d61a7e6ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 18/32] fix: solve_ph solves on the refined segment widths

---
 mpopt/mpopt.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index dc42320..e1ca3b5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4485,9 +4485,14 @@ class mpopt_ph_adaptive(mpopt):
             if iter_no > 0:
                 # Update Mesh for the next iteration
                 self._nlp_sw_params = np.hstack(nlp_sw_params)
-                solve_dict["nlp_sw_params"] = self._nlp_sw_params
+                # Refined widths are passed on to the solver, options are not modified
+                solve_dict = dict(solve_dict)
+                solve_dict["mpopt_options"] = dict(
+                    solve_dict.get("mpopt_options", {}),
+                    nlp_sw_params=self._nlp_sw_params,
+                )
                 self.poly_orders = np.hstack(poly_orders)
-                self.n_segments = self._nlp_sw_params.shape[0]
+                self.n_segments = len(self.poly_orders)
 
             # ************************** Sparse solution ********************
             # Step 1 : Solve the problem on initial mesh (Sparse for reference)
@@ -4592,9 +4597,9 @@ class mpopt_ph_adaptive(mpopt):
 
             abs_max_residual = 0
             # Find non-smooth segments where residual is more than the required tolerence
+            # Segments are common to all phases, widths of the segments are not
+            split_seg = [False] * self.n_segments
             for i_phase, max_r_phase in enumerate(max_residual_new):
-                poly_orders = []
-                nlp_sw_params = []
                 max_seg_residual = np.array(max_r_phase)[:, 1].max(axis=1)
                 if max_seg_residual.max() > abs_max_residual:
                     abs_max_residual = max_seg_residual.max()
@@ -4607,11 +4612,7 @@ class mpopt_ph_adaptive(mpopt):
                         ).any()
                     ):
                         # Split i_seg in additional segments based on desired residual
-                        new_segments = 2
-                        nlp_sw_params.append(
-                            [self._nlp_sw_params[i_seg] / new_segments] * new_segments
-                        )
-                        poly_orders.append([self.poly_orders[i_seg]] * new_segments)
+                        split_seg[i_seg] = True
 
                         # max_residual_seg = residual_r[phase][seg].max()
                         # max_residual_seg_sparse = residual_rs[phase][seg].max()
@@ -4627,10 +4628,16 @@ class mpopt_ph_adaptive(mpopt):
                         # )
                         # n_splits = min(np.ceil(1 / seg_width_new), n_splits_max)
                         # seg_refine_phase[phase][seg] = n_splits
-                    else:
-                        # The solution is smooth and the residual is higher than the required tolerance.
-                        # Increase the order of polynomial
-                        poly_orders.append(self.poly_orders[i_seg])
-                        nlp_sw_params.append(self._nlp_sw_params[i_seg])
+            # Segments which are not split: The solution is smooth and the order of
+            # the polynomial is already increased
+            new_segments = [2 if split else 1 for split in split_seg]
+            poly_orders = [
+                [self.poly_orders[i_seg]] * n for i_seg, n in enumerate(new_segments)
+            ]
+            nlp_sw_params = [
+                [self._nlp_sw_params[self.n_segments * phase + i_seg] / n] * n
+                for phase in range(self._ocp.n_phases)
+                for i_seg, n in enumerate(new_segments)
+            ]
 
         return solution_new
-- 
2.43.0


From 1068aee4e0ab38ca0a56ef6edde09ac70c2e950f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 19/32] fix: solve_ph refines until every phase is within
 tolerance

---
 mpopt/mpopt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e1ca3b5..3697fb8 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4523,11 +4523,12 @@ class mpopt_ph_adaptive(mpopt):
                 if status.any():
                     # This phase needs refinement, increase the order of the polynomial by 3 for next iteration
                     poly_orders = [
-                        self.poly_orders[i] + 3 * int(st) for i, st in enumerate(status)
+                        max(poly_orders[i], self.poly_orders[i] + 3 * int(st))
+                        for i, st in enumerate(status)
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution
 
             # Compute reduction in mesh size
@@ -4592,7 +4593,7 @@ class mpopt_ph_adaptive(mpopt):
                     ]
                     refine_phase[i_phase] = True
 
-            if not np.array(refine_phase).all():
+            if not np.array(refine_phase).any():
                 return solution_new
 
             abs_max_residual = 0
@@ -4604,6 +4605,8 @@ class mpopt_ph_adaptive(mpopt):
                 if max_seg_residual.max() > abs_max_residual:
                     abs_max_residual = max_seg_residual.max()
                 status = max_seg_residual > self.max_residual
+                if not refine_phase[i_phase]:
+                    continue
                 for i_seg, st in enumerate(status):
                     if (
                         st
-- 
2.43.0


From 3e09c826285f2ccc6c037d0da620633b96f68024 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 20/32] fix: solve_ph respects the limit on the number of
 segments

---
 mpopt/mpopt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3697fb8..fa16745 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4610,6 +4610,7 @@ class mpopt_ph_adaptive(mpopt):
                 for i_seg, st in enumerate(status):
                     if (
                         st
+                        and self.n_segments + sum(split_seg) < self.max_segments
                         and (
                             dd_max_phase[i_phase][i_seg] > self.non_smooth_threshold
                         ).any()
-- 
2.43.0


From 0d593e53919254848d70c8d596af60a3e822743f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 21/32] fix: mid-point constraints of a single collocation
 interval

---
 mpopt/mpopt.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index fa16745..4c38e2a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -389,7 +389,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3100,7 +3100,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3109,7 +3109,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3149,9 +3149,8 @@ class mpopt_adaptive(mpopt):
                 start, end = sum(n_taus[:seg]), sum(n_taus[: (seg + 1)])
                 if start == end:
                     continue
-                residual_phase[seg] = (
-                    self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                residual_phase[seg] = self.seg_widths[seg, phase] * ca.vec(
+                    Dxi[start:end, :] - ca.vertcat(*f)
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From 7e0bc6d1fbd43afa6927c7bb827abe61955909c1 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 22/32] fix: h-adaptive solve accepts an initial solution
 without cost or given as x0

---
 mpopt/mpopt.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4c38e2a..37036a3 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2405,6 +2405,10 @@ class mpopt_h_adaptive(mpopt):
 
         self.iter_count, self.iter_info = 0, dict()
         sw_old = []
+        if initial_solution is not None and "x" not in initial_solution:
+            # Initial values may be given as x0 as well
+            x0 = self.get_solver_warm_start_input_parameters(initial_solution)["x0"]
+            initial_solution = dict(initial_solution, x=x0)
         new_nlp_sw_params, max_error = self.get_segment_width_parameters(
             initial_solution, options=mpopt_options
         )
@@ -2492,7 +2496,7 @@ class mpopt_h_adaptive(mpopt):
         print(f"H-Adaptive Iter., max_residual : {self.iter_count}, {max_error}")
 
         if not self._MUTE_:
-            print(" Optimal cost (J): ", solution["f"], "\n")
+            print(" Optimal cost (J): ", solution.get("f"), "\n")
             print(f" Solved in {round((end_time - start_time)*1e3, 3)} ms\n")
             # print(f"\n *********** H-adaptive End ********** \n")
 
-- 
2.43.0


From 9c6879d32d985f1bb323825a3b9f5967ea039122 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 23/32] fix: symbolic quadrature weights over an empty interval

---
 mpopt/mpopt.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 37036a3..1074e1c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3908,11 +3908,19 @@ class Collocation:
         quad_weights = ca.DM.zeros(n)
         for i in range(n):
             if self.D_MATRIX_METHOD == "symbolic":
+                # Integrate over the unit interval: [tau0, tau1] can be empty
+                poly = ca.substitute(
+                    self.polys[key][i], self.TVAR, tau0 + (tau1 - tau0) * self.TVAR
+                )
                 pint = ca.integrator(
                     "pint",
                     "idas",
-                    {"x": ca.SX.sym("x"), "t": self.TVAR, "ode": self.polys[key][i]},
-                    {"t0": tau0, "tf": tau1},
+                    {
+                        "x": ca.SX.sym("x"),
+                        "t": self.TVAR,
+                        "ode": (tau1 - tau0) * poly,
+                    },
+                    {"t0": 0, "tf": 1},
                 )
                 quad_weights[i] = pint(x0=0)[
                     "xf"
-- 
2.43.0


From ae79108bb9cb9bc045e5877c12c666f79cb5eff6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 24/32] fix: solve_ph with segments without residual grid
 points

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 1074e1c..3e02c1a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4465,6 +4465,9 @@ class mpopt_ph_adaptive(mpopt):
         for i_phase, r_phase in enumerate(residual):
             max_r_phase = [None] * len(r_phase)
             for i_seg, r_seg in enumerate(r_phase):
+                if r_seg is None:
+                    # No point of the residual grid lies in this segment
+                    r_seg = np.zeros_like(next(r for r in r_phase if r is not None))
                 r_max_seg = abs(np.array(r_seg)).max(axis=0)
                 i_max_seg = abs(np.array(r_seg)).argmax(axis=0)
                 max_r_phase[i_seg] = [i_max_seg, r_max_seg]
-- 
2.43.0


From 7e15604c18b76dd649502906c6a044acecde082b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 25/32] fix: plot second derivatives of problems with several
 states

---
 mpopt/mpopt.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 3e02c1a..084034c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2244,14 +2244,21 @@ class post_process:
         """Sort the given data corresponding to plases"""
         norm_residual = lambda residual: np.concatenate(
             [
-                np.linalg.norm(np.array(err), 2, axis=1) if err is not None else []
+                np.linalg.norm(np.array(err).reshape(len(err), -1), 2, axis=1)
+                if err is not None
+                else []
                 for err in residual
             ]
         )
         # Phases are given as indices or as tuples of indices (phases_to_plot)
         phases = np.concatenate([np.atleast_1d(phase) for phase in phases])
         t = np.concatenate(
-            [t_seg for phase in phases for t_seg in time[phase] if t_seg is not None]
+            [
+                np.ravel(t_seg)
+                for phase in phases
+                for t_seg in time[phase]
+                if t_seg is not None
+            ]
         )
         r = np.concatenate([norm_residual(residuals[phase]) for phase in phases])
         r = r.reshape(t.shape[0], 1)
-- 
2.43.0


From 8dd35548191e40b213d169a0079e2c07cea3af77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:15:08 +0000
Subject: [PATCH 26/32] fix: plot state residuals of the requested phases only

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 084034c..c3b63f7 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1172,7 +1172,7 @@ class mpopt:
 
         if plot:
             fig, axs = post_process.plot_residuals(
-                ti, residuals, phases=range(self._ocp.n_phases), fig=fig, axs=axs
+                ti, residuals, phases=phases, fig=fig, axs=axs
             )
 
         return x_int, u_int, ti, residuals
-- 
2.43.0


From a3b56d171c8599d0a87a99c2c3db4196f2f48f73 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:15:28 +0000
Subject: [PATCH 27/32] fix: plot any number of states and controls

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c3b63f7..4af5c4b 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2196,7 +2196,7 @@ class post_process:
             state_index = i + 1 if legend_index is None else legend_index[i]
             # state_index = ""  # if legend_index is None else legend_index[i]
             label = f"{name} {state_index}" if name is not None else name
-            ax.plot(t, x[:, i], tics[i], label=label)
+            ax.plot(t, x[:, i], tics[i % len(tics)], label=label)
         ax.set(ylabel=ylabel)
         if name is not None:
             ax.legend()
-- 
2.43.0


From e3dd0ff383f76e342d9939c72207c59ac487100f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 28/32] fix: plot residuals of segments with different numbers
 of points

---
 mpopt/mpopt.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4af5c4b..bff8951 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1959,7 +1959,7 @@ class post_process:
                         if r_seg is not None
                     ]
 
-                    x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
+                    x_data = self.stack_segments(self.residuals["t_x"][0])
                     y_data = np.concatenate(y_data)
 
                     ax2 = plt.subplot(2, 2, 2)
@@ -1974,7 +1974,7 @@ class post_process:
                         if r_seg is not None
                     ]
 
-                    x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
+                    x_data = self.stack_segments(self.residuals["t_dx"][0])
                     y_data = np.concatenate(y_data)
 
                     self.plot_curve(
@@ -1992,7 +1992,7 @@ class post_process:
                             if r_seg is not None
                         ]
 
-                        x_data = np.hstack(np.concatenate(self.residuals["t_x"][0]))
+                        x_data = self.stack_segments(self.residuals["t_x"][0])
                         y_data = np.concatenate(y_data)
 
                         self.plot_curve(
@@ -2000,13 +2000,13 @@ class post_process:
                         )
                     else:
                         y_data = [
-                            np.concatenate(
-                                [r_seg for r_seg in r_p if r_seg is not None]
-                            )
+                            r_seg
                             for r_p in self.residuals["t_dx"][1]
+                            for r_seg in r_p
+                            if r_seg is not None
                         ]
 
-                        x_data = np.hstack(np.concatenate(self.residuals["t_dx"][0]))
+                        x_data = self.stack_segments(self.residuals["t_dx"][0])
                         y_data = np.concatenate(y_data)
 
                         self.plot_curve(
@@ -2239,6 +2239,18 @@ class post_process:
 
         return fig, axs
 
+    @staticmethod
+    def stack_segments(time):
+        """Times of all the segments of all the phases in a single array"""
+        return np.concatenate(
+            [
+                np.ravel(t_seg)
+                for t_phase in time
+                for t_seg in t_phase
+                if t_seg is not None
+            ]
+        )
+
     @staticmethod
     def sort_residual_data(time, residuals, phases: List = [0]):
         """Sort the given data corresponding to plases"""
-- 
2.43.0


From 794f5fec5496c7af9a5b5d45987d1cfd06ea54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 29/32] fix: initial guess is finite when the guessed start and
 final time are equal

The interpolation divided by tf0 - t00, the guess was NaN for a phase whose
guessed times coincide (ex. t00 = 1 with the default tf0 = 1).
---
 mpopt/mpopt.py | 32 ++++++++------------------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index bff8951..d71bbc3 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -691,12 +691,8 @@ class mpopt:
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
@@ -704,12 +700,8 @@ class mpopt:
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
@@ -3060,12 +3052,8 @@ class mpopt_adaptive(mpopt):
         z0[0] = np.concatenate(
             np.array(
                 [
-                    x00 + (xf0 - x00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    x00 + (xf0 - x00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
@@ -3073,12 +3061,8 @@ class mpopt_adaptive(mpopt):
         z0[1] = np.concatenate(
             np.array(
                 [
-                    u00 + (uf0 - u00) / (tf0 - t00) * (t - t00)
-                    for t in np.linspace(
-                        t00,
-                        tf0,
-                        self._Npoints,
-                    )
+                    u00 + (uf0 - u00) * s
+                    for s in np.linspace(0.0, 1.0, self._Npoints)
                 ]
             ).T
         )
-- 
2.43.0


From cf474179996c751936ec2e2afb4dc1de0d6d9d44 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 00:47:34 +0000
Subject: [PATCH 30/32] fix: plot_phase returns the figure and axes

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d71bbc3..d7bc1a2 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1896,6 +1896,8 @@ class post_process:
         """
         fig, axs = self.plot_phases([phase], interpolate, fig=fig, axs=axs)
 
+        return fig, axs
+
     def plot_phases(
         self,
         phases: List = None,
-- 
2.43.0


From 4d8e6b9c4579f55a74ee539ec2d64836f747f970 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 02:03:55 +0000
Subject: [PATCH 31/32] fix: plots accept an array of axes without its figure

---
 mpopt/mpopt.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d7bc1a2..e058042 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2152,7 +2152,7 @@ class post_process:
         if tics is None:
             tics = self.__TICS
         n = len(dims) if isinstance(dims[0], list) else 1
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             if axis == 1:
                 fig, axs = plt.subplots(n, 1, sharex=True)
             else:
@@ -2224,7 +2224,7 @@ class post_process:
         """
         if tics is None:
             tics = self.__TICS
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             fig, axs = plt.subplots(2, 1, sharex=True)
         name_x, name_u = (name + "state", name + "control") if legend else (None, None)
         self.plot_curve(axs[0], x, t, name_x, "State variables", tics=tics)
@@ -2284,7 +2284,7 @@ class post_process:
         """Plot residual in dynamics"""
         if tics is None:
             tics = self.__TICS
-        if (fig == None) and (axs == None):
+        if (fig is None) and (axs is None):
             fig, axs = plt.subplots(1, 1)
 
         r, t = self.sort_residual_data(time, residuals, phases=phases)
-- 
2.43.0


From b63443d0881d78dc7d924387eaeafbb8ed0c4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 32/32] fix: solve_ph uses a given initial solution on the
 initial mesh only

---
 mpopt/mpopt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index e058042..b14d902 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4518,6 +4518,9 @@ class mpopt_ph_adaptive(mpopt):
 
             self.reset_mpopt()
             solution = self.solve(reinitialize_nlp=True, **solve_dict)
+            # Given initial solution corresponds to the initial mesh only
+            solve_dict = dict(solve_dict)
+            solve_dict.pop("initial_solution", None)
             # Mesh points in time in each segment of a given phase
             # taus = np.array([self.collocation._taus_fn(deg) for deg in self.poly_orders])
             # taus = [taus for phase in range(self._ocp.n_phases)]
-- 
2.43.0


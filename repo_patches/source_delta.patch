From 1ff5e062d12583cd509a659ae344ca31931647e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 01/20] fix: composite quadrature keeps the weights of the
 first node of each segment

The first quadrature weight of every segment after the first was dropped, so
weights summed to less than the integration length for LGL, CGL and linear
segments.
---
 mpopt/mpopt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index c6a4bd6..bcf66c6 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4057,9 +4057,11 @@ class Collocation:
             tau1 = self.tau1
 
         quad_mats = self.get_quad_weight_matrices(poly_orders, tau0=tau0, tau1=tau1)
-        comp_quad_weights = ca.vertcat(
-            *([quad_mats[poly_orders[0]][0]] + [quad_mats[p][1:] for p in poly_orders])
-        ).T
+        # Nodes shared by consecutive segments collect the weights of both segments
+        comp_quad_weights = ca.DM.zeros((1, sum(poly_orders) + 1))
+        for i, p in enumerate(poly_orders):
+            start = sum(poly_orders[:i])
+            comp_quad_weights[0, start : start + (1 + p)] += quad_mats[p].T
 
         return comp_quad_weights
 
-- 
2.43.0


From 5bccf0c2c0cbdf3a907320f6e1277a39b0988ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 02/20] fix: running cost at a node shared by two segments uses
 both segment widths

The time factor of the preceding segment was used for both, so the running
cost was integrated wrongly when adjacent segments have different widths.
---
 mpopt/mpopt.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index bcf66c6..93871e0 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -98,6 +98,7 @@ class mpopt:
         self.collocation = Collocation(self.poly_orders, scheme)
         self._compD = self.collocation.get_composite_differentiation_matrix()
         self._compW = self.collocation.get_composite_quadrature_weights()
+        self._quad_weights = self.collocation.get_quad_weight_matrices()
         self._taus = self.collocation.roots
         self.tau0, self.tau1 = self.collocation.tau0, self.collocation.tau1
         self._collocation_approximation_computed = True
@@ -203,7 +204,19 @@ class mpopt:
             if has_constraints:
                 c[index] = ca.vertcat(*path_constraints(x, u, t, a)).T
             # running cost
-            q[index] = h_seg * ca.vertcat(running_costs(x, u, t, a)).T
+            h_cost = h_seg
+            if point == self.poly_orders[seg] and seg + 1 < self.n_segments:
+                # Node shared by two segments: combine both time factors in
+                # proportion to the respective quadrature weights
+                w_end = self._quad_weights[self.poly_orders[seg]][-1]
+                w_start = self._quad_weights[self.poly_orders[seg + 1]][0]
+                h_next = (
+                    (tf - t0)
+                    / (self.tau1 - self.tau0)
+                    * self.seg_widths[seg + 1, phase]
+                )
+                h_cost = (w_end * h_seg + w_start * h_next) / (w_end + w_start)
+            q[index] = h_cost * ca.vertcat(running_costs(x, u, t, a)).T
 
             point += 1
             self.time_grid[phase][index] = t
-- 
2.43.0


From 50e0530972bacee4968f460eee8d3bf63ed57cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 03/20] fix: initial guess of controls follows the decision
 vector layout

With more than one control the guess was ordered node by node while the
decision vector is ordered control by control.
---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 93871e0..739df3d 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -698,7 +698,7 @@ class mpopt:
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
 
@@ -3037,7 +3037,7 @@ class mpopt_adaptive(mpopt):
                         self._Npoints,
                     )
                 ]
-            )
+            ).T
         )
         z0[2], z0[3], z0[4] = t00, tf0, a0
         z0[5] = [1.0 / self.n_segments] * self.n_segments
-- 
2.43.0


From 761095a1e9872b18ceb726737f0ded558afbaca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 04/20] fix: unscale parameters component-wise in
 post-processing

With two or more parameters the column of parameters was broadcast against
the scaling vector into a matrix.
---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 739df3d..8436513 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1675,7 +1675,7 @@ class post_process:
             scale_u = self.options["scale_u"] if "scale_u" in self.options else 1.0
             scale_a = self.options["scale_a"] if "scale_a" in self.options else 1.0
 
-            return (x_opt / scale_x, u_opt / scale_u, t_opt, a_opt / scale_a)
+            return (x_opt / scale_x, u_opt / scale_u, t_opt, (a_opt.T / scale_a).T)
 
         return (x_opt, u_opt, t_opt, a_opt)
 
-- 
2.43.0


From 6d8c75cd3e829f16f8362a2bbcea342bb0ae4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 05/20] fix: count each phase's parameters once in the number
 of variables per phase

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 8436513..5a746a4 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -130,7 +130,7 @@ class mpopt:
 
         self._optimization_vars_per_phase = (
             self._Npoints * (self._ocp.nx + self._ocp.nu)
-            + self._ocp.n_phases * self._ocp.na
+            + self._ocp.na
             + 2
         )
 
-- 
2.43.0


From e965c53afa7b9c7af8e89e84d082d5311b517ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 06/20] fix: uniform residual grid excludes the end of the
 phase, not an interior node

The last node belongs to the last segment; the last node of the first segment
was removed instead.
---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 5a746a4..d83a015 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1193,7 +1193,7 @@ class mpopt:
                     tau1=self.tau1,
                 )
             )
-            taus_on_original_grid[0] = taus_on_original_grid[0][:-1]
+            taus_on_original_grid[-1] = taus_on_original_grid[-1][:-1]
         elif grid_type == "mid-points":
             mid_points = lambda x: np.array(
                 [(x[i] + x[i + 1]) / 2.0 for i in range(len(x) - 1)]
-- 
2.43.0


From 26eb1060256c57ccd8a8cf091f54358c01bbf3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 07/20] fix: nodes at the end of the phase are not lost to
 round-off in segment widths

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d83a015..d469b99 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1229,6 +1229,8 @@ class mpopt:
         """
         cumulative_sw = np.append(0, np.cumsum(seg_widths))
         assert abs(cumulative_sw[-1] - 1) < 1e-6
+        # Last segment ends at the end of the phase, irrespective of round-off
+        cumulative_sw[-1] = 1
         n_segments = len(seg_widths)
 
         # Scale nodes_req between 0 & 1
-- 
2.43.0


From 7721a7308356fb413da9838cc3b841d45ee3676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 08/20] fix: dynamics residuals use each phase's own grid type

The grid type of the first phase was used for all later phases.
---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index d469b99..1be03af 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1401,8 +1401,6 @@ class mpopt:
         residuals, ti = [None] * self._ocp.n_phases, [None] * self._ocp.n_phases
         for phase in range(self._ocp.n_phases):
             if nodes is None:
-                if grid_type is None:
-                    grid_type = self.grid_type[phase]
                 target_nodes = self.get_residual_grid_taus(phase, grid_type=grid_type)
             else:
                 target_nodes = nodes[phase]
-- 
2.43.0


From e2a27ad3d206497c9a8b222a35ad2b72d8c797a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 09/20] fix: second derivatives are evaluated on the requested
 grid type

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 1be03af..7555b78 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -1325,7 +1325,7 @@ class mpopt:
             if grid_type is None:
                 grid_type = self.grid_type[phase]
             target_nodes = self.get_residual_grid_taus(
-                phase=phase, grid_type=self.grid_type[phase]
+                phase=phase, grid_type=grid_type
             )
         else:
             target_nodes = nodes
-- 
2.43.0


From 9706076d1c19a9bda74c772393ce131d168c1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 10/20] fix: state residuals are kept when dynamics residuals
 are not requested

---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 7555b78..bb55db5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -934,7 +934,7 @@ class mpopt:
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        elif not residual_x:
             resid_value = None
 
         r_time = time.monotonic()
@@ -3328,7 +3328,7 @@ class mpopt_adaptive(mpopt):
             tdx, res_dx = self.get_dynamics_residuals(solution)
             resid_value["t_dx"] = [tdx, res_dx]
             rdx_time = time.monotonic()
-        else:
+        elif not residual_x:
             resid_value = None
 
         r_time = time.monotonic()
-- 
2.43.0


From a02bc463b353453c8a84d3346619effb38be3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 11/20] fix: control slope limits accept fractional values

The defaults were integer arrays, so user-set limits were truncated.
---
 mpopt/mpopt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index bb55db5..0eefda8 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3490,8 +3490,8 @@ class OCP:
 
         # Slope has_constraints
         self.diff_u = np.array([0] * self.n_phases)
-        self.lbdu = np.array([-15 for _ in range(self.n_phases)])
-        self.ubdu = np.array([15 for _ in range(self.n_phases)])
+        self.lbdu = np.array([-15.0 for _ in range(self.n_phases)])
+        self.ubdu = np.array([15.0 for _ in range(self.n_phases)])
 
         # Constrains on control input at mid point of collocation nodes
         # Enabled by default
-- 
2.43.0


From b40f715a842ae25c48a6f5e17787e7d705d2028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 12/20] fix: equal-area refinement covers the phase when
 trailing residuals are zero

The segment widths summed to less than one.
---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0eefda8..cbe850a 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2663,6 +2663,8 @@ class mpopt_h_adaptive(mpopt):
                 / (cumulative_area[ind_j] - cumulative_area[ind_j - 1])
             ) / (n_points - 1)
 
+        # Last segment ends at the end of the phase, even if residuals vanish there
+        seg_widths_cumulative[-1] = 1.0
         seg_widths_cumulative = np.append(0, seg_widths_cumulative)
         seg_widths = [
             seg_widths_cumulative[i + 1] - seg_widths_cumulative[i]
-- 
2.43.0


From 1e57e3236269f77ae77205d0a467564bcff8efc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 13/20] fix: h-adaptive solve does not modify the option
 dictionaries passed to it

The shared default dictionaries were modified as well.
---
 mpopt/mpopt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index cbe850a..a742b13 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2378,6 +2378,10 @@ class mpopt_h_adaptive(mpopt):
             print(f"\n *********** MPOPT H-Adaptive Summary ********** \n")
 
         start_time = time.monotonic()
+        # Options are completed below, keep the caller's dictionaries unchanged
+        nlp_solver_options = dict(nlp_solver_options)
+        mpopt_options = dict(mpopt_options)
+
         if (not self._nlpsolver_initialized) or (reinitialize_nlp):
             if "ipopt.print_level" not in nlp_solver_options:
                 nlp_solver_options["ipopt.print_level"] = 0
-- 
2.43.0


From f2312abc3d89f571e37b171bcb6dbb350af0b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 14/20] fix: ph-adaptive solve no longer fails on an unbound
 grid_type

---
 mpopt/mpopt.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index a742b13..34eb0ef 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4457,8 +4457,6 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
-        if grid_type is None:
-            grid_type = self.grid_type[0]
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
-- 
2.43.0


From 5b03f9791cf9ff2a8c6de545f8dc6a0311dd0a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 15/20] fix: ph-adaptive solve does not modify the dictionary
 passed to it

---
 mpopt/mpopt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 34eb0ef..b49d1a5 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -4457,6 +4457,8 @@ class mpopt_ph_adaptive(mpopt):
                 for p in poly_orders
             ]
 
+        # Keep the caller's dictionary unchanged
+        solve_dict = dict(solve_dict)
         # ph-Adaptive algorithm (http://dx.doi.org/10.1016/j.jfranklin.2015.05.028)
         nlp_sw_params = []  # Initialize
         poly_orders = []
-- 
2.43.0


From bd8fbc7f5f48c175eda95660f7024ab3ccf35729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 16/20] fix: segment widths from times do not reorder the times
 passed in

---
 mpopt/mpopt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index b49d1a5..4c81870 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -2863,14 +2863,13 @@ class mpopt_h_adaptive(mpopt):
         n_points_available = len(times)
         segment_widths = [None] * n_segments
         if n_points_available > (n_segments - 2):
-            times = times[:n_segments]
-            times.sort()
+            times = np.sort(times[:n_segments])
             segment_widths[0] = times[0] - t0
             for i in range(1, n_segments - 1):
                 segment_widths[i] = times[i] - times[i - 1]
             segment_widths[n_segments - 1] = tf - times[n_segments - 2]
         else:
-            times.sort()
+            times = np.sort(times)
             sw0 = times[0] - t0
             sw_end = tf - times[-1]
             n_req = n_segments - (n_points_available - 1)
-- 
2.43.0


From 9655670e92d8a3ba6919a3dc7c700e04d71d89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 17/20] fix: phases without declared links contribute no
 linking constraints

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 4c81870..770042c 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -485,7 +485,7 @@ class mpopt:
                     phase linking constraints, discontinuities across
                     states, controls and time variables.
         """
-        if self._ocp.n_phases < 2:
+        if self._ocp.n_phases < 2 or len(self._ocp.phase_links) == 0:
             return ([], [], [])
         if not self._variables_created:
             self.create_variables()
-- 
2.43.0


From 68c375c28fd41e6598ef8de51a64680974463bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 18/20] fix: mid-point control constraints are stacked when
 there is a single mid-point

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 770042c..942e87f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -376,7 +376,7 @@ class mpopt:
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            mU.append(ui[:])
+            mU.append(ca.vec(ui))
             n_mid = ui.size1()
             mUmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             mUmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
-- 
2.43.0


From 45d37250bd58f871ddab374d17fe43da50638bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:25 +0000
Subject: [PATCH 19/20] fix: adaptive mid-point constraints are stacked for
 segments with a single mid-point

---
 mpopt/mpopt.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 942e87f..0cd114f 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3085,7 +3085,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbu[phase] > -np.inf).any() or (
             self._ocp.ubu[phase] < np.inf
         ).any():
-            sw.append(ui[:])
+            sw.append(ca.vec(ui))
             n_mid = ui.size1()
             swmin.append(np.repeat(self._ocp.lbu[phase] * self._ocp.scale_u, n_mid))
             swmax.append(np.repeat(self._ocp.ubu[phase] * self._ocp.scale_u, n_mid))
@@ -3094,7 +3094,7 @@ class mpopt_adaptive(mpopt):
         if (self._ocp.lbx[phase] > -np.inf).any() or (
             self._ocp.ubx[phase] < np.inf
         ).any():
-            sw.append(xi[:])
+            sw.append(ca.vec(xi))
             n_mid = xi.size1()
             swmin.append(np.repeat(self._ocp.lbx[phase] * self._ocp.scale_x, n_mid))
             swmax.append(np.repeat(self._ocp.ubx[phase] * self._ocp.scale_x, n_mid))
@@ -3134,9 +3134,8 @@ class mpopt_adaptive(mpopt):
                 start, end = sum(n_taus[:seg]), sum(n_taus[: (seg + 1)])
                 if start == end:
                     continue
-                residual_phase[seg] = (
-                    self.seg_widths[seg, phase]
-                    * (Dxi[start:end, :] - ca.vertcat(*f))[:]
+                residual_phase[seg] = self.seg_widths[seg, phase] * ca.vec(
+                    Dxi[start:end, :] - ca.vertcat(*f)
                 )
 
             residuals = ca.vertcat(*residual_phase)
-- 
2.43.0


From 8b80d0649b16e056e193594d8e20508af309cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 20/20] fix: default dynamics follow the size of the problem
 they were copied with, not later changes to the user's problem

---
 mpopt/mpopt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpopt/mpopt.py b/mpopt/mpopt.py
index 0cd114f..34adc27 100644
--- a/mpopt/mpopt.py
+++ b/mpopt/mpopt.py
@@ -3440,7 +3440,7 @@ class OCP:
         self.n_phases = n_phases
 
         # Define OCP terms
-        dynamics = lambda x, u, t, a=None: [0] * self.nx
+        dynamics = lambda x, u, t, a=None: [0] * n_states
         self.dynamics = [dynamics] * self.n_phases
 
         path_constraints = lambda x, u, t, a=None: None
-- 
2.43.0


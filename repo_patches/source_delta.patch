From 09364ed7bbf86abd55b3c98077d408dfb580fe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 01/19] fix: Estimator.proj_meas returns a mean vector, not a
 (d, d) matrix

---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 49f6876ae6c359f9991f10f64a3b164cbdb30e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 02/19] fix: sign of the linearised prediction in the IEKF
 measurement update

---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..db38658 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From 739c2c1dcb36b1194db8f8bdc5cb1ce3409705f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 03/19] fix: IEKF keeps all components of measurement functions
 that return a vector

---
 Filters/KalmanFilter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index db38658..9637a1f 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -134,8 +134,9 @@ class IEKF(KalmanFilterSmoother):
         x = state.mean
         P = state.cov
         for i in range(self.num_iter):
-            h_i = self.measurement(state.mean, t, u)[0]
-            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
+            h_i = np.ravel(self.measurement(state.mean, t, u))
+            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)
+            H_i = np.reshape(H_i, (h_i.shape[0], -1))
             z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
-- 
2.43.0


From eeac1bd218c4c6cc7044b77f77cfd6407390ba94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 04/19] fix: IEKS starts every call from the nonlinear model

---
 Filters/KalmanFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 9637a1f..b930884 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -234,7 +234,8 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
-        # First iteration
+        # First iteration uses the nonlinear model (an earlier call leaves the linearised one)
+        self.transition, self.measurement = self.f, self.h
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-- 
2.43.0


From a92d34f01558fe900dee69db1ee44c976bb7023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 05/19] fix: IEKS linearises each transition at the state it is
 applied to

---
 Filters/KalmanFilter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index b930884..724add5 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -188,6 +188,10 @@ class IEKS(KalmanFilterSmoother):
     def _linearise(func, Df, x0):
         return lambda x, t, u: func(x0, t=t, u=u) + Df(x0, t=t, u=u) @ (x - x0)
 
+    def _previous(self, states):
+        # The i-th transition maps the (i-1)-th state (the initial state for i=0) to the i-th state
+        return [self.init_state] + list(states[:-1])
+
     def _kalman_filter(self, measurements, prior_state=None, t_zero=0.0, u=None, *args, **kwargs):
 
         if prior_state is None:
@@ -239,7 +243,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in self._previous(smoother_results)]
         self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
         for k in range(num_iter-1):
@@ -249,7 +253,7 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in self._previous(smoother_results)]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
         
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From f5ab7cf53d90463f153b6f1b4bf88bb88e3a6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 06/19] fix: generate_L96_initial_condition returns a vector of
 the requested dimension

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..c4b7f01 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1]))
+        x.append(np.ravel(f(x[-1])))
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From b61d5d12ff0c091abc975c8954b2a6ff9ea14f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 07/19] fix: generate_L96_initial_condition integrates with the
 requested forcing

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index c4b7f01..4e1c052 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(np.ravel(f(x[-1])))
+        x.append(np.ravel(f(x[-1], F=F)))
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From 678bbac843137bb7edcbbc07c83bfd32ad85871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 08/19] fix: orientation of the Lorenz-96 advection term,
 (x[i+1] - x[i-2]) x[i-1]

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index 4e1c052..df6c2bb 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = np.roll(X, 1, 1) * (np.roll(X, -1, 1) - np.roll(X, 2, 1)) - X + F
     return dXdt
 
 
-- 
2.43.0


From 4d3934fcadf33e23f17b1815e2a5d60b2747acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 09/19] fix: GaussianNoise stores the mean it is given

---
 Systems/DynamicSystem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..3f329ea 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -18,7 +18,8 @@ class GaussianNoise(NoiseModel):
         self.dimension = dimension
         self.cov = cov
         if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+            mean = np.zeros((dimension,), dtype=float)
+        self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From 3629dd62cb549aca311a1b8b3062f4773bfc58ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 10/19] fix: simulation noise is not added in place to the
 state it was computed from

---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 3f329ea..1b6deed 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -52,9 +52,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -111,9 +111,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From 857e389666a7036b5eebf6472c63073ac6e7d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 11/19] fix: TaylorTransform keeps the Jacobian a matrix when a
 dimension is one

---
 MomentMatching/TaylorLinearisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..b94a6e4 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -51,7 +51,7 @@ class TaylorTransform(MappingTransform):
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
         if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
+          J_t = np.reshape(J_t, (-1, state.dim))
         mean = func(state.mean)
         mean = np.squeeze(mean)
         cov = J_t @ state.cov @ J_t.T
-- 
2.43.0


From cdef3e9cd95eeb8608e0c70e0b13234852554d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 12/19] fix: build_nodes builds a chain of one node

---
 ExpectationPropagation/Nodes.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..e5f92ab 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -229,17 +229,8 @@ def build_nodes(
     nodes = [Node(dim, index=i) for i in range(N)]
 
     for i, node in enumerate(nodes):
-        if i == 0:
-            node.prev_node = None
-            node.next_node = nodes[i + 1]
-            continue
-        if i == (N - 1):
-            node.prev_node = nodes[i - 1]
-            node.next_node = None
-            continue
-
-        node.next_node = nodes[i + 1]
-        node.prev_node = nodes[i - 1]
+        node.prev_node = nodes[i - 1] if i > 0 else None
+        node.next_node = nodes[i + 1] if i < N - 1 else None
 
     if estimator is not None:
         nodes = node_estimator(nodes=nodes, estimator=estimator)
-- 
2.43.0


From b586d2e4d7385deed498f1bb13b21f139913de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 13/19] fix: tracking models use the default sensors when the
 list is None

---
 Systems/BearingOnlyTrackingTurn.py | 1 +
 Systems/BearingsOnlyTracking.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..74427e7 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -73,6 +73,7 @@ class BearingsOnlyTrackingTurn(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                              cov_mat=np.eye(5) * [100, 10, 100, 10, 1e-4])
         if sensor_list is None:
+            sensor_list = Default_Sensor_List
             meas_dim = len(Default_Sensor_List)
             # meas_dim = 2*len(Default_Sensor_List)
         else:
diff --git a/Systems/BearingsOnlyTracking.py b/Systems/BearingsOnlyTracking.py
index eaa72f7..05e38b6 100644
--- a/Systems/BearingsOnlyTracking.py
+++ b/Systems/BearingsOnlyTracking.py
@@ -62,6 +62,7 @@ class BearingsOnlyTracking(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([0.0, 0.0, 1.0, 0.0]),
                              cov_mat=np.eye(4) * [0.1, 0.1, 0.1, 0.1])
         if sensor_list is None:
+            sensor_list = Default_Sensor_List
             meas_dim = len(Default_Sensor_List)
         else:
             meas_dim = len(sensor_list)
-- 
2.43.0


From f49910e35bfc2e9db43991b46145717ae3a25541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:59 +0000
Subject: [PATCH 14/19] fix: kalman_smoother honours the start time of the
 filter

---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 724add5..b816cf3 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, *args, t_zero=0.0, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From 8f2f39ef578061ce5cff573e150c32b967d9e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 15/19] fix: BOTT sweep imports Config and select_transform
 from EP_FullSweep

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..70d4689 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 9028ac012450ccf2da677205e5f96a4465a6d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:05 +0000
Subject: [PATCH 16/19] fix: sweeps look for the last requested iteration, not
 always iteration 50

---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 70d4689..94c71dd 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From f989084b1a149639a183b397e372cce2f1c9eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 17/19] fix: --override replaces the saved results of a
 configuration

---
 Experiments/EP_FullSweep.py          | 4 ++++
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 15848e4..ad8ed4b 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -91,6 +91,9 @@ query_str= "SELECT RMSE" \
            " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
+delete_str = "DELETE FROM {} WHERE Transform = ? AND Seed = ? AND Power = ? AND Damping = ?"
+
+
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
     con, system, timesteps, table = config.con, config.system, config.timesteps, config.exp_table_name
     db = con.cursor()
@@ -108,6 +111,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             exits = db.fetchall()
             try:
                 if override:
+                    db.execute(delete_str.format(table), (trans_id, int(SEED), power, damping))
                     power_sweep(config, x, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
                 else:
                     if len(exits) == 0: # Skips sweep if result is already computed for the given settings
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 94c71dd..2ec6baf 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -157,6 +157,9 @@ query_str= "SELECT RMSE" \
            " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
+delete_str = "DELETE FROM {} WHERE Transform = ? AND Seed = ? AND Power = ? AND Damping = ?"
+
+
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
     con, system, timesteps, table = config.con, config.system, config.timesteps, config.exp_table_name
     db = con.cursor()
@@ -174,6 +177,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             exits = db.fetchall()
             try:
                 if override:
+                    db.execute(delete_str.format(table), (trans_id, int(SEED), power, damping))
                     power_sweep(config, X, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
                 else:
                     if len(exits) == 0: # Skips sweep if result is already computed for the given settings
-- 
2.43.0


From bd4117a22e3c392aa71e593d5621996a5a3c0c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 18/19] fix: Gaussian keeps its mean as floats (Jacobians at
 integer points were truncated)

---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 1143041..4b0bd68 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -113,7 +113,7 @@ class Gaussian:
         self._chol = None
 
         if mean_vec is not None:
-            self.mean = np.atleast_1d(mean_vec)
+            self.mean = np.atleast_1d(np.asarray(mean_vec, dtype=float))
             self.cov = cov_mat
             self._mode = 'moment'
 
-- 
2.43.0


From f5148affab9df681e004ca299c2c9d84e0f66331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:11 +0000
Subject: [PATCH 19/19] fix: Gaussians of different dimension are not equal

---
 StateModel/Gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 4b0bd68..a75e542 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -223,6 +223,8 @@ class Gaussian:
         # Make sure that 'other' is also a GaussianState class
         # TODO: Replace assert with a custom Error
         assert isinstance(other, Gaussian)
+        if np.shape(self.cov) != np.shape(other.cov):
+            return False
         mean_equal = np.allclose(self.mean, other.mean, rtol=RTOL, atol=RTOL)
         cov_equal = np.allclose(self.cov, other.cov, rtol=RTOL, atol=RTOL)
 
-- 
2.43.0


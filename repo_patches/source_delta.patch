From 65160cd094f4a89fc0ad8a52a9e376f49874bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:42 +0000
Subject: [PATCH 01/46] fix: do not modify the time vector passed to ProMP
 methods

The basis functions normalized the caller's time vector in place. Any time
vector whose last entry was not 1 was changed by evaluating a ProMP, and
integer time vectors raised an error.
---
 movement_primitives/promp.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 9ab997d..2e3a846 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -492,8 +492,7 @@ class ProMP:
         h = -1.0 / (8.0 * self.n_weights_per_dim ** 2 * np.log(overlap))
 
         # normalize time to interval [0, 1]
-        T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = np.atleast_2d(T) / np.max(T)
 
         activations = np.exp(
             -(T - self.centers[:, np.newaxis]) ** 2 / (2.0 * h))
@@ -554,8 +553,7 @@ class ProMP:
         rbfs_sum_per_step = rbfs.sum(axis=0)
 
         # normalize time to interval [0, 1]
-        T = np.atleast_2d(T)
-        T /= np.max(T)
+        T = np.atleast_2d(T) / np.max(T)
 
         rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
         rbfs_deriv *= rbfs
-- 
2.43.0


From 853d2f39002dcb0a61c6c4aa8f0211003b2f7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:42 +0000
Subject: [PATCH 02/46] fix: return ProMP velocities in the time unit of the
 query

Velocities were derivatives with respect to the internally normalized time,
so they were wrong by the duration for time vectors that do not end at 1.
---
 movement_primitives/promp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 2e3a846..f0499a5 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -553,7 +553,8 @@ class ProMP:
         rbfs_sum_per_step = rbfs.sum(axis=0)
 
         # normalize time to interval [0, 1]
-        T = np.atleast_2d(T) / np.max(T)
+        t_max = np.max(T)
+        T = np.atleast_2d(T) / t_max
 
         rbfs_deriv = (self.centers[:, np.newaxis] - T) / h
         rbfs_deriv *= rbfs
@@ -561,6 +562,8 @@ class ProMP:
         rbfs_deriv = (
              rbfs_deriv * rbfs_sum_per_step
              - rbfs * rbfs_deriv_sum_per_step) / (rbfs_sum_per_step ** 2)
+        # derivative with respect to the original time, not normalized time
+        rbfs_deriv /= t_max
 
         assert rbfs_deriv.shape[0] == self.n_weights_per_dim
         assert rbfs_deriv.shape[1] == n_steps
-- 
2.43.0


From 0eabc90c5e387c0632c53a741bed03202efffc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:59 +0000
Subject: [PATCH 03/46] fix: place basis functions relative to the start time

The centers of the forcing term assumed that a movement starts at time 0.
Imitation of a demonstration with a different time origin therefore learned
weights that do not reproduce the demonstration.
---
 movement_primitives/dmp/_forcing_term.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index 3a88202..d6e983b 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -60,8 +60,7 @@ class ForcingTerm:
         t = start_t
         self.centers[0] = phase(t, self.alpha_z, self.goal_t, self.start_t)
         for i in range(1, self.n_weights_per_dim):
-            # normally lower_border + i * step but lower_border is 0
-            t = i * step
+            t = start_t + i * step
             self.centers[i] = phase(t, self.alpha_z, self.goal_t, self.start_t)
             # Choose width of RBF basis functions automatically so that the
             # RBF centered at one center has value overlap at the next center
-- 
2.43.0


From b21fc1b1d88b61b7241b4249421941dce8eefef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:59 +0000
Subject: [PATCH 04/46] fix: keep forcing term finite after the end of the
 movement

With several hundred weights per dimension all basis functions underflow
after the execution time, and normalizing them resulted in NaN positions.
---
 movement_primitives/dmp/_forcing_term.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_forcing_term.py b/movement_primitives/dmp/_forcing_term.py
index d6e983b..37a4959 100644
--- a/movement_primitives/dmp/_forcing_term.py
+++ b/movement_primitives/dmp/_forcing_term.py
@@ -74,7 +74,9 @@ class ForcingTerm:
     def _activations(self, z):
         z = np.atleast_2d(z)  # 1 x n_steps
         squared_dist = (z - self.centers[:, np.newaxis]) ** 2
-        activations = np.exp(-self.widths[:, np.newaxis] * squared_dist)
+        exponents = -self.widths[:, np.newaxis] * squared_dist
+        # avoid that all activations vanish far away from the centers
+        activations = np.exp(exponents - exponents.max(axis=0))
         activations /= activations.sum(axis=0)  # normalize
         return activations
 
-- 
2.43.0


From 251b1bb83f7f4e756441b6f3e9cc63ec2d9e2dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:59 +0000
Subject: [PATCH 05/46] fix: use gains of the right arm's position for its
 smooth scaling

The gains have 12 entries and were addressed with the indices of the 14
entries of the pose. The smooth scaling of the right arm used gains of other
components if gains were not uniform.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 2 +-
 movement_primitives/dmp_fast.pyx               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index ed05aac..71ef423 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -117,7 +117,7 @@ def dmp_step_dual_cartesian_python(
                     tracking_error[ops]) / dt
 
         if smooth_scaling:
-            smoothing = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+            smoothing = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
         else:
             smoothing = 0.0
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index 55743f2..e122b45 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -638,7 +638,7 @@ cpdef dmp_step_dual_cartesian(
         # position components
         for pps, pvs in POS_INDICES:
             if smooth_scaling:
-                smoothing_pos = beta_y[pps] * (goal_y[pps] - start_y[pps]) * z
+                smoothing_pos = beta_y[pvs] * (goal_y[pps] - start_y[pps]) * z
             else:
                 smoothing_pos = 0.0
             current_ydd[pvs] = (
-- 
2.43.0


From 9edfdbf74a8946420bdb1169d52b3e59baa6e6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:59 +0000
Subject: [PATCH 06/46] fix: return a copy of the weights from get_weights

The returned vector was a view, so that weights that were stored before an
update changed with the update and could not be restored.
---
 movement_primitives/dmp/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 2bfa240..6ff30c3 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -41,7 +41,7 @@ class WeightParametersMixin:
         weights : array, shape (N * n_weights_per_dim,)
             Current weights of the DMP. N depends on the type of DMP
         """
-        return self.forcing_term.weights_.ravel()
+        return self.forcing_term.weights_.flatten()
 
     def set_weights(self, weights):
         """Set weight vector of DMP.
-- 
2.43.0


From 8063e9e8f3087d8b1b28b68f0a5582b912f391a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:59 +0000
Subject: [PATCH 07/46] fix: start from the configured state after a reset

A start that was configured after a reset was ignored by the following steps,
which began at the start that was configured before the reset.
---
 movement_primitives/dmp/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/movement_primitives/dmp/_base.py b/movement_primitives/dmp/_base.py
index 6ff30c3..0a813f4 100644
--- a/movement_primitives/dmp/_base.py
+++ b/movement_primitives/dmp/_base.py
@@ -24,6 +24,7 @@ class DMPBase(PointToPointMovement):
         self.last_t = None
         self.current_y = np.copy(self.start_y)
         self.current_yd = np.copy(self.start_yd)
+        self.initialized = False
 
 
 class WeightParametersMixin:
-- 
2.43.0


From a46abd14d412b8829219e6f0d98b3bb286a06063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:12:59 +0000
Subject: [PATCH 08/46] fix: return copies from the step of state-following
 DMPs

All steps returned the same array, which was overwritten by later steps.
---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 00cb73a..4177e2c 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -60,7 +60,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
             forcing_term=self.forcing_term,
             coupling_term=coupling_term,
             int_dt=self.int_dt)
-        return self.current_y, self.current_yd
+        return np.copy(self.current_y), np.copy(self.current_yd)
 
     def open_loop(self, run_t=None, coupling_term=None):
         return state_following_dmp_open_loop(
-- 
2.43.0


From 97d0bb55d4e9f1116799169505324144a35cef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:11 +0000
Subject: [PATCH 09/46] fix: make open-loop execution of dual-arm DMPs
 repeatable

Open-loop execution kept the final state of the previous execution. With a
nonzero feedback gain it was interpreted as a tracking error at the beginning
of the next execution, which then generated a different trajectory.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 71ef423..99d8f3a 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -354,7 +354,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
 
         if run_t is None:
             run_t = self.execution_time_
-        self.t = 0.0
+        self.reset()
         T = [self.t]
         Y = [np.copy(self.start_y)]
         y = np.copy(self.start_y)
@@ -363,7 +363,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             y, yd = self.step(y, yd, coupling_term, step_function)
             T.append(self.t)
             Y.append(np.copy(self.current_y))
-        self.t = 0.0
+        self.reset()
         return np.array(T), np.vstack(Y)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
-- 
2.43.0


From 06457da1159a0b71aed59a6806b7daf8778ef268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:35 +0000
Subject: [PATCH 10/46] fix: begin open-loop execution with the configured
 start velocity

Open-loop execution of DMPs, Cartesian DMPs, state-following DMPs and
spring-dampers ignored the start velocity, while stepwise execution used it.
---
 movement_primitives/dmp/_cartesian_dmp.py       | 14 ++++++++++----
 movement_primitives/dmp/_dmp.py                 |  3 ++-
 movement_primitives/dmp/_state_following_dmp.py |  6 +++---
 movement_primitives/spring_damper.py            | 14 ++++++++------
 4 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 0182b46..53bbd55 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -374,7 +374,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function=step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd[:3])
         try:
             quaternion_step_function = CARTESIAN_DMP_STEP_FUNCTIONS[
                 quaternion_step_function]
@@ -390,7 +391,8 @@ class CartesianDMP(DMPBase):
             coupling_term,
             run_t, self.int_dt,
             quaternion_step_function,
-            self.smooth_scaling)
+            self.smooth_scaling,
+            start_yd=self.start_yd[3:])
         return T, np.hstack((Yp, Yr))
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
@@ -633,7 +635,7 @@ def dmp_open_loop_quaternion(
         coupling_term=None, run_t=None, int_dt=0.001,
         quaternion_step_function=CARTESIAN_DMP_STEP_FUNCTIONS[
             DEFAULT_CARTESIAN_DMP_STEP_FUNCTION],
-        smooth_scaling=False):
+        smooth_scaling=False, start_yd=None):
     """Run Cartesian DMP without external feedback.
 
     Parameters
@@ -680,6 +682,9 @@ def dmp_open_loop_quaternion(
         is changed and the trajectory is scaled by interpolating between
         the old and new scaling of the trajectory.
 
+    start_yd : array, shape (3,), optional (default: 0)
+        Start velocity.
+
     Returns
     -------
     T : array, shape (n_steps,)
@@ -690,7 +695,8 @@ def dmp_open_loop_quaternion(
     """
     goal_yd = np.zeros(3)
     goal_ydd = np.zeros(3)
-    start_yd = np.zeros(3)
+    if start_yd is None:
+        start_yd = np.zeros(3)
     start_ydd = np.zeros(3)
 
     if run_t is None:
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 99ceec8..23e199e 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -547,7 +547,8 @@ class DMP(WeightParametersMixin, DMPBase):
             coupling_term,
             run_t, self.int_dt,
             step_function,
-            smooth_scaling=self.smooth_scaling)
+            smooth_scaling=self.smooth_scaling,
+            start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 4177e2c..8d922c5 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -66,7 +66,7 @@ class StateFollowingDMP(WeightParametersMixin, DMPBase):
         return state_following_dmp_open_loop(
             self.execution_time, 0.0, self.dt_, self.start_y, self.goal_y,
             self.alpha_y, self.beta_y, self.forcing_term, coupling_term, run_t,
-            self.int_dt)
+            self.int_dt, start_yd=self.start_yd)
 
     def imitate(self, T, Y, regularization_coefficient=0.0,
                 allow_final_velocity=False):
@@ -169,10 +169,10 @@ def state_following_dmp_step(
 
 def state_following_dmp_open_loop(
         goal_t, start_t, dt, start_y, goal_y, alpha_y, beta_y, forcing_term,
-        coupling_term=None, run_t=None, int_dt=0.001):
+        coupling_term=None, run_t=None, int_dt=0.001, start_yd=None):
     t = start_t
     y = np.copy(start_y)
-    yd = np.zeros_like(y)
+    yd = np.zeros_like(y) if start_yd is None else np.copy(start_yd)
     T = [start_t]
     Y = [np.copy(y)]
     if run_t is None:
diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index 66f9869..c138d38 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -110,7 +110,8 @@ class SpringDamper(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt,
+            start_yd=self.start_yd)
 
 
 class SpringDamperOrientation(PointToPointMovement):
@@ -212,7 +213,8 @@ class SpringDamperOrientation(PointToPointMovement):
             self.start_y, self.goal_y,
             self.k, self.c,
             coupling_term,
-            run_t, self.int_dt)
+            run_t, self.int_dt,
+            start_yd=self.start_yd)
 
 
 def spring_damper_step(
@@ -282,9 +284,9 @@ def spring_damper_step_quaternion(
 
 def spring_damper_open_loop(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros_like(start_y)
+    yd = np.zeros_like(start_y) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
@@ -299,9 +301,9 @@ def spring_damper_open_loop(
 
 def spring_damper_open_loop_quaternion(
         dt, start_y, goal_y, k=1.0, c=None, coupling_term=None, run_t=1.0,
-        int_dt=0.001):
+        int_dt=0.001, start_yd=None):
     y = np.copy(start_y)
-    yd = np.zeros(3)
+    yd = np.zeros(3) if start_yd is None else np.copy(start_yd)
 
     T = np.arange(0.0, run_t + dt, dt)
     Y = np.empty((len(T), len(y)))
-- 
2.43.0


From 4481d31fab4e53bf5c9d05ab0a0b64ebc6a71479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:35 +0000
Subject: [PATCH 11/46] fix: reach the goal of minimum jerk trajectories
 despite rounding errors

For many combinations of execution time and step size, for example 1.0 and
0.1 or 0.3 and 0.1, rounding errors removed the last step. The trajectory
ended before the goal with a nonzero velocity.
---
 movement_primitives/data/_minimum_jerk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/data/_minimum_jerk.py b/movement_primitives/data/_minimum_jerk.py
index 6c4dbed..5784ffd 100644
--- a/movement_primitives/data/_minimum_jerk.py
+++ b/movement_primitives/data/_minimum_jerk.py
@@ -56,7 +56,8 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
                          % (x0.shape, g.shape))
 
     n_dims = x0.shape[0]
-    n_steps = 1 + int(execution_time / dt)
+    # avoid losing a step because of rounding errors
+    n_steps = 1 + int(execution_time / dt + 1e-6)
 
     X = np.zeros((n_steps, n_dims))
     Xd = np.zeros((n_steps, n_dims))
@@ -70,7 +71,7 @@ def generate_minimum_jerk(start, goal, execution_time=1.0, dt=0.01):
     for t in range(1, n_steps):
         tau = execution_time - t * dt
 
-        if tau >= dt:
+        if tau >= dt * (1.0 - 1e-6):
             dist = g - x
 
             a1 = 0
-- 
2.43.0


From ff72c877f8f8b786ad1c674beed80b9d6957ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:35 +0000
Subject: [PATCH 12/46] fix: export numpy scalars as plain numbers

Numpy floats, for example the last entry of a time vector used as execution
time or the variance of an imitated ProMP, produced YAML files that could not
be read. Numpy integers could not be written at all.
---
 movement_primitives/io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/io.py b/movement_primitives/io.py
index b66f1d9..084540b 100644
--- a/movement_primitives/io.py
+++ b/movement_primitives/io.py
@@ -121,6 +121,8 @@ def _recursive_to_dict(obj, convert_tuple=False):
     for k, v in obj.__dict__.items():
         if convert_tuple and isinstance(v, tuple):
             result[k] = list(v)
+        elif isinstance(v, np.generic):
+            result[k] = v.item()
         elif isinstance(v, basic_types_and_sequences):
             result[k] = v
         elif isinstance(v, np.ndarray):
-- 
2.43.0


From 615f2c513c70b9629ae4d44dcc02de4361424d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 13/46] fix: evaluate coupling terms once per Euler step

The Python Euler step queried the coupling term twice per step and added the
coupling velocity after the position update. It disagreed with the compiled
Euler step and advanced stateful coupling terms too fast.
---
 movement_primitives/dmp/_dmp.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index 23e199e..d58de54 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -308,22 +308,18 @@ def dmp_step_euler(
                 cd += coupling_term_precomputed[0]
                 cdd += coupling_term_precomputed[1]
         else:
-            cd, cdd = None, None
+            cd, cdd = coupling_term.coupling(current_y, current_yd)
         z = forcing_term.phase(current_t)
         f = forcing_term.forcing_term(z).squeeze()
         tdd = p_gain * tracking_error / dt
 
         ydd = _dmp_acc(
             current_y, current_yd, cdd, alpha_y, beta_y, goal_y, goal_yd,
-            goal_ydd, start_y, z, execution_time, f, coupling_term, tdd,
+            goal_ydd, start_y, z, execution_time, f, None, tdd,
             smooth_scaling)
-        current_yd += dt * ydd
+        current_yd += dt * ydd + cd / execution_time
         current_y += dt * current_yd
 
-        if coupling_term is not None:
-            cd, _ = coupling_term.coupling(current_y, current_yd)
-            current_yd += cd / execution_time
-
 
 DMP_STEP_FUNCTIONS = {
     "rk4": dmp_step_rk4,
-- 
2.43.0


From bfea45586a71d3413c18ae5d634125e86eebb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 14/46] fix: pose distance of orientations that differ by 180
 degrees

Rounding errors could result in a math domain error.
---
 movement_primitives/kinematics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index a96015d..4f44bdd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -496,7 +496,7 @@ def pose_dist(
     ee_actual2ee_desired = np.linalg.inv(ee2base_actual).dot(ee2base_desired)
     trace = (ee_actual2ee_desired[0, 0] + ee_actual2ee_desired[1, 1]
              + ee_actual2ee_desired[2, 2])
-    angle = math.acos(min((trace - 1.0) / 2.0, 1.0))
+    angle = math.acos(max(min((trace - 1.0) / 2.0, 1.0), -1.0))
     orientation_error = min(angle, 2.0 * math.pi - angle)
     position_error = math.sqrt(
         ee_actual2ee_desired[0, 3] ** 2 + ee_actual2ee_desired[1, 3] ** 2
-- 
2.43.0


From ee63ceb5a16873e03522e20276b31ae661c9770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 15/46] fix: respect search interval and joint limits in local
 inverse kinematics

The local search with random restarts ignored the interval around the
previous joint angles. The local search without random restarts ignored the
joint limits.
---
 movement_primitives/kinematics.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 4f44bdd..11fb637 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -377,14 +377,12 @@ class Chain:
         assert n_restarts >= 1
         Q = []
         errors = []
-        bounds = np.empty((self.n_joints, 2))
-        bounds[:, 0] = joint_angles - interval
-        bounds[:, 1] = joint_angles + interval
+        bounds = self._local_bounds(joint_angles, interval)
         q = joint_angles  # start with previous state
         for _ in range(n_restarts):
             q, error = self.inverse(
-                desired_pose, q, return_error=True, solver=solver,
-                orientation_weight=orientation_weight,
+                desired_pose, q, return_error=True, bounds=bounds,
+                solver=solver, orientation_weight=orientation_weight,
                 position_weight=position_weight)
             Q.append(q)
             errors.append(error)
@@ -393,6 +391,13 @@ class Chain:
             q = self._sample_joints_uniform(random_state, bounds=bounds)
         return Q[np.argmin(errors)]
 
+    def _local_bounds(self, joint_angles, interval):
+        joint_angles = np.asarray(joint_angles)
+        lower, upper = self.joint_limits[:, 0], self.joint_limits[:, 1]
+        return np.column_stack((
+            np.clip(joint_angles - interval, lower, upper),
+            np.clip(joint_angles + interval, lower, upper)))
+
     def _sample_joints_uniform(self, random_state, bounds=None):
         if bounds is None:
             bounds = self.joint_limits
@@ -480,9 +485,7 @@ class Chain:
                     orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
-                bounds = np.empty((self.n_joints, 2), dtype=float)
-                bounds[:, 0] = Q[t - 1] - interval
-                bounds[:, 1] = Q[t - 1] + interval
+                bounds = self._local_bounds(Q[t - 1], interval)
                 Q[t] = self.inverse(
                     H[t], Q[t - 1], False, bounds, solver=solver,
                     orientation_weight=orientation_weight,
-- 
2.43.0


From edd81a2cbd2976f10af0758e5145dbd3a29f89ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 16/46] fix: use the requested solver for inverse kinematics of
 trajectories

---
 movement_primitives/kinematics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 11fb637..5e1c6c6 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -467,7 +467,7 @@ class Chain:
 
         if initial_joint_angles is None:
             Q[0] = self.inverse_with_random_restarts(
-                H[0], random_state=random_state,
+                H[0], random_state=random_state, solver=solver,
                 orientation_weight=orientation_weight,
                 position_weight=position_weight)
         else:
@@ -482,7 +482,7 @@ class Chain:
             if random_restarts:
                 Q[t] = self.local_inverse_with_random_restarts(
                     H[t], Q[t - 1], interval, random_state=random_state,
-                    orientation_weight=orientation_weight,
+                    solver=solver, orientation_weight=orientation_weight,
                     position_weight=position_weight)
             else:
                 bounds = self._local_bounds(Q[t - 1], interval)
-- 
2.43.0


From 3cb17315d611412244d937c895ce6e2f0227d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 17/46] fix: obstacle avoidance with fast motion directly
 towards an obstacle

Rounding errors resulted in NaN when the angle between velocity and obstacle
direction was 0 or 180 degrees.
---
 movement_primitives/dmp/_coupling_terms.py | 7 ++++---
 movement_primitives/dmp_fast.pyx           | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index cdf5085..39fb9da 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -55,7 +55,7 @@ def obstacle_avoidance_acceleration_2d(
         theta_nom = theta_nom.reshape(*shape)
     theta_denom = (np.linalg.norm(obstacle_diff, axis=-1)
                    * np.linalg.norm(yd, axis=-1) + EPSILON)
-    theta = np.arccos(theta_nom / theta_denom)
+    theta = np.arccos(np.clip(theta_nom / theta_denom, -1.0, 1.0))
     rotated_velocity = np.einsum(
         "nij,nj->ni", R.reshape(-1, 2, 2), yd.reshape(-1, 2))
     if shape:
@@ -224,9 +224,10 @@ def obstacle_avoidance_acceleration_3d(
     obstacle_diff = obstacle_position - y
     r = 0.5 * np.pi * pr.norm_vector(np.cross(obstacle_diff, yd))
     R = pr.matrix_from_compact_axis_angle(r)
-    theta = np.arccos(
+    theta = np.arccos(np.clip(
         np.dot(obstacle_diff, yd)
-        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON))
+        / (np.linalg.norm(obstacle_diff) * np.linalg.norm(yd) + EPSILON),
+        -1.0, 1.0))
     cdd = gamma * np.dot(R, yd) * theta * np.exp(-beta * theta)
     return cdd
 
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index e122b45..b0c8315 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -874,7 +874,7 @@ cpdef obstacle_avoidance_acceleration_2d(
     cdef double obstacle_diff_norm = sqrt(obstacle_diff[0] * obstacle_diff[0] + obstacle_diff[1] * obstacle_diff[1])
     cdef double yd_norm = sqrt(yd[0] * yd[0] + yd[1] * yd[1])
     cdef double theta_denom = obstacle_diff_norm * yd_norm + EPSILON
-    cdef double theta = acos(theta_nom / theta_denom)
+    cdef double theta = acos(max(min(theta_nom / theta_denom, 1.0), -1.0))
     cdef np.ndarray[double, ndim=1] rotated_velocity = np.dot(R, yd)
     cdef np.ndarray[double, ndim=1] cdd = gamma * rotated_velocity * (theta * exp(-beta * theta))
     return cdd
-- 
2.43.0


From 5721be69fed75e8e3525175b01c880b1a7c94667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 18/46] fix: obstacle avoidance keeps the shape of batches with
 one element

---
 movement_primitives/dmp/_coupling_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 39fb9da..a3e3b3d 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -62,7 +62,7 @@ def obstacle_avoidance_acceleration_2d(
         rotated_velocity = rotated_velocity.reshape(*(shape + (2,)))
     cdd = (gamma * rotated_velocity
            * (theta * np.exp(-beta * theta))[..., np.newaxis])
-    return np.squeeze(cdd)
+    return cdd.reshape(y.shape)
 
 
 class CouplingTermObstacleAvoidance2D:
-- 
2.43.0


From cea11fc5a3b8a5ab634ccef3594f2cedad963e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:15:59 +0000
Subject: [PATCH 19/46] fix: compute potential field from the accelerations of
 the DMP

The goal offset was included although smooth scaling was deactivated. The
obstacle avoidance term was not scaled with the execution time.
---
 movement_primitives/dmp_potential_field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index 68171b7..e3a2eee 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -54,7 +54,7 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     Yd = np.empty_like(Y)
     Yd[:, :] = dmp.current_yd
 
-    z = dmp.forcing_term.phase(dmp.t)
+    z = dmp.forcing_term.phase(dmp.t) if dmp.smooth_scaling else 0.0
     ts = dmp_transformation_system(
         Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
         dmp.start_y, z, dmp.execution_time_)
@@ -64,7 +64,8 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
     if obstacle is None:
         ct = np.zeros_like(ts)
     else:
-        ct = obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+        ct = (obstacle_avoidance_acceleration_2d(Y, Yd, obstacle)
+              / dmp.execution_time_ ** 2)
 
     acc = ft + ts + ct
     return xx, yy, ft, ts, ct, acc
-- 
2.43.0


From 4abf615a76fda605181bde14e71f224907ccc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:32 +0000
Subject: [PATCH 20/46] fix: generate the same toy data with the default random
 state in each call

The default random state was shared between calls.
---
 movement_primitives/data/_toy_1d.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/data/_toy_1d.py b/movement_primitives/data/_toy_1d.py
index d93fe03..184921c 100644
--- a/movement_primitives/data/_toy_1d.py
+++ b/movement_primitives/data/_toy_1d.py
@@ -3,7 +3,7 @@ import numpy as np
 
 def generate_1d_trajectory_distribution(
         n_demos, n_steps, initial_offset_range=3.0, final_offset_range=0.1,
-        noise_per_step_range=20.0, random_state=np.random.RandomState(0)):
+        noise_per_step_range=20.0, random_state=None):
     """Generates toy data for testing and demonstration.
 
     Parameters
@@ -34,6 +34,9 @@ def generate_1d_trajectory_distribution(
     Y : array, shape (n_demos, n_steps, 1)
         Demonstrations (positions)
     """
+    if random_state is None:
+        random_state = np.random.RandomState(0)
+
     T = np.linspace(0, 1, n_steps)
     Y = np.empty((n_demos, n_steps, 1))
 
-- 
2.43.0


From 9f60f8621d29db2931574ea9e959eb6edb8c74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:32 +0000
Subject: [PATCH 21/46] fix: load time step of LASA demonstrations with recent
 numpy versions

Arrays with one element are not converted to scalars anymore.
---
 movement_primitives/data/_lasa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/data/_lasa.py b/movement_primitives/data/_lasa.py
index 32ed9ae..674553c 100644
--- a/movement_primitives/data/_lasa.py
+++ b/movement_primitives/data/_lasa.py
@@ -131,7 +131,7 @@ def _convert_demonstrations(demos):
     Xd = np.transpose([V for _, V, _ in tmp], [0, 2, 1])
     Xdd = np.transpose([A for _, _, A in tmp], [0, 2, 1])
 
-    dt = float(demos[0][0, 0][4])
+    dt = float(demos[0][0, 0][4].item())
 
     return X, Xd, Xdd, dt
 
-- 
2.43.0


From 986eedd6bc12773a9829cba6f95fd6a503428ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:16:32 +0000
Subject: [PATCH 22/46] fix: plot distributions with dashed lines without color

The color was passed as format string. This did not work if no color or a
color code was given.
---
 movement_primitives/plot.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/plot.py b/movement_primitives/plot.py
index 465e50e..c981bdf 100644
--- a/movement_primitives/plot.py
+++ b/movement_primitives/plot.py
@@ -158,9 +158,10 @@ def plot_distribution_in_rows(
                     mean[:, i] + f * std_dev[:, i], color=color, alpha=alpha,
                     label=label if f_idx == 0 else None)
             else:
-                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color, ls="--",
-                             label=label if f_idx == 0 else None)
-                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color, ls="--")
+                axes[i].plot(t, mean[:, i] - f * std_dev[:, i], color=color,
+                             ls="--", label=label if f_idx == 0 else None)
+                axes[i].plot(t, mean[:, i] + f * std_dev[:, i], color=color,
+                             ls="--")
 
     if newaxes:
         layout_axes(axes, n_dims, subplot_shape, xlabel, (t[0], t[-1]),
-- 
2.43.0


From 4537382bb9341f8afdb43f9b5348124e0ce15cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:28:33 +0000
Subject: [PATCH 23/46] fix: do not accumulate tracking error over internal
 steps

The Python step function of the dual-arm DMP only cleared the coupling
acceleration once per step. Without a coupling term, the feedback of the
tracking error added up over the internal integration steps and the result
differed from the compiled step function.
---
 movement_primitives/dmp/_dual_cartesian_dmp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 99d8f3a..68ad345 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -104,7 +104,9 @@ def dmp_step_dual_cartesian_python(
             dt = t - current_t
         current_t += dt
 
-        if coupling_term is not None:
+        if coupling_term is None:
+            cd[:], cdd[:] = 0.0, 0.0
+        else:
             cd[:], cdd[:] = coupling_term.coupling(current_y, current_yd)
 
         z = forcing_term.phase(current_t)
-- 
2.43.0


From aa2bfc181ba6287cf59350e1c02b27701bf1fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:06:45 +0000
Subject: [PATCH 24/46] fix: do not brake final velocity DMP before the end

The comparison with the end of the movement only tolerated an absolute
rounding error of machine epsilon. When the accumulated time exceeded a
longer duration by rounding, the last step already used zero velocity as
target and the DMP missed the configured final velocity.
---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index f3aa026..07e6e69 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -237,7 +237,8 @@ def solve_constraints(t0, t1, y0, y0d, y0dd, y1, y1d, y1dd):
 
 
 def apply_constraints(t, goal_y, goal_t, coefficients):
-    if t > goal_t + np.finfo(float).eps:
+    # time is accumulated, so the end might be exceeded by rounding errors
+    if t > goal_t and not np.isclose(t, goal_t, rtol=1e-9, atol=1e-9):
         # For t > goal_t the polynomial should always 'pull' to the goal
         # position, but velocity and acceleration should be zero.
         # This is done to avoid diverging from the goal if the DMP is executed
-- 
2.43.0


From e8f2312c2bd97e5197889ef90206575a07333c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:08:10 +0000
Subject: [PATCH 25/46] fix: make imitation with final velocity independent of
 time origin

The boundary conditions were solved for with polynomials of the absolute
time, which are badly conditioned for large time stamps. Weights were
useless for demonstrations that do not start close to time zero.
---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 07e6e69..23179af 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -326,13 +326,15 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     for d in range(n_dims):
         Ydd[1:, d] = np.diff(Yd[:, d]) / DT
 
+    # relative to the start, large time stamps are numerically unstable
+    execution_time = T[-1] - T[0]
     coefficients = solve_constraints(
-        T[0], T[-1], Y[0], Yd[0], Ydd[0], Y[-1], Yd[-1], Ydd[-1])
+        0.0, execution_time, Y[0], Yd[0], Ydd[0], Y[-1], Yd[-1], Ydd[-1])
 
-    execution_time = T[-1] - T[0]
     F = np.empty((len(T), n_dims))
     for t in range(len(T)):
-        g, gd, gdd = apply_constraints(T[t], Y[-1], T[-1], coefficients)
+        g, gd, gdd = apply_constraints(
+            T[t] - T[0], Y[-1], execution_time, coefficients)
         F[t, :] = execution_time ** 2 * Ydd[t] - alpha_y * (
             beta_y * (g - Y[t])
             + execution_time * (gd - Yd[t])
-- 
2.43.0


From bf6abc8a44d99a15577423477484012528007d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:30:12 +0000
Subject: [PATCH 26/46] fix: interpolate demonstrated relative orientations
 without sign jumps

---
 movement_primitives/dmp/_coupling_terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index a3e3b3d..180f9fc 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -579,6 +579,9 @@ class CouplingTermDualCartesianTrajectory(CouplingTermDualCartesianPose):
         distance = np.empty((len(Y), 7))
         for t in range(len(Y)):
             distance[t] = self._right2left_pq(Y[t])
+            # q and -q represent the same orientation, avoid jumps between them
+            if t > 0 and np.dot(distance[t, 3:], distance[t - 1, 3:]) < 0.0:
+                distance[t, 3:] *= -1.0
         self.desired_distance_per_dimension = [
             interp1d(T, distance[:, d], bounds_error=False,
                      fill_value="extrapolate")
-- 
2.43.0


From 3fcc158cbea8aa3a49d7359b86527ed6813ceba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:35:09 +0000
Subject: [PATCH 27/46] fix: condition on via-points with covariances in
 several dimensions

---
 movement_primitives/promp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index f0499a5..d0e98d8 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -646,10 +646,10 @@ def via_points(promp, ts, y_cond, y_conditional_cov=None):
         Time vector at which the activations of RBFs will be queried. Note that
         we internally normalize the time so that t_max == 1.
 
-    y_cond : array, shape (n_positions,)
+    y_cond : array, shape (n_positions,) or (n_positions, n_dims)
         Desired mean position vector corresponding to each time in `ts`.
 
-    y_conditional_cov : array, shape (n_dims, n_dims), optional (default: 0)
+    y_conditional_cov : array, shape (n_positions,) or (n_positions, n_dims, n_dims), optional (default: 0)
         Covariances of desired positions.
 
     Returns
@@ -671,7 +671,7 @@ def via_points(promp, ts, y_cond, y_conditional_cov=None):
     for idx, t_i in enumerate(ts):
         promp = promp.condition_position(
             y_mean=y_cond[idx],
-            y_cov=y_conditional_cov[[idx]],
+            y_cov=y_conditional_cov[idx],
             t=t_i,
             t_max=1.0
         )
-- 
2.43.0


From c28159932063f1777b3f1aa2f2eb5fb38fc1e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:43:47 +0000
Subject: [PATCH 28/46] fix: do not move fixed joints of kinematic chains

---
 movement_primitives/kinematics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/kinematics.py b/movement_primitives/kinematics.py
index 5e1c6c6..9950ffd 100644
--- a/movement_primitives/kinematics.py
+++ b/movement_primitives/kinematics.py
@@ -38,7 +38,8 @@ class FastUrdfTransformManager(UrdfTransformManager):
             joint2A = _fast_matrix_from_axis_angle(axis, value)
         else:
             joint2A = np.eye(4)
-            joint2A[:3, 3] = value * axis
+            if joint_type == "prismatic":  # fixed joints do not move
+                joint2A[:3, 3] = value * axis
         self.transforms[(from_frame, to_frame)] = child2parent.dot(joint2A)
 
     def get_ee2base(self, ee_index, base_index):
-- 
2.43.0


From 062284628c1b3dcf0a5b4a522bd1ade22f7b88b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:22 +0000
Subject: [PATCH 29/46] fix: do not configure some meta parameters when others
 are rejected

---
 movement_primitives/base.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index d9ef74e..b0ff312 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -107,26 +107,34 @@ class PointToPointMovement(abc.ABC):
         ValueError
             If the length of the configured meta parameter is not correct.
         """
+        # check everything first so that a failure does not leave a mixture
+        # of old and new meta parameters
+        if start_y is not None:
+            check_1d_array_length(start_y, "start_y", self.n_dims)
+        if start_yd is not None:
+            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
+        if start_ydd is not None:
+            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
+        if goal_y is not None:
+            check_1d_array_length(goal_y, "goal_y", self.n_dims)
+        if goal_yd is not None:
+            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
+        if goal_ydd is not None:
+            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
+
         if t is not None:
             self.t = t
-
         if start_y is not None:
-            check_1d_array_length(start_y, "start_y", self.n_dims)
             self.start_y = start_y
         if start_yd is not None:
-            check_1d_array_length(start_yd, "start_yd", self.n_vel_dims)
             self.start_yd = start_yd
         if start_ydd is not None:
-            check_1d_array_length(start_ydd, "start_ydd", self.n_vel_dims)
             self.start_ydd = start_ydd
         if goal_y is not None:
-            check_1d_array_length(goal_y, "goal_y", self.n_dims)
             self.goal_y = goal_y
         if goal_yd is not None:
-            check_1d_array_length(goal_yd, "goal_yd", self.n_vel_dims)
             self.goal_yd = goal_yd
         if goal_ydd is not None:
-            check_1d_array_length(goal_ydd, "goal_ydd", self.n_vel_dims)
             self.goal_ydd = goal_ydd
 
     @abc.abstractmethod
-- 
2.43.0


From f9f44b187f4c48b47fadf231542f05a00207636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:22 +0000
Subject: [PATCH 30/46] fix: check size of state in step of DMP with final
 velocity

---
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 23179af..58ed7a0 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -113,6 +113,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
         self.last_t = self.t
         self.t += self.dt_
 
-- 
2.43.0


From ac1df05e7be4a70633aa49e61690e90dd0731397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:22 +0000
Subject: [PATCH 31/46] fix: check size of state in step of spring-dampers

---
 movement_primitives/spring_damper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/movement_primitives/spring_damper.py b/movement_primitives/spring_damper.py
index c138d38..3333bfd 100644
--- a/movement_primitives/spring_damper.py
+++ b/movement_primitives/spring_damper.py
@@ -68,6 +68,8 @@ class SpringDamper(PointToPointMovement):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
         self.last_t = self.t
         self.t += self.dt
 
@@ -171,6 +173,8 @@ class SpringDamperOrientation(PointToPointMovement):
         yd : array, shape (n_dims,)
             Next time derivative of state (e.g., velocity).
         """
+        assert len(last_y) == self.n_dims
+        assert len(last_yd) == self.n_vel_dims
         self.last_t = self.t
         self.t += self.dt
 
-- 
2.43.0


From ace5af93adf8b091a52a5f83e49f0fcc0fe9a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:46 +0000
Subject: [PATCH 32/46] fix: do not store rejected execution time

---
 movement_primitives/dmp/_cartesian_dmp.py           | 2 ++
 movement_primitives/dmp/_dmp.py                     | 2 ++
 movement_primitives/dmp/_dmp_with_final_velocity.py | 2 ++
 movement_primitives/dmp/_dual_cartesian_dmp.py      | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 53bbd55..4a3169f 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -259,6 +259,8 @@ class CartesianDMP(DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights_pos = self.forcing_term_pos.weights_
         weights_rot = self.forcing_term_rot.weights_
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index d58de54..b55ec3e 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -432,6 +432,8 @@ class DMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 58ed7a0..9b1591b 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -84,6 +84,8 @@ class DMPWithFinalVelocity(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 68ad345..8f07417 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -261,6 +261,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         return self._execution_time
 
     def set_execution_time_(self, execution_time):
+        if execution_time <= 0.0:
+            raise ValueError("Execution time must be > 0!")
         self._execution_time = execution_time
         weights = self.forcing_term.weights_
         self._init_forcing_term()
-- 
2.43.0


From 87ef4df9e79eeb02f40a3fb2dbc5009da3ddcf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:46 +0000
Subject: [PATCH 33/46] fix: do not set some weights of Cartesian DMPs when
 imitation fails

---
 movement_primitives/dmp/_cartesian_dmp.py      | 16 ++++++++++------
 movement_primitives/dmp/_dual_cartesian_dmp.py | 10 ++++++----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 4a3169f..79cf73d 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -419,7 +419,7 @@ class CartesianDMP(DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
-        self.forcing_term_pos.weights_[:, :] = dmp_imitate(
+        weights_pos = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -428,7 +428,7 @@ class CartesianDMP(DMPBase):
             alpha_z=self.forcing_term_pos.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term_rot.weights_[:, :] = dmp_quaternion_imitation(
+        weights_rot = dmp_quaternion_imitation(
             T, Y[:, 3:],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -439,6 +439,8 @@ class CartesianDMP(DMPBase):
             smooth_scaling=self.smooth_scaling)[0]
 
         self.configure(start_y=Y[0], goal_y=Y[-1])
+        self.forcing_term_pos.weights_[:, :] = weights_pos
+        self.forcing_term_rot.weights_[:, :] = weights_rot
 
     def get_weights(self):
         """Get weight vector of DMP.
@@ -460,10 +462,12 @@ class CartesianDMP(DMPBase):
             New weights of the DMP.
         """
         n_pos_weights = self.forcing_term_pos.weights_.size
-        self.forcing_term_pos.weights_[:, :] = weights[:n_pos_weights].reshape(
-            -1, self.n_weights_per_dim)
-        self.forcing_term_rot.weights_[:, :] = weights[n_pos_weights:].reshape(
-            -1, self.n_weights_per_dim)
+        weights_pos = weights[:n_pos_weights].reshape(
+            *self.forcing_term_pos.shape)
+        weights_rot = weights[n_pos_weights:].reshape(
+            *self.forcing_term_rot.shape)
+        self.forcing_term_pos.weights_[:, :] = weights_pos
+        self.forcing_term_rot.weights_[:, :] = weights_rot
 
 
 def dmp_quaternion_imitation(
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 8f07417..6a5dba4 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -392,7 +392,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
-        self.forcing_term.weights_[:3, :] = dmp_imitate(
+        weights = np.empty(self.forcing_term.shape)
+        weights[:3] = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -401,7 +402,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             alpha_z=self.forcing_term.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term.weights_[3:6, :] = dmp_quaternion_imitation(
+        weights[3:6] = dmp_quaternion_imitation(
             T, Y[:, 3:7],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -410,7 +411,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             alpha_z=self.forcing_term.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term.weights_[6:9, :] = dmp_imitate(
+        weights[6:9] = dmp_imitate(
             T, Y[:, 7:10],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -419,7 +420,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             alpha_z=self.forcing_term.alpha_z,
             allow_final_velocity=allow_final_velocity,
             smooth_scaling=self.smooth_scaling)[0]
-        self.forcing_term.weights_[9:12, :] = dmp_quaternion_imitation(
+        weights[9:12] = dmp_quaternion_imitation(
             T, Y[:, 10:14],
             n_weights_per_dim=self.n_weights_per_dim,
             regularization_coefficient=regularization_coefficient,
@@ -430,3 +431,4 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
             smooth_scaling=self.smooth_scaling)[0]
 
         self.configure(start_y=Y[0], goal_y=Y[-1])
+        self.forcing_term.weights_[:, :] = weights
-- 
2.43.0


From 3a31385132caac5ebe7f982f689b87efc9b751f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:06:46 +0000
Subject: [PATCH 34/46] fix: do not ignore demonstrations without time steps in
 ProMP imitation

---
 movement_primitives/promp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index d0e98d8..2234a3a 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -336,6 +336,9 @@ class ProMP:
         gamma = 0.7
 
         n_demos = len(Ts)
+        if len(Ys) != n_demos:
+            raise ValueError(
+                f"Expected {n_demos} demonstrations, got {len(Ys)}.")
         self.variance = 1.0
 
         means = np.zeros((n_demos, self.n_weights))
-- 
2.43.0


From d91babde4e44e09e62d72bb8f1f16b522f16970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:56 +0000
Subject: [PATCH 35/46] fix: initialize activations of a single via-point

---
 movement_primitives/dmp/_state_following_dmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 8d922c5..1210b22 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -94,7 +94,7 @@ class StateFollowingForcingTerm:
         self.log_overlap = float(-math.log(self.overlap))
         self.execution_time = self.goal_t - self.start_t
         self.centers = np.empty(n_viapoints)
-        self.widths = np.empty(n_viapoints)
+        self.widths = np.ones(n_viapoints)  # used if there is only one
         step = self.execution_time / self.n_viapoints
         # do first iteration outside loop because we need access to i and i - 1
         # in loop
-- 
2.43.0


From ae990fd2235df3d985a1ecbf59b256223e69f080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:06 +0000
Subject: [PATCH 36/46] fix: keep state-following DMP finite after the end of
 the movement

With about hundred via-points all basis functions underflow after the
execution time, and normalizing them resulted in NaN positions.
---
 movement_primitives/dmp/_state_following_dmp.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_state_following_dmp.py b/movement_primitives/dmp/_state_following_dmp.py
index 1210b22..f72b878 100644
--- a/movement_primitives/dmp/_state_following_dmp.py
+++ b/movement_primitives/dmp/_state_following_dmp.py
@@ -115,7 +115,11 @@ class StateFollowingForcingTerm:
     def _activations(self, z, normalized):
         z = np.atleast_2d(z)  # 1 x n_steps
         squared_dist = (z - self.centers[:, np.newaxis]) ** 2
-        activations = np.exp(-self.widths[:, np.newaxis] * squared_dist)
+        exponents = -self.widths[:, np.newaxis] * squared_dist
+        if normalized:
+            # avoid that all activations vanish far away from the centers
+            exponents -= exponents.max(axis=0)
+        activations = np.exp(exponents)
         if normalized:
             activations /= activations.sum(axis=0)
         return activations
-- 
2.43.0


From 5bf1ce0d43c9b77444cfe7abd9fe111c3a1abf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:13:20 +0000
Subject: [PATCH 37/46] fix: ignore goal velocity in potential field as in
 execution of the DMP

---
 movement_primitives/dmp_potential_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index e3a2eee..c8037d4 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -56,7 +56,9 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
 
     z = dmp.forcing_term.phase(dmp.t) if dmp.smooth_scaling else 0.0
     ts = dmp_transformation_system(
-        Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y, dmp.goal_yd, dmp.goal_ydd,
+        Y, Yd, dmp.alpha_y, dmp.beta_y, dmp.goal_y,
+        # goal velocity and acceleration are ignored by this type of DMP
+        np.zeros_like(dmp.goal_yd), np.zeros_like(dmp.goal_ydd),
         dmp.start_y, z, dmp.execution_time_)
     ft = np.empty_like(ts)
     ft[:, :] = (dmp.forcing_term(dmp.t) / dmp.execution_time_ ** 2).ravel()
-- 
2.43.0


From 291e328e26c43d92a6cf542bd17793011a28d88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:21:04 +0000
Subject: [PATCH 38/46] fix: use duration of demonstrations instead of their
 last time stamp

---
 movement_primitives/dmp_to_state_space_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp_to_state_space_distribution.py b/movement_primitives/dmp_to_state_space_distribution.py
index 64ca208..cde3179 100644
--- a/movement_primitives/dmp_to_state_space_distribution.py
+++ b/movement_primitives/dmp_to_state_space_distribution.py
@@ -85,7 +85,7 @@ def estimate_dmp_parameter_distribution(dataset, n_weights_per_dim, int_dt, verb
     else:
         iterator = dataset
     for T, P in iterator:
-        execution_time = T[-1]
+        execution_time = T[-1] - T[0]
         dt = np.mean(np.diff(T))
         if dt < 0.005:  # HACK
             continue
-- 
2.43.0


From 6f63bcb2244c10fc40abe4ae9d77a5f3a39eaabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:24:49 +0000
Subject: [PATCH 39/46] fix: do not normalize quaternions of demonstrations in
 place

---
 movement_primitives/dmp/_cartesian_dmp.py      | 1 +
 movement_primitives/dmp/_dual_cartesian_dmp.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 79cf73d..8eaac8f 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -419,6 +419,7 @@ class CartesianDMP(DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        Y = np.copy(Y)  # quaternions will be normalized in place
         weights_pos = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 6a5dba4..309a3b0 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -392,6 +392,7 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
+        Y = np.copy(Y)  # quaternions will be normalized in place
         weights = np.empty(self.forcing_term.shape)
         weights[:3] = dmp_imitate(
             T, Y[:, :3],
-- 
2.43.0


From 266dfdfe50081212e33717aa716e32a2a96ca564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:25 +0000
Subject: [PATCH 40/46] fix: start trajectory coupling at the beginning of the
 demonstration

The time of the coupling term starts at 0, but the relative poses were
interpolated over the original time stamps of the demonstration. If these do
not start at 0, relative poses were extrapolated or shifted in time.
---
 movement_primitives/dmp/_coupling_terms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 180f9fc..80d2f83 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -582,6 +582,8 @@ class CouplingTermDualCartesianTrajectory(CouplingTermDualCartesianPose):
             # q and -q represent the same orientation, avoid jumps between them
             if t > 0 and np.dot(distance[t, 3:], distance[t - 1, 3:]) < 0.0:
                 distance[t, 3:] *= -1.0
+        # time of the coupling term starts at 0 with the execution
+        T = np.asarray(T) - T[0]
         self.desired_distance_per_dimension = [
             interp1d(T, distance[:, d], bounds_error=False,
                      fill_value="extrapolate")
-- 
2.43.0


From 3452ee76e2cf38a6bc2e66f24cfb1f5c7fb48545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:26 +0000
Subject: [PATCH 41/46] fix: store meta parameters of movement primitives as
 copies with float values

---
 movement_primitives/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/base.py b/movement_primitives/base.py
index b0ff312..2bfa604 100644
--- a/movement_primitives/base.py
+++ b/movement_primitives/base.py
@@ -125,17 +125,17 @@ class PointToPointMovement(abc.ABC):
         if t is not None:
             self.t = t
         if start_y is not None:
-            self.start_y = start_y
+            self.start_y = np.array(start_y, dtype=float)
         if start_yd is not None:
-            self.start_yd = start_yd
+            self.start_yd = np.array(start_yd, dtype=float)
         if start_ydd is not None:
-            self.start_ydd = start_ydd
+            self.start_ydd = np.array(start_ydd, dtype=float)
         if goal_y is not None:
-            self.goal_y = goal_y
+            self.goal_y = np.array(goal_y, dtype=float)
         if goal_yd is not None:
-            self.goal_yd = goal_yd
+            self.goal_yd = np.array(goal_yd, dtype=float)
         if goal_ydd is not None:
-            self.goal_ydd = goal_ydd
+            self.goal_ydd = np.array(goal_ydd, dtype=float)
 
     @abc.abstractmethod
     def step(self, last_y, last_yd):
-- 
2.43.0


From a53077d85c9907f794dff9c34146b747ee8055da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:26 +0000
Subject: [PATCH 42/46] fix: do not truncate velocities of demonstrations with
 integer positions

---
 movement_primitives/dmp/_cartesian_dmp.py           | 3 ++-
 movement_primitives/dmp/_dmp.py                     | 4 ++--
 movement_primitives/dmp/_dmp_with_final_velocity.py | 4 ++--
 movement_primitives/dmp/_dual_cartesian_dmp.py      | 3 ++-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/movement_primitives/dmp/_cartesian_dmp.py b/movement_primitives/dmp/_cartesian_dmp.py
index 8eaac8f..1523f66 100644
--- a/movement_primitives/dmp/_cartesian_dmp.py
+++ b/movement_primitives/dmp/_cartesian_dmp.py
@@ -419,7 +419,8 @@ class CartesianDMP(DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
-        Y = np.copy(Y)  # quaternions will be normalized in place
+        # quaternions will be normalized in place
+        Y = np.array(Y, dtype=float)
         weights_pos = dmp_imitate(
             T, Y[:, :3],
             n_weights_per_dim=self.n_weights_per_dim,
diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index b55ec3e..de9099d 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -660,12 +660,12 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     """
     n_dims = Y.shape[1]
     DT = np.gradient(T)
-    Yd = np.empty_like(Y)
+    Yd = np.empty(Y.shape)
     for d in range(n_dims):
         Yd[:, d] = np.gradient(Y[:, d]) / DT
     if not allow_final_velocity:
         Yd[-1, :] = 0.0
-    Ydd = np.empty_like(Y)
+    Ydd = np.empty(Y.shape)
     for d in range(n_dims):
         Ydd[:, d] = np.gradient(Yd[:, d]) / DT
     Ydd[-1, :] = 0.0
diff --git a/movement_primitives/dmp/_dmp_with_final_velocity.py b/movement_primitives/dmp/_dmp_with_final_velocity.py
index 9b1591b..0a36522 100644
--- a/movement_primitives/dmp/_dmp_with_final_velocity.py
+++ b/movement_primitives/dmp/_dmp_with_final_velocity.py
@@ -320,12 +320,12 @@ def determine_forces(T, Y, alpha_y, beta_y, alpha_z, allow_final_velocity,
     n_dims = Y.shape[1]
     DT = np.diff(T)
 
-    Yd = np.empty_like(Y)
+    Yd = np.empty(Y.shape)
     Yd[0] = 0.0
     for d in range(n_dims):
         Yd[1:, d] = np.diff(Y[:, d]) / DT
 
-    Ydd = np.empty_like(Y)
+    Ydd = np.empty(Y.shape)
     Ydd[0] = 0.0
     for d in range(n_dims):
         Ydd[1:, d] = np.diff(Yd[:, d]) / DT
diff --git a/movement_primitives/dmp/_dual_cartesian_dmp.py b/movement_primitives/dmp/_dual_cartesian_dmp.py
index 309a3b0..bc24e45 100644
--- a/movement_primitives/dmp/_dual_cartesian_dmp.py
+++ b/movement_primitives/dmp/_dual_cartesian_dmp.py
@@ -392,7 +392,8 @@ class DualCartesianDMP(WeightParametersMixin, DMPBase):
         allow_final_velocity : bool, optional (default: False)
             Allow a final velocity.
         """
-        Y = np.copy(Y)  # quaternions will be normalized in place
+        # quaternions will be normalized in place
+        Y = np.array(Y, dtype=float)
         weights = np.empty(self.forcing_term.shape)
         weights[:3] = dmp_imitate(
             T, Y[:, :3],
-- 
2.43.0


From 2acabc973c4d8819e3e6cedf88e018e56e7ee097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:41:27 +0000
Subject: [PATCH 43/46] fix: accept integer obstacle position in fast obstacle
 avoidance

---
 movement_primitives/dmp/_coupling_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movement_primitives/dmp/_coupling_terms.py b/movement_primitives/dmp/_coupling_terms.py
index 80d2f83..412178c 100644
--- a/movement_primitives/dmp/_coupling_terms.py
+++ b/movement_primitives/dmp/_coupling_terms.py
@@ -86,7 +86,7 @@ class CouplingTermObstacleAvoidance2D:
     """
     def __init__(self, obstacle_position, gamma=1000.0, beta=20.0 / math.pi,
                  fast=False):
-        self.obstacle_position = obstacle_position
+        self.obstacle_position = np.asarray(obstacle_position, dtype=float)
         self.gamma = gamma
         self.beta = beta
         if fast and obstacle_avoidance_acceleration_2d_fast_available:
-- 
2.43.0


From f893e1cbb5eccc5487b26774e35cb2b8bce1a6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:49:00 +0000
Subject: [PATCH 44/46] fix: store copies of the given weight distribution in
 ProMP

---
 movement_primitives/promp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/promp.py b/movement_primitives/promp.py
index 2234a3a..92f42f7 100644
--- a/movement_primitives/promp.py
+++ b/movement_primitives/promp.py
@@ -297,8 +297,8 @@ class ProMP:
         self : ProMP
             This object
         """
-        self.weight_mean = mean
-        self.weight_cov = cov
+        self.weight_mean = np.array(mean, dtype=float)
+        self.weight_cov = np.array(cov, dtype=float)
         return self
 
     def imitate(self, Ts, Ys, n_iter=1000, min_delta=1e-5, verbose=0):
-- 
2.43.0


From b0dcc70e8c01a0a456345ae8b00657c5dd3129a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:07:11 +0000
Subject: [PATCH 45/46] fix: apply precomputed coupling velocity in RK4 steps

---
 movement_primitives/dmp/_dmp.py  | 2 +-
 movement_primitives/dmp_fast.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/movement_primitives/dmp/_dmp.py b/movement_primitives/dmp/_dmp.py
index de9099d..2fecd46 100644
--- a/movement_primitives/dmp/_dmp.py
+++ b/movement_primitives/dmp/_dmp.py
@@ -129,7 +129,7 @@ def dmp_step_rk4(
 
     if coupling_term is not None:
         cd, _ = coupling_term.coupling(current_y, current_yd)
-        current_yd += cd / execution_time
+    current_yd += cd / execution_time
 
 
 def _dmp_acc(Y, V, cdd, alpha_y, beta_y, goal_y, goal_yd, goal_ydd,
diff --git a/movement_primitives/dmp_fast.pyx b/movement_primitives/dmp_fast.pyx
index b0c8315..35dc2cb 100644
--- a/movement_primitives/dmp_fast.pyx
+++ b/movement_primitives/dmp_fast.pyx
@@ -328,7 +328,7 @@ cpdef dmp_step_rk4(
 
     if coupling_term is not None:
         cd[:], _ = coupling_term.coupling(current_y, current_yd)
-        current_yd += cd / execution_time
+    current_yd += cd / execution_time
 
 
 cdef _dmp_acc(
-- 
2.43.0


From aec4bc87da1b1a8657f4d409a907f638cf71bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:38:07 +0000
Subject: [PATCH 46/46] fix: make exaggerate_arrows scale the arrows of the
 potential field

The scale of the arrows was computed after they had been multiplied, so
that the factor had no effect. The default is one now, which keeps the
default appearance.
---
 movement_primitives/dmp_potential_field.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/movement_primitives/dmp_potential_field.py b/movement_primitives/dmp_potential_field.py
index c8037d4..ca64c00 100644
--- a/movement_primitives/dmp_potential_field.py
+++ b/movement_primitives/dmp_potential_field.py
@@ -74,7 +74,7 @@ def potential_field_2d(dmp, x_range, y_range, n_ticks, obstacle=None):
 
 
 def plot_potential_field_2d(ax, dmp, x_range, y_range, n_ticks, obstacle=None,
-                            exaggerate_arrows=25.0):  # pragma: no cover
+                            exaggerate_arrows=1.0):  # pragma: no cover
     """Plot 2D potential field of a DMP.
 
     We will indicate the influence of the transformation system at each
@@ -102,18 +102,19 @@ def plot_potential_field_2d(ax, dmp, x_range, y_range, n_ticks, obstacle=None,
     obstacle : array, shape (2,), optional (default: None)
         Obstacle position in the plane.
 
-    exaggerate_arrows : float, optional (default: 25)
+    exaggerate_arrows : float, optional (default: 1)
         Multiply arrow sizes by this factor.
     """
     xx, yy, ft, ts, ct, acc = potential_field_2d(
         dmp, x_range, y_range, n_ticks, obstacle)
 
+    quiver_scale = np.abs(acc).max() * n_ticks
+
     ft *= exaggerate_arrows
     ts *= exaggerate_arrows
     ct *= exaggerate_arrows
     acc *= exaggerate_arrows
 
-    quiver_scale = np.abs(acc).max() * n_ticks
     ax.quiver(xx, yy, ts[:, :, 0], ts[:, :, 1], scale=quiver_scale, color="g")
     ax.quiver(xx, yy, ft[:, :, 0], ft[:, :, 1], scale=quiver_scale, color="r")
     ax.quiver(xx, yy, ct[:, :, 0], ct[:, :, 1], scale=quiver_scale, color="y")
-- 
2.43.0


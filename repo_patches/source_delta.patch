From dd04bc2cf21f29978add607e19406c67e4322f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 01/62] fix: CBOMemory reports the historical best position as
 best particle

The energies belong to y, not to the current positions x.
---
 cbx/dynamics/cbo_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..9afe2e0 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -132,6 +132,6 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
-- 
2.43.0


From 82f75571ba4cf4d04c2ac68885cd8a43c765493c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 02/62] fix: CBOMemory with mini-batches and after some runs
 terminated

The energies of the batch were not selected, so any batch smaller than N
and any partial termination raised a shape error.
---
 cbx/dynamics/cbo_memory.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 9afe2e0..6452f81 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x))
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
@@ -103,12 +103,14 @@ class CBOMemory(CBO):
         # evaluation of objective function on all particles
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
+        energy_old = self.energy[self.particle_idx]
+        
         # historical best positions of particles 
         self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
+            ((energy_old>energy_new)[self.ergexp]) * 
             (self.x[self.particle_idx] - self.y[self.particle_idx])
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +126,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
-- 
2.43.0


From 9b1be7b066b50995f3b9b11817e3ff382f17fa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 03/62] fix: PSO velocities point towards the consensus and the
 historical best

The drifts are x - c(y) and x - y, so adding them pushed the particles away
from both; the inertia term of the referenced scheme is m*v, not m*dt*v.
---
 cbx/dynamics/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..c98743a 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -125,8 +125,8 @@ class PSO(CBXDynamic):
         # dynamcis update
         # velocities of particles
         self.v[ind] = (
-            self.m * self.dt * self.v[ind] +
-            self.correction(self.lamda * self.dt * consensus_drift) +
+            self.m * self.v[ind] -
+            self.correction(self.lamda * self.dt * consensus_drift) -
             self.lamda_memory * self.dt * memory_drift +
             self.s_consensus + 
             self.s_memory)/(self.m+self.gamma*self.dt)
-- 
2.43.0


From c17a75eb8d754f787c3c0b2f6e1e3ef0894c04cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 04/62] fix: PSO with mini-batches and after some runs
 terminated

The energies of the batch were not selected (shape error), and evaluations
were also counted for terminated runs and with the wrong axis.
---
 cbx/dynamics/pso.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index c98743a..dea8006 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x))
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
@@ -135,13 +135,13 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_new = self.eval_f(self.x[ind])
+        energy_old = self.energy[ind]
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self, x_batch, energy) -> None:
-- 
2.43.0


From efc1c924a72e4e88418af14f57412732de07ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 05/62] fix: PSO reports the historical best position as best
 particle

It took the previous position, whose energy is not the one reported.
---
 cbx/dynamics/pso.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index dea8006..127eb7d 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -144,6 +144,14 @@ class PSO(CBXDynamic):
         self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
+    def update_best_cur_particle(self,) -> None:
+        self.f_min = self.energy.min(axis=-1)
+        self.f_min_idx = self.energy.argmin(axis=-1)
+
+        # the energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
+        self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
+
     def compute_consensus(self, x_batch, energy) -> None:
         r"""Computes the consensus point as a weighted mean over the historical-best positions.
 
-- 
2.43.0


From e1e0dc8f87451c858c2f92bf863172207504a016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 06/62] fix: Heaviside corrections with batches, terminated
 runs and array domains

Use the energies of the updated particles, count one evaluation of the
consensus for each active run (not M for every run), and broadcast over all
domain axes.
---
 cbx/correction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..082c4a5 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,12 +73,12 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1] # update number of function evaluations
+        return self.correct(x, dyn.f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * np.where(z > 0, 1,0)[(...,) + (None,) * (x.ndim - z.ndim)]
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -91,6 +91,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[(...,) + (None,) * (x.ndim - z.ndim)]
     
 
-- 
2.43.0


From 10d5a7ecf277aae8340623972f051c148e6a3695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 07/62] fix: energy stagnation criterion for several runs

The consensus has one row per active run; indexing it with run numbers raised
an IndexError and its energies did not fit the loss buffer for M > 1.
---
 cbx/utils/termination.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..569247f 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -121,10 +121,11 @@ class energy_stagnation_term:
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
         # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
+        # (the consensus only contains the active runs)
+        E = dyn.f(dyn.consensus)
+        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
         # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
+        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From 35f30339b981cd7ab625f052ed18d622a1767806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 08/62] fix: initial particles in the history are a copy

The in-place updates of the dynamics changed the recorded initial positions.
---
 cbx/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..00bf79f 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
-- 
2.43.0


From 4b181e3b70ec39aab51e946786398066923ba7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 09/62] fix: do not append trackers to the extra_tracks list of
 the caller

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..0094300 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -476,7 +476,7 @@ class ParticleDynamic:
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
-- 
2.43.0


From d4241ed449054512579ee48e9f634068b5ff3b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 10/62] fix: reset keeps the tracking configuration

init_history without arguments fell back to the default trackers.
---
 cbx/dynamics/pdyn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 0094300..973b26e 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -471,7 +471,8 @@ class ParticleDynamic:
         Returns:
             None
         """
-        track_args = track_args if track_args else {}  
+        track_args = track_args if track_args else getattr(self, 'track_args', {})
+        self.track_args = track_args
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
-- 
2.43.0


From b7df7b7b29ea7925869f76f463b74df3fc61262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 11/62] fix: update norm and mean drift on multi-dimensional
 domains

Both reduced the last two axes only, which is not one value per run if the
domain has more than one axis.
---
 cbx/dynamics/pdyn.py | 4 ++--
 cbx/utils/history.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 973b26e..8b86d21 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -283,7 +283,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -920,7 +920,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 00bf79f..4296dd3 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -151,7 +151,7 @@ class track_drift_mean(track):
         dyn.history['drift_mean'] = []
     @staticmethod
     def update(dyn) -> None:
-        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.drift), axis=(-2,-1)))
+        dyn.history['drift_mean'].append(np.mean(np.abs(dyn.drift), axis=tuple(range(1, dyn.drift.ndim))))
         
 class track_drift(track):
     """
-- 
2.43.0


From 4e226ed78cfbb0a187de7bc959832785179ffc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 12/62] fix: objectives keep the shape of the ensemble for M =
 1 or N = 1

accelerated_sinus, nd_sinus, p_4th_order and Multimodal squeezed their output.
---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index b7adc88..62f83ea 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -571,7 +571,7 @@ class accelerated_sinus(cbx_objective):
 
     def apply(self, x):
         x = np.linalg.norm(x, axis=-1)
-        return np.sin((self.a * x)/(1+x*x)).squeeze() + 1
+        return np.sin((self.a * x)/(1+x*x)) + 1
 
 
 class nd_sinus(cbx_objective):
@@ -586,7 +586,7 @@ class nd_sinus(cbx_objective):
         
         
         res = (np.sin(z) + 1) * (x[...,0]**4 - x[...,0]**2 + 1)
-        return res.squeeze() 
+        return res
 
   
 class p_4th_order(cbx_objective):
@@ -597,7 +597,7 @@ class p_4th_order(cbx_objective):
         n =  x
         
         res = (np.sum(n**4,axis=-1) - np.sum(n**2,axis=-1) + 1)
-        return res.squeeze() 
+        return res
 
 
 class Quadratic(cbx_objective):
@@ -657,7 +657,7 @@ class Multimodal(cbx_objective):
     def apply(self, x):
         res = 0
         for mn in self.mns:
-            res += mn.pdf(x)
+            res += mn.pdf(x).reshape(x.shape[:-1])
         return -np.log(res)
             
     
-- 
2.43.0


From 70dfc64ec3d8048461c163aeb1f0c104eb044bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 13/62] fix: multimodal objectives accept shift arrays

The truth value of an array raised a ValueError, also for the documented example.
---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 62f83ea..9ab3049 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -416,7 +416,7 @@ class Rastrigin_multimodal(cbx_objective):
     def __init__(self, alpha = None, z = None):
         super().__init__()
         self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
 
         self.V = Rastrigin()
         self.minima = self.z
@@ -548,7 +548,7 @@ class Ackley_multimodal(cbx_objective):
     def __init__(self, alpha = None, z = None):
         super().__init__()
         self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
         self.V = Ackley()
         self.minima = self.z
         self.num_terms = len(self.alpha)
-- 
2.43.0


From 8f0135bb4916b8a660e0be57a7fe5e5c63718dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 14/62] fix: advertised minimisers of Bukin6, Himmelblau and
 Holder_table

Bukin6 attains its minimum at (-10, 1); the scaling and shift parameters of
the other two move their minimisers.
---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 9ab3049..638fcba 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -287,7 +287,7 @@ class Himmelblau(cbx_objective):
     def __init__(self, factor=1.0):
         super().__init__()
         self.factor = factor
-        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])
+        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])/self.factor
         
     def apply(self, x):
         x = self.factor*x
@@ -680,7 +680,7 @@ class Bukin6(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = 0` at :math:`(x,y) = (0,0)`
+    - :math:`f(x,y) = 0` at :math:`(x,y) = (-10,1)`
     
     Examples
     --------
@@ -732,7 +732,7 @@ class Bukin6(cbx_objective):
     """
     def __init__(self,):
         super().__init__()
-        self.minima = np.array([[0, 0]])
+        self.minima = np.array([[-10, 1]])
     
     def apply(self, x):
         return 100 * np.sqrt(np.abs(x[...,1] - 0.01 * x[...,0]**2)) + 0.01 * np.abs(x[...,0] + 10)
@@ -1048,7 +1048,7 @@ class Holder_table(cbx_objective):
         super().__init__()
         self.factor = factor
         self.shift = shift
-        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])
+        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])/self.factor + self.shift
 
     def apply(self, x):
         x = (x - self.shift) * self.factor
-- 
2.43.0


From 8610e1b8d6acdffb812d175254283a20e25acd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 15/62] fix: Taz kernel does not couple the runs

The distances were scaled by the maximum over all runs, and collapsed
ensembles gave 0/0.
---
 cbx/dynamics/polarcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..7b1f7be 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,9 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        # scale by the diameter of each run
+        diam = np.max(dists, axis=tuple(range(1, dists.ndim)), keepdims=True)
+        dists =  np.true_divide(1, self.kappa) *  dists/np.where(diam > 0, diam, 1.)
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From 361251fbf94544da64bd8b02e625843fe74ad423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 16/62] fix: covariance of PolarCBO for several runs, batches
 and terminated runs

The run axis of energies and drift was broadcast against a particle axis.
---
 cbx/dynamics/polarcbo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 7b1f7be..83498e3 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -264,10 +264,11 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        energy = self.energy[self.consensus_idx]
+        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha[self.active_runs_idx, :, None] * energy[:, None, :]
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
-        D = np.sum(D * coeffs[..., None, None], axis = -3)
+        D = np.sum(D[:, None, ...] * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 756fc46412c91391fd282ec27251fcb14229661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 17/62] fix: covariance noise with mini-batches and after some
 runs terminated

Weights and scaling have to be taken from the particles that are updated.
---
 cbx/dynamics/pdyn.py | 2 +-
 cbx/noise.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 8b86d21..8e7dbd2 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -900,7 +900,7 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From 484e556b4b6200b2ef95ed1354a76acaf9ae08f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 18/62] fix: DriftConstrainedCBO moves without constraints

Without constraints the linear system is the identity, its solution is not 0.
---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From a8845f82366543a694dabe3eaed6bb0013b26657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:04 +0000
Subject: [PATCH 19/62] fix: gradient and Hessian of quadric constraints with
 non-symmetric matrices

---
 cbx/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 6a2ce4b..28be35a 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -118,7 +118,8 @@ class NoConstraint(Constraint):
     
 class quadricConstraint(Constraint):
     def __init__(self, A = None, b = None, c = 0):
-        self.A = A
+        # only the symmetric part enters x^T A x, gradient and Hessian rely on it
+        self.A = A if A is None else 0.5 * (A + A.T)
         self.b = b
         self.c = c
         
-- 
2.43.0


From 7157fe61e048a090518e398ff8fd8d846c917083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 20/62] fix: constrained dynamics with mini-batches and after
 some runs terminated

DriftConstrainedCBO, RegCombinationCBO and HyperSurfaceCBO updated all particles
of all runs, although consensus and noise only cover the active ones.
---
 cbx/dynamics/driftconstrainedcbo.py |  9 +++++----
 cbx/dynamics/hypersurfacecbo.py     | 23 ++++++++++++-----------
 cbx/dynamics/regcombinationcbo.py   | 11 ++++++-----
 3 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..6a4b1ad 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,30 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-        x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        x_tilde = drift_and_noise - self.noise_constr(x)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
-    def noise_constr_iso(self,):
+    def noise_constr_iso(self, x):
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(x) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(x)
         )
     
-    def noise_constr_aniso(self,):
+    def noise_constr_aniso(self, x):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From 41fac84a64caa73c6f8700e527fe16487d6ba7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:42 +0000
Subject: [PATCH 21/62] fix: independent noise of DriftConstrainedCBO

It ignored the sampler and seed of the dynamic, failed once some runs had
terminated, and made best_particle differ from the point its energy belongs to.
---
 cbx/dynamics/driftconstrainedcbo.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..f0ac9f5 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -47,19 +47,28 @@ class DriftConstrainedCBO(CBO):
         self.sigma_indep = sigma_indep
         
         
-    def inner_step(self,):
+    def pre_step(self,):
+        # before the old positions are saved, since the energies are 
+        # evaluated after the independent noise
         self.indep_noise_step()
+        super().pre_step()
+        
+    def inner_step(self,):
         dc_inner_step(self)
+        self.consensus_runs = self.active_runs_idx
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
+            # the consensus has one row for each run that was active in the last step
+            runs = np.intersect1d(self.consensus_runs, self.active_runs_idx)
+            consensus = self.consensus[np.isin(self.consensus_runs, runs)]
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                cxd = (np.linalg.norm(self.x[runs] - consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
+                idx = runs[cxd < self.eps_indep]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = self.sampler(size=((len(idx),) + self.x.shape[1:]))
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-- 
2.43.0


From 770b2221e95613a78849b92404039716d48c7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 22/62] fix: domain of the ball mirror map respects its center

---
 cbx/dynamics/mirrorcbo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..09f2b1c 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -60,9 +60,8 @@ class ProjectionBall(ProjectionMirrorMap):
         self.thresh = 1e-5
         
     def __call__(self, theta):
-        nx = np.linalg.norm(theta, axis=-1)
-        idx = np.where(nx > (self.radius + self.thresh))
-        nx = 0.5*nx**2 
+        nx = 0.5*np.linalg.norm(theta, axis=-1)**2
+        idx = np.where(np.linalg.norm(theta - self.center, axis=-1) > (self.radius + self.thresh))
         nx[idx] = np.inf
         return nx
     
-- 
2.43.0


From f4f4918c554d7770d6ca604378e66f5458636b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 23/62] fix: hyperplane mirror map with its default normal
 vector

The norm was that of a vector of length one in every dimension, so that the
result did not lie on the hyperplane.
---
 cbx/dynamics/mirrorcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 09f2b1c..4ec343c 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -80,7 +80,9 @@ class ProjectionHyperplane(ProjectionMirrorMap):
         self.b = b
         
     def grad_conj(self, y):
-        return y - ((self.a * y).sum(axis=-1, keepdims=True) - self.b)/self.norm_a * self.a
+        a = self.a * np.ones(y.shape[-1:])
+        norm_a = (a**2).sum(axis=-1, keepdims=True)
+        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/norm_a * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
-- 
2.43.0


From 7192444b924e9d99a52d867549df29a3d5e988c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 24/62] fix: square mirror map projects onto the square of the
 given size

The largest coordinate was always set to +-1, and to 0 at the origin.
---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 4ec343c..90e1f01 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -101,7 +101,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = self.r * np.where(y[np.arange(y.shape[0]), idx] < 0, -1, 1)
         return y.reshape(s)
 
 
-- 
2.43.0


From ce5ecd39da485ed1a14ded998015bc16a288fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 25/62] fix: inverse of the log barrier mirror map at and close
 to zero

The equivalent form has no division by zero and no cancellation.
---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 90e1f01..e44d4d7 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -126,7 +126,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.sqrt(1 + y**2))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From 12fdd51a66887fcd412f970188932a46d8f9f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 26/62] fix: overflow in the simplex mirror map

---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index e44d4d7..16d73e7 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -139,7 +139,8 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
-        return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
+        e = np.exp(y - y.max(axis=-1, keepdims=True))
+        return e/e.sum(axis=-1, keepdims=True)
     
     
     
-- 
2.43.0


From a82d00cd25748f61c31718af84329235f41d5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 27/62] fix: Hessian of the scaled L2 map and pointwise values
 of the nonsmooth barrier

---
 cbx/dynamics/mirrorcbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 16d73e7..531cdac 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -159,7 +159,7 @@ class L2(MirrorMap):
     
     def hessian(self, theta):
         n,m = theta.shape
-        return np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
+        return self.lamda * np.expand_dims(np.ones(theta.shape),axis=1)*np.eye(m)
    
     
    
@@ -188,7 +188,7 @@ class weighted_L2(MirrorMap):
     
 class NonsmoothBarrier(MirrorMap):
     def __call__(self, theta):
-        return np.sum(np.abs(theta)/(1-np.abs(theta)))
+        return np.sum(np.abs(theta)/(1-np.abs(theta)), axis=-1)
     
     def grad(self, theta):        
         return np.sign(theta)/(1 + np.abs(theta)**2 - 2*np.abs(theta))
-- 
2.43.0


From e430810037157b657127849c0989d5578ec7af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 28/62] fix: post processing removes NaNs also with
 copy_nan_to_num=True

The result of the copying variant was discarded, so RegCombinationCBO kept NaNs.
---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 8e7dbd2..54b113e 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,7 +39,7 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
         dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
-- 
2.43.0


From f018bebf4c98ed075066aa7d4efc695c5e87b16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 29/62] fix: regularized objectives can be evaluated on any
 number of runs

The first call fixed the number of runs, so that evaluations for a subset of
runs (e.g. after some terminated) failed.
---
 cbx/regularizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..925fd3e 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -75,10 +75,10 @@ class regularize_objective:
         self.p = p
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
         return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
+        # one parameter per run, only needed if a scheduler adapts them
         if not self.lamda_broadcasted:
             M = x.shape[0]
             self.lamda = np.ones((M,1)) * self.lamda
@@ -124,6 +124,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-- 
2.43.0


From a57e2143fae177e07c0ba250d07269dcc75e46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 30/62] fix: regularization parameter rule: bound on theta and
 underflowing weights

theta_max was applied only where theta decreases, and the weighted mean was
0/0 for large alpha*f.
---
 cbx/regularizers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 925fd3e..3939215 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -92,7 +92,8 @@ def simple_param_rule_mean(dyn):
     return dyn.f.reg_func(dyn.x).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
+    E = -dyn.alpha * dyn.eval_f(dyn.x)
+    E = np.exp(E - E.max(axis=-1, keepdims=True))
     R = dyn.f.reg_func(dyn.x)
     return (E * R).sum(axis=-1)/E.sum(axis=-1)
     
@@ -128,8 +129,8 @@ class regularization_paramter_scheduler(param_update):
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-        self.theta[~t] = np.clip(self.theta[~t]/self.factor_theta, 
-                                 a_max= self.theta_max, a_min=None)
+        self.theta[~t] /= self.factor_theta
+        self.theta = np.clip(self.theta, a_max=self.theta_max, a_min=None)
         dyn.f.lamda[~t] *= self.factor_lamda
         dyn.f.lamda = np.clip(dyn.f.lamda, a_max=self.lamda_max, a_min=0)
             
-- 
2.43.0


From eef16dbd2e180271760aab1f9655303a29c5939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 31/62] fix: success evaluation respects its verbosity

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..31c5efd 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -36,7 +36,7 @@ class value_thresh:
 class evaluation:
     def __init__(self, criteria=None, verbosity = 1):
         self.criteria = criteria
-        self.verbosity = 1
+        self.verbosity = verbosity
         
     def __call__(self, dyn):
         idx = np.arange(dyn.M)
-- 
2.43.0


From f90ea5f7eb460f9138aa3a71504f8ebf2d217857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 32/62] fix: CBS.optimize returns the best particle

---
 cbx/dynamics/cbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..bc249c4 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -47,6 +47,7 @@ class CBS(CBO):
                 
     def optimize(self, sched = 'default'):
         self.run(sched=sched)
+        return self.best_particle
         
     def default_sched(self,):
         return scheduler([])
-- 
2.43.0


From ee6c0149754a9f0973f25c96553c0c2525d49466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 33/62] fix: contour plots accept zero as limit of the second
 axis

---
 cbx/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index 6eb3914..c9b28a4 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -21,8 +21,8 @@ def contour_2D(f, ax = None, num_pts = 50,
     if ax is None:
         ax = plt.gca()
     dims = dims if dims is not None else [0,1]
-    y_min = x_min if (not y_min) else y_min
-    y_max = x_max if (not y_max) else y_max
+    y_min = x_min if y_min is None else y_min
+    y_max = x_max if y_max is None else y_max
     x = np.linspace(x_min, x_max, num_pts)
     y = np.linspace(y_min, y_max, num_pts)
     X, Y = np.meshgrid(x,y)
-- 
2.43.0


From 81b7c675922d807cd47a66760dd18bf858f16a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 34/62] fix: consensus stagnation resampling with numpy
 dynamics

It relies on to_numpy, which only the torch dynamics had.
---
 cbx/dynamics/pdyn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 54b113e..7c9f4ba 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -176,6 +176,9 @@ class ParticleDynamic:
         rng = np.random.default_rng(self.seed)
         self.sampler = sampler if sampler is not None else rng.standard_normal
         
+    def to_numpy(self, x):
+        return x
+
     def init_x(self, x, M, N, d):
         """
         Initialize the particle system with the given parameters.
-- 
2.43.0


From bf96a7ec142512d11c33877bf9cf5cb6444b0d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 35/62] fix: remember the runs of the consensus where it is
 computed

Follow-up for the independent noise of DriftConstrainedCBO.
---
 cbx/dynamics/driftconstrainedcbo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index f0ac9f5..9b150bf 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -53,13 +53,16 @@ class DriftConstrainedCBO(CBO):
         self.indep_noise_step()
         super().pre_step()
         
+    def compute_consensus(self,):
+        super().compute_consensus()
+        self.consensus_runs = self.active_runs_idx
+        
     def inner_step(self,):
         dc_inner_step(self)
-        self.consensus_runs = self.active_runs_idx
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
-            # the consensus has one row for each run that was active in the last step
+            # the consensus has one row for each run that was active when it was computed
             runs = np.intersect1d(self.consensus_runs, self.active_runs_idx)
             consensus = self.consensus[np.isin(self.consensus_runs, runs)]
             while True:
-- 
2.43.0


From c15280b43d5ceca08897e5517fbba07ca453da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 36/62] fix: resampling after some runs terminated

Terminated runs were perturbed, the consensus was indexed by run although it
only has rows for active runs, and one evaluation was charged to every active
run instead of to the resampled ones.
---
 cbx/utils/resampling.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..f9bfb2a 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,6 +51,7 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
+        idx = np.intersect1d(idx, dyn.active_runs_idx) # terminated runs stay as they are
         if len(idx)>0:
             self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
             self.num_resampling[idx] += 1
@@ -66,10 +67,14 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
+        # the consensus has one row per active run
+        consensus = 0 * dyn.copy(dyn.x[:, 0:1, ...])
+        consensus[dyn.active_runs_idx, ...] = dyn.consensus
+        consensus_energy = dyn.f(consensus[idx, ...])
+        dyn.num_f_eval[idx] += consensus.shape[1]
         
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
+            self.best_consensus = dyn.copy(consensus)
             self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
             self.best_consensus_energy[idx, ...] = consensus_energy
         else:
@@ -77,7 +82,7 @@ class resampling:
                 consensus_energy < self.best_consensus_energy[idx, ...]
                 )[0]
             self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
+                consensus[idx[idx2], ...]
                 )
             self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
 
-- 
2.43.0


From 22b1fd5c2c218252a25f2207023e70da12d98599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 37/62] fix: consensus weights are normalized for large alpha *
 energy

For |alpha*f| above about 1e14 the logarithm of the normalization was lost in
rounding: the weights did not sum to one and the consensus left the convex
hull of the particles.
---
 cbx/dynamics/pdyn.py     | 6 ++++--
 cbx/dynamics/polarcbo.py | 3 +++
 cbx/utils/torch_utils.py | 3 ++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7c9f4ba..8706199 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -584,7 +584,8 @@ class compute_consensus_default:
             self.check_coeffs = self._no_check_coeffs
     
     def __call__(self, energy, x, alpha):
-        weights = - alpha * energy
+        # shifting the energies keeps the weights normalized for large alpha * energy
+        weights = - alpha * (energy - energy.min(axis=-1, keepdims=True))
         coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=-1, keepdims=True))[coeff_expan]
         self.check_coeffs(coeffs)
@@ -903,7 +904,8 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.particle_idx]
+        energy = self.energy[self.particle_idx]
+        weights = - self.alpha[self.active_runs_idx, :] * (energy - energy.min(axis=-1, keepdims=True))
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 83498e3..64e3f33 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -146,6 +146,8 @@ class Taz_kernel(kernel):
 #%% PolarCBO
 def compute_polar_consensus(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
     weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
+    # the shift keeps the coefficients normalized for large alpha * energy
+    weights = weights - weights.max(axis=-1, keepdims=True)
     coeffs = np.exp(weights - logsumexp(weights, axis=-1, keepdims=True))
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     c = np.sum(x[:,None,...] * coeffs[coeff_expan], axis=2)
@@ -266,6 +268,7 @@ class PolarCBO(CBO):
         """
         energy = self.energy[self.consensus_idx]
         weights = - self.kernel_factor() * self.neg_log_eval - self.alpha[self.active_runs_idx, :, None] * energy[:, None, :]
+        weights = weights - weights.max(axis=-1, keepdims=True)
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
         D = self.drift[...,None] * self.drift[...,None,:]
diff --git a/cbx/utils/torch_utils.py b/cbx/utils/torch_utils.py
index 2c1f447..e85c603 100644
--- a/cbx/utils/torch_utils.py
+++ b/cbx/utils/torch_utils.py
@@ -31,7 +31,7 @@ def norm_torch(x, axis, **kwargs):
 
 @requires_torch
 def compute_consensus_torch(energy, x, alpha):
-    weights = - alpha * energy
+    weights = - alpha * (energy - energy.amin(dim=-1, keepdim=True))
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - logsumexp(weights, dim=-1, keepdims=True))[coeff_expan]
     return (x * coeffs).sum(axis=1, keepdims=True), energy.cpu().numpy()
@@ -39,6 +39,7 @@ def compute_consensus_torch(energy, x, alpha):
 @requires_torch
 def compute_polar_consensus_torch(energy, x, neg_log_eval, alpha = 1., kernel_factor = 1.):
     weights = -kernel_factor * neg_log_eval - alpha * energy[:,None,:]
+    weights = weights - weights.amax(dim=-1, keepdim=True)
     coeff_expan = tuple([Ellipsis] + [None for i in range(x.ndim-2)])
     coeffs = torch.exp(weights - torch.logsumexp(weights, dim=(-1,), keepdims=True))[coeff_expan]
     c = torch.sum(x[:,None,...] * coeffs, axis=2)
-- 
2.43.0


From a193dbaefaabcee48116bc5b721b50817769f9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 38/62] fix: effective sample size for energies of large
 magnitude

Same cancellation as for the consensus weights.
---
 cbx/scheduler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..322bbe4 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -171,7 +171,8 @@ class eff_sample_size_gap:
     
     def __init__(self, energy, eta):
         self.eta = eta
-        self.energy = energy
+        # the effective sample size does not depend on constants in the energy
+        self.energy = energy - energy.min(axis=-1, keepdims=True)
         self.N = energy.shape[-1]
     
     def __call__(self, alpha):
-- 
2.43.0


From c9171bd288b12eb87bc66f5a54d59efcba68e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 39/62] fix: current best particle of terminated runs

The energies of a terminated run are those of its last step, while x_old is
updated in every step of the remaining runs, so that the current best
particle moved away from the point of the current best energy.
---
 cbx/dynamics/pdyn.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 8706199..33af927 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -526,10 +526,13 @@ class ParticleDynamic:
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        if hasattr(self, 'x_old'):
-            self.best_cur_particle = self.x_old[np.arange(self.M), self.f_min_idx, :]
-        else:
-            self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        x = self.x_old if hasattr(self, 'x_old') else self.x
+        best_cur_particle = x[np.arange(self.M), self.f_min_idx, :]
+        if hasattr(self, 'best_cur_particle'):
+            # the energies of terminated runs belong to earlier positions
+            ended = np.setdiff1d(np.arange(self.M), self.active_runs_idx)
+            best_cur_particle[ended, :] = self.best_cur_particle[ended, :]
+        self.best_cur_particle = best_cur_particle
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
     
     def update_best_particle(self,):
-- 
2.43.0


From 530a16ede77c7ddeeca3b154fd49c30325fb9382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:51 +0000
Subject: [PATCH 40/62] fix: MirrorCBO does not move terminated runs

Runs that are terminated before their first step were replaced by the mirror
image of their dual variable.
---
 cbx/dynamics/mirrorcbo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 531cdac..51def05 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -292,7 +292,8 @@ def mirror_step(self,):
         self.drift, self.lamda, self.dt, 
         self.sigma, self.noise()
     )
-    self.x = self.mirrormap.grad_conj(self.y)
+    # terminated runs stay as they are
+    self.x[self.active_runs_idx] = self.mirrormap.grad_conj(self.y)[self.active_runs_idx]
   
 def select_mirrormap(self, mirrormap):
     self.mirrormap = get_mirror_map(mirrormap)
-- 
2.43.0


From 6ee657493e026ed6eed8afa04c2edd8002d95094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 41/62] fix: bisection keeps the roots of runs that converged

A run that found its root was bisected further until all other runs converged,
so its parameter depended on the other runs and could miss the tolerance.
The bounds given by the caller are not modified anymore.
---
 cbx/scheduler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 322bbe4..8225b18 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -199,11 +199,12 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     roots of the function f
     """
     it = 0
-    x = high
+    low, high, x = (np.array(z, dtype=float) for z in (low, high, high))
     term = False
     idx = np.arange(len(low))
     while not term:
-        x = (low + high)/2
+        # runs that already found their root keep it
+        x[idx] = (low[idx] + high[idx])/2
         fx = f(x)
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
@@ -211,7 +212,7 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
         low[idx[gtzero]] = x[idx[gtzero]]
         high[idx[ltzero]]  = x[idx[ltzero]]
         # update running idx and iteration
-        idx = np.where(np.abs(fx) > thresh)[0]
+        idx = idx[np.abs(fx[idx]) > thresh]
         it += 1
         term = (it > max_it) | (len(idx) == 0)
     if verbosity > 0:
-- 
2.43.0


From 2d64da6711a9264bf771f0115921ce778732f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 42/62] fix: consensus stagnation resampling on domains with
 more than two axes

---
 cbx/utils/resampling.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index f9bfb2a..1a99c45 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -127,10 +127,12 @@ class consensus_stagnation:
         if hasattr(self, 'consensus_old'):
             diffs = np.zeros(dyn.M,)
             diffs[dyn.active_runs_idx] = dyn.to_numpy(
-                dyn.norm(dyn.consensus - self.consensus_old[dyn.active_runs_idx, ...], 
-                         axis=tuple(-i for i in range(1, dyn.x.ndim-1))
-                        )
-            )[:, 0]
+                dyn.norm(
+                    (dyn.consensus - self.consensus_old[dyn.active_runs_idx, ...]
+                    ).reshape(dyn.num_active_runs, -1), 
+                    axis=-1
+                )
+            )
             
             self.consensus_updates.append(diffs)
             self.consensus_updates = self.consensus_updates[-self.patience:]
-- 
2.43.0


From e74ba2bdc4037490ca64e0e90cfcf558215bf685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:23 +0000
Subject: [PATCH 43/62] fix: memory dynamics know the best particle after
 construction

The initial positions are evaluated when CBOMemory and PSO are constructed,
but the best energy of a run that is terminated before its first step was
only updated if other runs continued.
---
 cbx/dynamics/cbo_memory.py | 3 +++
 cbx/dynamics/pso.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 6452f81..5609282 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -65,6 +65,9 @@ class CBOMemory(CBO):
         
         self.energy = self.copy(self.f(self.x))
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
+        # the initial positions are evaluated, so they count for the best particle
+        self.update_best_cur_particle()
+        self.update_best_particle()
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
     def pre_step(self,):
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 127eb7d..eb56073 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -83,6 +83,9 @@ class PSO(CBXDynamic):
         
         self.energy = self.copy(self.f(self.x))
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
+        # the initial positions are evaluated, so they count for the best particle
+        self.update_best_cur_particle()
+        self.update_best_particle()
         
     def pre_step(self,):
         # save old positions
-- 
2.43.0


From 7f1c030de2865edc8af827c6bd1ec4bddfdb7c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 44/62] fix: update norm and drift in the history are copies

---
 cbx/utils/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index 4296dd3..4244d37 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -112,7 +112,7 @@ class track_update_norm(track):
         Returns:
             None
         """
-        dyn.history['update_norm'].append(dyn.update_diff)
+        dyn.history['update_norm'].append(dyn.copy(dyn.update_diff))
      
 
 class track_energy(track):
@@ -165,5 +165,5 @@ class track_drift(track):
     
     @staticmethod
     def update(dyn) -> None:        
-        dyn.history['drift'].append(dyn.drift)
+        dyn.history['drift'].append(dyn.copy(dyn.drift))
         dyn.history['particle_idx'].append(dyn.particle_idx)
\ No newline at end of file
-- 
2.43.0


From 26105ed74cca73bbf5f3385c08429ef5c7002bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 45/62] fix: energy stagnation criterion checked again without
 a step

---
 cbx/utils/termination.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 569247f..25e487d 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -120,12 +120,14 @@ class energy_stagnation_term:
             self.losses = np.full((self.patience, dyn.M), np.inf)
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
-        # eval loss
-        # (the consensus only contains the active runs)
-        E = dyn.f(dyn.consensus)
-        dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
-        # update losses
-        self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
+        # if some runs were terminated since the consensus was computed, there was no step
+        if dyn.consensus.shape[0] == dyn.num_active_runs:
+            # eval loss
+            # (the consensus only contains the active runs)
+            E = dyn.f(dyn.consensus)
+            dyn.num_f_eval[dyn.active_runs_idx] += dyn.consensus.shape[1]
+            # update losses
+            self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E.mean(axis=-1)
         return np.std(self.losses, axis=0) < self.std_thresh
     
 term_dict.update(
-- 
2.43.0


From 770ae7945111b5790d9d3bb5e6acdac658fb64a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:39 +0000
Subject: [PATCH 46/62] fix: 1D objectives returning integers for some points

---
 cbx/utils/objective_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index b8654c8..d7c0cf2 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -74,7 +74,9 @@ class cbx_objective_f1D(cbx_objective_fh):
     
     def apply(self, x):
         x = np.atleast_2d(x)
-        return np.apply_along_axis(self.f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
+        # apply_along_axis uses the type of the first value, which can be an integer
+        f = lambda z: np.asarray(self.f(z), dtype=float)
+        return np.apply_along_axis(f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
     
     
 class cbx_objective_f2D(cbx_objective_fh):
-- 
2.43.0


From 9b04ecb878ab5e09aa76714d05e5713b4d088bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 47/62] fix: negative log densities do not underflow far from
 the modes

---
 cbx/objectives.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 638fcba..ab3017e 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -631,8 +631,8 @@ class Bimodal(cbx_objective):
     def apply(self, x):
         a = self.a
         b = self.b         
-        ret = -np.log(np.exp(-((x[...,0]-a[0])**2 + (x[...,1]-a[1])**2/0.2)) \
-                      + 0.5*np.exp( -(x[...,0]-b[0])**2/8 - (x[...,1]-b[1])**2/0.5 ))
+        ret = -np.logaddexp(-((x[...,0]-a[0])**2 + (x[...,1]-a[1])**2/0.2),
+                            np.log(0.5) - (x[...,0]-b[0])**2/8 - (x[...,1]-b[1])**2/0.5)
         return ret
         
 
@@ -643,7 +643,7 @@ class Unimodal(cbx_objective):
     
     def apply(self, x):
         a = self.a
-        ret = -np.log(0.5*np.exp( -(x[...,0]-a[0])**2/8 - (x[...,1]-a[1])**2/0.5 ))
+        ret = -np.log(0.5) + (x[...,0]-a[0])**2/8 + (x[...,1]-a[1])**2/0.5
         
         return ret
     
@@ -655,10 +655,10 @@ class Multimodal(cbx_objective):
         self.mns   = [multivariate_normal(mean=m, cov=c) for m,c in zip(self.means, self.covs)]
         
     def apply(self, x):
-        res = 0
+        res = -np.inf
         for mn in self.mns:
-            res += mn.pdf(x).reshape(x.shape[:-1])
-        return -np.log(res)
+            res = np.logaddexp(res, np.asarray(mn.logpdf(x)).reshape(x.shape[:-1]))
+        return -res
             
     
 
-- 
2.43.0


From d7ca954b2a83d14b136383ef61e270a3a9b76cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:14 +0000
Subject: [PATCH 48/62] fix: documented minima of McCormick and drop_wave

---
 cbx/objectives.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index ab3017e..8a47e1a 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -80,8 +80,8 @@ class three_hump_camel(cbx_objective):
 class McCormick(cbx_objective):
     r"""McCormick's function
     
-    McCormick's function is a multimodal function with two global minima at
-    :math:`(-0.54719,-1.54719)` and :math:`(1.54719,0.54719)`. The function is defined as
+    McCormick's function is a multimodal function with a global minimum at
+    :math:`(-0.54719,-1.54719)` on :math:`[-1.5,4]\times[-3,4]`. The function is defined as
     
 
     .. math::
@@ -130,7 +130,6 @@ class McCormick(cbx_objective):
         cs = ax0.contourf(XX,YY,ZZ, 20, cmap=cm.jet)
         ax0.contour(cs, colors='orange', alpha=0.2)
         ax0.plot(-0.54719,-1.54719, color='orange', marker='x', markersize=10)
-        ax0.plot(1.54719, 0.54719, color='orange', marker='x', markersize=10)
         ax1.plot_surface(XX,YY,ZZ, cmap=cm.jet)
         ax0.set_title('Contour plot')
         ax1.set_title('Surface plot')
@@ -913,7 +912,7 @@ class drop_wave(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = -1` at :math:`(x,y) = (0, 0)`
+    - :math:`f(x,y) = -2` at :math:`(x,y) = (0, 0)`
     
     Examples
     --------
-- 
2.43.0


From fd74228617fbaa54df55f91a922e3f84633c5749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 49/62] fix: quadric constraint and distance without a linear
 term

The default b=None raised a TypeError in every evaluation.
---
 cbx/constraints.py  | 2 +-
 cbx/regularizers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index 28be35a..fad67ff 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -120,7 +120,7 @@ class quadricConstraint(Constraint):
     def __init__(self, A = None, b = None, c = 0):
         # only the symmetric part enters x^T A x, gradient and Hessian rely on it
         self.A = A if A is None else 0.5 * (A + A.T)
-        self.b = b
+        self.b = 0. if b is None else b
         self.c = c
         
     def __call__(self, x):
diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 3939215..46ab98c 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -36,7 +36,7 @@ class SphereDistance:
 class QuadricDistance:
     def __init__(self, A = None, b = None, c = 0):
         self.A = A
-        self.b = b
+        self.b = 0. if b is None else b
         self.c = c
         
     def __call__(self, x):
-- 
2.43.0


From 523eedda2cd1fe6deeff40586b1c657fb9beaacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:14 +0000
Subject: [PATCH 50/62] fix: implicit quadric step keeps the shape of its
 points

The two extra axes of the identity gave (1, n, d) results for (n, d) points.
---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index fad67ff..89897ec 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -137,7 +137,7 @@ class quadricConstraint(Constraint):
         return 2 * self.A
     
     def solve_Id_plus_call_grad(self, x, x_tilde, factor=1.):
-        M = (np.eye(self.A.shape[0])[None, None, ...] + 
+        M = (np.eye(self.A.shape[0]) + 
              4 * factor * self(x)[..., None, None] * self.A)
         return np.linalg.solve(M, (x_tilde - 2 * factor * self(x)[..., None] * self.b)[..., None])[..., 0]
     
-- 
2.43.0


From 60a3c83c793c1bcced21de9fca30e7daa504654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 51/62] fix: anisotropic correction on the sphere

The Ito correction of the anisotropic noise contains |D(x-c)x|^2, the sum of the squares, not the square of the sum.
---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 6a4b1ad..2a72b2a 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -155,5 +155,5 @@ class HyperSurfaceCBO(CBO):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            2 * ((self.drift * x)**2).sum(axis=-1, keepdims=True)
             ) * x
\ No newline at end of file
-- 
2.43.0


From 15a87518d262c9f0e1402d7fad66eb513cba7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:39 +0000
Subject: [PATCH 52/62] fix: HyperSurfaceCBO uses its drift parameter lamda

The parameter was accepted and documented, but had no effect.
---
 cbx/dynamics/hypersurfacecbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 2a72b2a..0254d2f 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -133,7 +133,7 @@ class HyperSurfaceCBO(CBO):
             x + 
             self.sdf.proj_tangent_space(
                 x, 
-                self.dt * self.consensus + 
+                self.lamda * self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-- 
2.43.0


From 1d50010605928d78b8bfc7ada1f88bde4578ee8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 53/62] fix: user-supplied resampling is called as apply(dyn,
 idx), as documented

---
 cbx/utils/resampling.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index 1a99c45..df87dbc 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -31,7 +31,7 @@ class resampling:
     ):
         self.resamplings = resamplings
         self.num_resampling = None
-        self.apply = apply if apply is not None else apply_resampling_default
+        self.apply = apply if apply is not None else self.apply_default
         self.sigma_indep = sigma_indep
         self.var_name = var_name
         self.track_best_consensus = track_best_consensus
@@ -53,13 +53,16 @@ class resampling:
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
         idx = np.intersect1d(idx, dyn.active_runs_idx) # terminated runs stay as they are
         if len(idx)>0:
-            self.apply(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
+            self.apply(dyn, idx)
             self.num_resampling[idx] += 1
             if dyn.verbosity > 0:
                 print('Resampled in runs ' + str(idx))
                 
             self._track_best_consensus(dyn, idx)
     
+    def apply_default(self, dyn, idx):
+        apply_resampling_default(dyn, idx, var_name = self.var_name, sigma_indep = self.sigma_indep)
+    
     def check_num_resamplings(self, M):
         if self.num_resampling is None:
             self.num_resampling = np.zeros(shape=(M))
-- 
2.43.0


From 1f0b746e0b8c13f92050bf0ece6457ec536e190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:15 +0000
Subject: [PATCH 54/62] fix: resampling rules can return empty lists of indices

---
 cbx/utils/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index df87dbc..dd5e7ec 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -51,7 +51,7 @@ class resampling:
         """
         self.check_num_resamplings(dyn.M)
         idx = np.unique(np.concatenate([r(dyn) for r in self.resamplings]))
-        idx = np.intersect1d(idx, dyn.active_runs_idx) # terminated runs stay as they are
+        idx = np.intersect1d(idx, dyn.active_runs_idx).astype(int) # terminated runs stay as they are
         if len(idx)>0:
             self.apply(dyn, idx)
             self.num_resampling[idx] += 1
-- 
2.43.0


From 89c4a6c1862f6eacd461dcc5ef2e04304447a767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 55/62] fix: distance to a hyperplane with equal coefficients
 given as a scalar

---
 cbx/regularizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 46ab98c..0dfad4b 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -19,11 +19,11 @@ class L1:
 class HyperplaneDistance:
     def __init__(self, a=1, b=0):
         self.a = a
-        self.norm_a = np.linalg.norm(a)
         self.b = b
     
     def __call__(self, x):
-        return np.abs((self.a*x).sum(axis=-1) - self.b)/self.norm_a
+        norm_a = np.linalg.norm(self.a * np.ones(x.shape[-1])) # a can be a scalar
+        return np.abs((self.a*x).sum(axis=-1) - self.b)/norm_a
 
 
 class SphereDistance:
-- 
2.43.0


From 1343373aed25f6f6946e8a50fe188583f0bdd705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 56/62] fix: distance to the minimizer for domains with
 singleton dimensions

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 31c5efd..5bf3d2d 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    norm_diff = np.linalg.norm(x_true.reshape(1, -1) - x.reshape(x.shape[0], -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From 56c00a736475bfb76e779b5302d970dd72c6d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 57/62] fix: the best consensus of a resampling can be tracked
 with torch

---
 cbx/utils/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index dd5e7ec..a3d961d 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -73,7 +73,7 @@ class resampling:
         # the consensus has one row per active run
         consensus = 0 * dyn.copy(dyn.x[:, 0:1, ...])
         consensus[dyn.active_runs_idx, ...] = dyn.consensus
-        consensus_energy = dyn.f(consensus[idx, ...])
+        consensus_energy = dyn.to_numpy(dyn.f(consensus[idx, ...]))
         dyn.num_f_eval[idx] += consensus.shape[1]
         
         if not hasattr(self, 'best_consensus'):
-- 
2.43.0


From 2879af76191def41f1154ce95bc20aa98eb78d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 58/62] fix: plots of the drift when the number of moved
 particles changes

---
 cbx/plotting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index c9b28a4..fccec76 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -325,6 +325,10 @@ class PlotDynamic:
             pidx = Ellipsis
 
         if self.plot_drift:
+            if self.quiver.N != dr.shape[1]: # different number of arrows
+                self.quiver.remove()
+                self.init_drift(x, dr, pidx)
+                return
             self.quiver.set_offsets(
                 np.array([x[pidx][..., self.dims[0]][self.num_run, :], 
                           x[pidx][..., self.dims[1]][self.num_run, :]]).T)
-- 
2.43.0


From 48e54b1eb0ce06feae18205348e8cc32e26b32d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 59/62] fix: PolarCBO saves the evaluation points of the
 consensus

---
 cbx/dynamics/polarcbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 64e3f33..8837912 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -241,6 +241,7 @@ class PolarCBO(CBO):
             raise NotImplementedError('Unknown mode: ' + self.kernel_factor_mode)
         
     def compute_consensus(self,):
+        self.maybe_save_consensus_eval_points()
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
         self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
-- 
2.43.0


From f5e0e724c57e0a35323d8e27697029d4af51039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 60/62] fix: historical best positions are exactly the
 evaluated positions

---
 cbx/dynamics/cbo_memory.py | 6 +++---
 cbx/dynamics/pso.py        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 5609282..d96a632 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -109,9 +109,9 @@ class CBOMemory(CBO):
         energy_old = self.energy[self.particle_idx]
         
         # historical best positions of particles 
-        self.y[self.particle_idx] += (
-            ((energy_old>energy_new)[self.ergexp]) * 
-            (self.x[self.particle_idx] - self.y[self.particle_idx])
+        self.y[self.particle_idx] = np.where(
+            (energy_old>energy_new)[self.ergexp],
+            self.x[self.particle_idx], self.y[self.particle_idx]
         )
         self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index eb56073..98b48d5 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -143,7 +143,7 @@ class PSO(CBXDynamic):
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((energy_old>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
+        self.y[ind] = np.where((energy_old>energy_new)[energy_expand], self.x[ind], self.y[ind])
         self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
-- 
2.43.0


From 8fe26a2c95986dfbb5b7449276383d0d4c339bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 61/62] fix: the derivatives of the nonsmooth barrier lose all
 digits near the boundary

The expanded polynomials (1-|x|)^2 and (1-|x|)^4 cancel, the Hessian can even become negative.
---
 cbx/dynamics/mirrorcbo.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 51def05..9221d34 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -191,7 +191,7 @@ class NonsmoothBarrier(MirrorMap):
         return np.sum(np.abs(theta)/(1-np.abs(theta)), axis=-1)
     
     def grad(self, theta):        
-        return np.sign(theta)/(1 + np.abs(theta)**2 - 2*np.abs(theta))
+        return np.sign(theta)/(1 - np.abs(theta))**2
     
     def grad_conj(self, y):        
         return np.sign(y) * np.maximum(1-np.sqrt(1/np.abs(y)), 0)
@@ -199,8 +199,7 @@ class NonsmoothBarrier(MirrorMap):
     def hessian(self, theta):
         n,m = theta.shape
         
-        tmp = (-2*np.abs(theta) + 2)\
-            /(-4*np.abs(theta)-4*np.abs(theta)**3+np.abs(theta)**4 + 6*np.abs(theta)**2 + 1)    
+        tmp = 2/(1 - np.abs(theta))**3
         res = np.expand_dims(tmp,axis=1)*np.eye(m)
         
         return res
-- 
2.43.0


From f60a92c45cb694043792fd74ee6b6a4af9cf93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:32 +0000
Subject: [PATCH 62/62] fix: saved plots show the axis that was plotted on

---
 cbx/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/plotting.py b/cbx/plotting.py
index fccec76..c907561 100644
--- a/cbx/plotting.py
+++ b/cbx/plotting.py
@@ -452,7 +452,7 @@ class PlotDynamicHistory(PlotDynamic):
                 self.decorate_at_ind(i)
                 plt.pause(wait)
                 if save_args is not None:
-                    plt.savefig(
+                    self.ax.get_figure().savefig(
                         save_args['fname'] + str(i) + '.png', 
                         **{k:save_args[k] for k in save_args.keys() if k not in ['fname']}
                     )
-- 
2.43.0


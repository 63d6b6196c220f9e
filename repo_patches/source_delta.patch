From 180567d42d09ff59e5878c932dabc330e8b54f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 01/32] fix: use int instead of the removed np.int in
 nd_sorting and SOP

---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 65c173e7e2e195996a3367b7bbed270aa47e9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:11 +0000
Subject: [PATCH 02/32] fix: GPRegressor.predict returns a column with current
 scikit-learn

---
 pySOT/surrogate/gp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..b25f3c8 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,8 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        mean = np.reshape(self.model.predict(xx), (-1, 1))  # Newer scikit-learn versions return a 1-D array
+        return self._mu + self._sigma * mean
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From 2f11ca565c2ead2714af249ad8a176161479f7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 03/32] fix: a point pending twice stays pending until both
 evaluations finish

---
 pySOT/strategy/surrogate_strategy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..2f372e6 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -306,9 +306,9 @@ class SurrogateBaseStrategy(BaseStrategy):
         return proposal
 
     def remove_pending(self, x):
-        """Delete a pending point from self.Xpend."""
+        """Delete a pending point from self.Xpend (only once if it is pending several times)."""
         idx = np.where((self.Xpend == x).all(axis=1))[0]
-        self.Xpend = np.delete(self.Xpend, idx, axis=0)
+        self.Xpend = np.delete(self.Xpend, idx[:1], axis=0)
 
     # == Processing in initial phase ==
 
@@ -337,7 +337,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From ac98a37c4e47a1ff5811909b39a31aab0e4510e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 04/32] fix: terminate after convergence when restarts are
 disabled

---
 pySOT/strategy/surrogate_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 2f372e6..a5013d4 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -262,6 +262,8 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Check if termination criterion has been reached
         self.check_termination()
+        if self.converged and not self.use_restarts:  # Nothing left to do if we can't restart
+            self.terminate = True
 
         # Decide the next action to take
         if self.terminate:  # Check if termination has been triggered
@@ -294,6 +296,9 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                else:  # Terminate as soon as nothing is pending
+                    self.terminate = True
+                    return Proposal("terminate") if self.pending_evals == 0 else None
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From f180e5fa4151504aedd477b9a41dfd75abb90d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 05/32] fix: changing the sampling radius no longer drops
 pending evaluations from the surrogate

---
 pySOT/strategy/surrogate_strategy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index a5013d4..86bb855 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -131,6 +131,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Event indices to keep track of if points where proposed before an event (restart, parameter change, etc.)
         self.ev_last = 0
+        self.ev_restart = 0  # Event index of the last restart
         self.ev_next = 1
 
         # Check inputs (implemented by each strategy)
@@ -197,7 +198,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def sample_restart(self):
         """Restart a run after convergence."""
-        self.ev_last = self.get_ev()
+        self.ev_last = self.ev_restart = self.get_ev()
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -362,7 +363,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
@@ -427,7 +428,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
-- 
2.43.0


From dac4f2e3dc932b56c11bdba1ccec32eaf029051d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 06/32] fix: outstanding initial points are evaluated again
 after an abort or a resume in the adaptive phase

---
 pySOT/strategy/surrogate_strategy.py | 29 +++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 86bb855..58dd124 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -111,7 +111,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.extra_points = extra_points
         self.extra_vals = extra_vals
         self.batch_queue = []  # Unassigned points in initial experiment
-        self.init_pending = 0  # Number of outstanding initial fevals
+        self.init_pending = []  # Outstanding points from the initial design
         self.phase = 1  # 1 for initial, 2 for adaptive
 
         # Budgeting state
@@ -182,10 +182,10 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
-        if self.phase == 1:  # Put the points back in the queue in init phase
-            self.init_pending = 0
-            for x in self.Xpend:
-                self.batch_queue.append(np.copy(x))
+        if self.init_pending:  # Put the outstanding initial points back in the queue
+            self.phase = 1
+            self.batch_queue.extend(self.init_pending)
+            self.init_pending = []
 
         # Remove everything that was pending
         self.pending_evals = 0
@@ -321,9 +321,23 @@ class SurrogateBaseStrategy(BaseStrategy):
     def init_proposal(self):
         """Propose a point from the initial experimental design."""
         proposal = self.make_proposal(self.batch_queue.pop())
+        self.init_pending.append(np.copy(proposal.args[0]))
         proposal.add_callback(self.on_initial_proposal)
         return proposal
 
+    def remove_init_pending(self, x):
+        """Delete a point from the outstanding points of the initial design."""
+        for i, y in enumerate(self.init_pending):
+            if np.array_equal(x, y):
+                del self.init_pending[i]
+                break
+
+    def requeue_initial(self, x):
+        """Put a point from the initial design back in the queue."""
+        self.remove_init_pending(x)
+        self.batch_queue.append(x)
+        self.phase = 1  # It has to be proposed as an initial point again
+
     def on_initial_proposal(self, proposal):
         """Handle accept/reject of proposal from initial design."""
         if proposal.accepted:
@@ -342,7 +356,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.rejected_count += 1
         self.pending_evals -= 1
         xx = proposal.args[0]
-        self.batch_queue.append(xx)  # Add back to queue
+        self.requeue_initial(xx)
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
@@ -358,6 +372,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
 
         xx, fx = np.copy(record.params[0]), record.value
+        self.remove_init_pending(xx)
         self.X = np.vstack((self.X, np.atleast_2d(xx)))
         self.fX = np.vstack((self.fX, fx))
         self.remove_pending(xx)
@@ -375,7 +390,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle aborted feval from initial design."""
         self.pending_evals -= 1
         xx = record.params[0]
-        self.batch_queue.append(xx)
+        self.requeue_initial(xx)
         self.remove_pending(xx)
         self.fevals.append(record)
 
-- 
2.43.0


From 3803d4faf554ab61a5cf22dcf9f5c0cd1dd73190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 07/32] fix: save writes its temporary file next to the
 checkpoint file

---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 58dd124..6f12cbf 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -175,7 +175,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        dirname, basename = os.path.split(fname)
+        temp_fname = os.path.join(dirname, "temp_" + basename)
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From 9a6bccdcac9ee463650493694e45ccaeadd88b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 08/32] fix: a resumed run uses the budget of the evaluations
 that were lost

---
 pySOT/strategy/surrogate_strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 6f12cbf..9b9899f 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -189,6 +189,7 @@ class SurrogateBaseStrategy(BaseStrategy):
             self.init_pending = []
 
         # Remove everything that was pending
+        self.terminate = False  # What was pending no longer counts, so the budget may not be exhausted
         self.pending_evals = 0
         self.Xpend = np.empty([0, self.opt_prob.dim])
 
-- 
2.43.0


From ef65cc41a36dcdfdd0b1fb75ba689480e0eb7abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 09/32] fix: checkpoints include the evaluation that triggered
 them

---
 pySOT/controller/controller.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..8bfd305 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -83,7 +83,9 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        if record.is_completed:
+        if record.is_done and record.callbacks[-1] != self.on_update:
+            record.add_callback(self.on_update)  # Wait until the strategy has handled the update
+        elif record.is_completed:
             self.on_complete(record)
         elif record.is_killed:
             self.on_kill(record)
-- 
2.43.0


From bb823de0b2f2a41ebb6782e8f650d2899bf22076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 10/32] fix: RandomStrategy rounds integer variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..a8950da 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From c3137ac5bd278c9e81e5764511f746201aa75a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 11/32] fix: candidate_dycors perturbs exactly the coordinates
 in subset, including the last one

---
 pySOT/auxiliary_problems/candidate_dycors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..094d6c3 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,13 +75,13 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
-    for i in subset:
+    for j, i in enumerate(subset):
         lower, upper, sigma = opt_prob.lb[i], opt_prob.ub[i], scalefactors[i]
-        ind = np.where(ar[:, i] == 1)[0]
-        cand[ind, subset[i]] = stats.truncnorm.rvs(
+        ind = np.where(ar[:, j] == 1)[0]
+        cand[ind, i] = stats.truncnorm.rvs(
             a=(lower - xbest[i]) / sigma, b=(upper - xbest[i]) / sigma, loc=xbest[i], scale=sigma, size=len(ind)
         )
 
-- 
2.43.0


From 12d630ab036a630b9cbb2a5016fc62edb480be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:35 +0000
Subject: [PATCH 12/32] fix: GeneticAlgorithm accepts valid initial populations
 and does not modify them

---
 pySOT/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pySOT/utils.py b/pySOT/utils.py
index e6419d2..fd3513c 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -268,11 +268,11 @@ class GeneticAlgorithm:
         if isinstance(self.start, np.ndarray):
             if self.start.shape[0] != self.nindividuals or self.start.shape[1] != self.nvariables:
                 raise ValueError("Initial population has incorrect size")
-            if any(np.min(self.start, axis=0) >= self.lower_boundary) or any(
-                np.max(self.start, axis=0) <= self.upper_boundary
+            if any(np.min(self.start, axis=0) < self.lower_boundary) or any(
+                np.max(self.start, axis=0) > self.upper_boundary
             ):
                 raise ValueError("Initial population is outside the domain")
-            population = self.start
+            population = np.array(self.start, dtype=float)  # Copy, so we don't modify the user's array
         elif self.start == "SLHD":
             from pySOT.experimental_design import SymmetricLatinHypercube
 
-- 
2.43.0


From 12007fe34af6872f2336f67f8e5395c350940f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 13/32] fix: extra points with infinite values are unknown, and
 known ones belong to the current run

---
 pySOT/strategy/surrogate_strategy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9b9899f..9469f59 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -241,12 +241,14 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.all(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
                     self.X = np.vstack((self.X, x))
                     self.fX = np.vstack((self.fX, self.extra_vals[i]))
+                    self._X = np.vstack((self._X, x))
+                    self._fX = np.vstack((self._fX, self.extra_vals[i]))
                     self.surrogate.add_points(x, self.extra_vals[i])
 
     def propose_action(self):
-- 
2.43.0


From d3254db1cacbf2fe3f37928c718f9bc48fed1686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 14/32] fix: reject budgets, dimensions and index sets that are
 documented as invalid, accept weight arrays

---
 pySOT/strategy/random_strategy.py    | 4 ++--
 pySOT/strategy/srbf_strategy.py      | 2 +-
 pySOT/strategy/surrogate_strategy.py | 2 +-
 pySOT/utils.py                       | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index a8950da..56a330a 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -24,8 +24,8 @@ class RandomStrategy(BaseStrategy):
 
     def __init__(self, max_evals, opt_prob):
         check_opt_prob(opt_prob)
-        if not isinstance(max_evals, int) and max_evals > 0:
-            raise ValueError("max_evals must be an integer >= exp_des.num_pts")
+        if not (isinstance(max_evals, int) and max_evals > 0):
+            raise ValueError("max_evals must be a positive integer")
 
         self.opt_prob = opt_prob
         self.max_evals = max_evals
diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..a8751eb 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, list) or isinstance(self.weights, np.ndarray)
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9469f59..9b9edf4 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -161,7 +161,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         check_opt_prob(self.opt_prob)
         if not self.asynchronous and self.batch_size is None:
             raise ValueError("You must specify batch size in synchronous mode " "(use 1 for serial)")
-        if not isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts:
+        if not (isinstance(self.max_evals, int) and self.max_evals > 0 and self.max_evals >= self.exp_design.num_pts):
             raise ValueError("max_evals must be an integer >= exp_des.num_pts")
 
     def save(self, fname):
diff --git a/pySOT/utils.py b/pySOT/utils.py
index fd3513c..5825420 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -109,7 +109,7 @@ def check_opt_prob(obj):  # pragma: no cover
     if not isinstance(obj, OptimizationProblem):
         raise TypeError("Input does not implement OptimizationProblem")
 
-    if not isinstance(obj.dim, int) and obj.dim() > 0:
+    if not (isinstance(obj.dim, int) and obj.dim > 0):
         raise ValueError("dim must be a positive integer")
 
     if not isinstance(obj.lb, np.ndarray):
@@ -144,7 +144,7 @@ def check_opt_prob(obj):  # pragma: no cover
             raise AttributeError("Integer variable index can't exceed " "number of dimensions or be negative")
     if not (len(np.intersect1d(contvar, intvar)) == 0):
         raise AttributeError("A variable can't be both " "an integer and continuous")
-    if not (len(contvar) + len(intvar) == obj.dim):
+    if not (len(contvar) + len(intvar) == obj.dim and len(np.union1d(contvar, intvar)) == obj.dim):
         raise AttributeError("All variables must be either " "integer or continuous")
 
 
-- 
2.43.0


From 50d642c1d0c362434108259e623f0871f8932290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 15/32] fix: Branin's domain contains its minimizer

---
 pySOT/optimization_problems/branin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/branin.py b/pySOT/optimization_problems/branin.py
index 19c2a77..703ee1e 100644
--- a/pySOT/optimization_problems/branin.py
+++ b/pySOT/optimization_problems/branin.py
@@ -24,8 +24,8 @@ class Branin(OptimizationProblem):
         self.min = 0.397887
         self.minimum = np.array([-np.pi, 12.275])
         self.dim = 2
-        self.lb = -3.0 * np.ones(2)
-        self.ub = 3.0 * np.ones(2)
+        self.lb = np.array([-5.0, 0.0])
+        self.ub = np.array([10.0, 15.0])
         self.int_var = np.array([])
         self.cont_var = np.arange(0, 2)
         self.info = "2-dimensional Branin function \nGlobal optimum: " + "f(-pi, 12.275) = 0.397887"
-- 
2.43.0


From f60b15d7c2a03013aa8a2df92afe9f01c53dcdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 16/32] fix: Exponential pairs each weight with its own
 variable

---
 pySOT/optimization_problems/exponential.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/optimization_problems/exponential.py b/pySOT/optimization_problems/exponential.py
index 6f7831d..eecac56 100644
--- a/pySOT/optimization_problems/exponential.py
+++ b/pySOT/optimization_problems/exponential.py
@@ -14,7 +14,7 @@ class Exponential(OptimizationProblem):
     .. math::
         -5.12 \\leq x_i \\leq 5.12
 
-    Global optimum: :math:`f(0,0,...,0)=0`
+    Global optimum: :math:`f(-5.12,-5.12,...,-5.12)=0`
 
     :ivar dim: Number of dimensions
     :ivar lb: Lower variable bounds
@@ -47,5 +47,5 @@ class Exponential(OptimizationProblem):
         self.__check_input__(x)
         total = 0.0
         for i in range(len(x)):
-            total += np.exp((i + 1) * x[i - 1]) - np.exp(-5.12 * (i + 1))
+            total += np.exp((i + 1) * x[i]) - np.exp(-5.12 * (i + 1))
         return total
-- 
2.43.0


From 874f6d6e89e909fcce59565801999bb11156867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 17/32] fix: Levy sums over all but the last variable

---
 pySOT/optimization_problems/levy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/optimization_problems/levy.py b/pySOT/optimization_problems/levy.py
index b6b4791..bcabc97 100644
--- a/pySOT/optimization_problems/levy.py
+++ b/pySOT/optimization_problems/levy.py
@@ -43,6 +43,6 @@ class Levy(OptimizationProblem):
         d = self.dim
         return (
             np.sin(np.pi * w[0]) ** 2
-            + np.sum((w[1 : d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[1 : d - 1] + 1) ** 2))
+            + np.sum((w[: d - 1] - 1) ** 2 * (1 + 10 * np.sin(np.pi * w[: d - 1] + 1) ** 2))
             + (w[d - 1] - 1) ** 2 * (1 + np.sin(2 * np.pi * w[d - 1]) ** 2)
         )
-- 
2.43.0


From b241d45ba0ed6540aef54280692ccdfde29c4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 18/32] fix: documented formulas and optima match the functions

---
 pySOT/optimization_problems/ackley.py     | 2 +-
 pySOT/optimization_problems/himmelblau.py | 3 +--
 pySOT/optimization_problems/rastrigin.py  | 2 +-
 pySOT/optimization_problems/zakharov.py   | 4 ++--
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pySOT/optimization_problems/ackley.py b/pySOT/optimization_problems/ackley.py
index 1cefa20..24765e9 100644
--- a/pySOT/optimization_problems/ackley.py
+++ b/pySOT/optimization_problems/ackley.py
@@ -9,7 +9,7 @@ class Ackley(OptimizationProblem):
     .. math::
         f(x_1,\\ldots,x_n) = -20\\exp\\left( -0.2 \\sqrt{\\frac{1}{n} \
         \\sum_{j=1}^n x_j^2} \\right) -\\exp \\left( \\frac{1}{n} \
-        \\sum{j=1}^n \\cos(2 \\pi x_j) \\right) + 20 - e
+        \\sum_{j=1}^n \\cos(2 \\pi x_j) \\right) + 20 + e
 
     subject to
 
diff --git a/pySOT/optimization_problems/himmelblau.py b/pySOT/optimization_problems/himmelblau.py
index 724befa..1d2d447 100644
--- a/pySOT/optimization_problems/himmelblau.py
+++ b/pySOT/optimization_problems/himmelblau.py
@@ -7,8 +7,7 @@ class Himmelblau(OptimizationProblem):
     """Himmelblau function
 
     .. math::
-        f(x_1,\\ldots,x_n) = 10n -
-            \\frac{1}{2n} \\sum_{i=1}^n (x_i^4 - 16x_i^2 + 5x_i)
+        f(x_1,\\ldots,x_n) = \\frac{1}{2n} \\sum_{i=1}^n (x_i^4 - 16x_i^2 + 5x_i)
 
     Global optimum: :math:`f(-2.903,...,-2.903)=-39.166`
 
diff --git a/pySOT/optimization_problems/rastrigin.py b/pySOT/optimization_problems/rastrigin.py
index 323c1af..937b6d9 100644
--- a/pySOT/optimization_problems/rastrigin.py
+++ b/pySOT/optimization_problems/rastrigin.py
@@ -7,7 +7,7 @@ class Rastrigin(OptimizationProblem):
     """Rastrigin function
 
     .. math::
-        f(x_1,\\ldots,x_n)=10n-\\sum_{i=1}^n (x_i^2 - 10 \\cos(2 \\pi x_i))
+        f(x_1,\\ldots,x_n)=10n+\\sum_{i=1}^n (x_i^2 - 10 \\cos(2 \\pi x_i))
 
     subject to
 
diff --git a/pySOT/optimization_problems/zakharov.py b/pySOT/optimization_problems/zakharov.py
index 3e729dc..5d22bee 100644
--- a/pySOT/optimization_problems/zakharov.py
+++ b/pySOT/optimization_problems/zakharov.py
@@ -6,7 +6,7 @@ from .optimization_problem import OptimizationProblem
 class Zakharov(OptimizationProblem):
     """Zakharov function
 
-    Global optimum: :math:`f(0,0,...,0)=1`
+    Global optimum: :math:`f(0,0,...,0)=0`
 
     :ivar dim: Number of dimensions
     :ivar lb: Lower variable bounds
@@ -26,7 +26,7 @@ class Zakharov(OptimizationProblem):
         self.ub = 10 * np.ones(dim)
         self.int_var = np.array([])
         self.cont_var = np.arange(0, dim)
-        self.info = str(dim) + "-dimensional Zakharov function \n" + "Global optimum: f(0,0,...,0) = 1"
+        self.info = str(dim) + "-dimensional Zakharov function \n" + "Global optimum: f(0,0,...,0) = 0"
 
     def eval(self, x):
         """Evaluate the Zakharov function at x.
-- 
2.43.0


From 824a492ea6e0eb43bca5ad93a09130c3d11152ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 19/32] fix: the perturbation probability is a number when one
 evaluation is left for the adaptive phase

---
 pySOT/strategy/dycors_strategy.py | 2 +-
 pySOT/strategy/sop_strategy.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/dycors_strategy.py b/pySOT/strategy/dycors_strategy.py
index 472779b..e747576 100644
--- a/pySOT/strategy/dycors_strategy.py
+++ b/pySOT/strategy/dycors_strategy.py
@@ -85,7 +85,7 @@ class DYCORSStrategy(SRBFStrategy):
         """Generate the next adaptive sample points."""
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-        budget = self.max_evals - self.num_exp
+        budget = max(self.max_evals - self.num_exp, 2)
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
         prob_perturb = max(prob_perturb, min_prob)
 
diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..e4796af 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -279,7 +279,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # Compute dycors perturbation probability
         num_evals = len(self.X) + len(self.Xpend) - self.num_exp + 1.0
         min_prob = np.min([1.0, 1.0 / self.opt_prob.dim])
-        budget = self.max_evals - self.num_exp
+        budget = max(self.max_evals - self.num_exp, 2)
         prob_perturb = min([20.0 / self.opt_prob.dim, 1.0]) * (1.0 - (np.log(num_evals) / np.log(budget)))
         prob_perturb = max(prob_perturb, min_prob)
 
-- 
2.43.0


From 41ac7f924507796f8b095873e85a1b0490ae97d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 20/32] fix: SOP keeps the non-domination ranks and ranks a
 single point

---
 pySOT/strategy/sop_strategy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index e4796af..3068af9 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -31,7 +31,7 @@ class _SopRecord:
     def __init__(self, x, fx, sigma):
         self.x = x
         self.fx = fx
-        self.rank = POSITIVE_INFINITY  # To-Do: Update ranks in future
+        self.rank = POSITIVE_INFINITY
         self._nfail = 0  # Count of failures(int)
         self._ntabu = 0  # Elapsed tabu tenure
         self._sigma = sigma
@@ -395,11 +395,13 @@ class SOPStrategy(SurrogateBaseStrategy):
         dists = scp.distance.cdist(F[:, 0 : self.opt_prob.dim], F[:, 0 : self.opt_prob.dim])
         for i in range(nevals):
             a = dists[i, :]
-            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)])
+            F[i, self.opt_prob.dim + 1] = -1.0 * np.min(a[np.nonzero(a)], initial=POSITIVE_INFINITY)
 
         nmax = 100  # Maximum number of points that may be selected as centers
         ranks = nd_sorting(F[:, self.opt_prob.dim : self.opt_prob.dim + 2].transpose(), nmax)  # Perform ND Sorting
         F[:, self.opt_prob.dim + 3] = ranks.transpose()
+        for srec, rank in zip(self.evals, ranks):  # update_F takes the ranks from the records
+            srec.rank = rank
         self.F_ranked = np.copy(F)
 
     def update_center_list(self):
-- 
2.43.0


From 74256a13483b1605920562c70cc9bf7840b69970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 21/32] fix: SOP no longer confuses tabu points with centers in
 use

---
 pySOT/strategy/sop_strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 3068af9..2fadf35 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -429,7 +429,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if self.centers[i].new_index is not None:
                     finished_centers.append(i)
                 else:  # If a center is being processed, tag it as tabu
-                    F[self.centers[i].index, self.opt_prob.dim + 2] = 2
+                    F[self.centers[i].index, self.opt_prob.dim + 2] = POSITIVE_INFINITY
             for index in reversed(finished_centers):
                 self.centers.pop(index)
 
@@ -437,7 +437,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == POSITIVE_INFINITY:
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From eccb46a58e47ec0818d1a7291553e8ef1daa0ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 22/32] fix: SOP ranks points that completed after the last
 ranking

---
 pySOT/strategy/sop_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 2fadf35..d238070 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -272,7 +272,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
+        if self.F_ranked is None or len(self.F_ranked) != self.num_evals:  # There are unranked points
             self.update_ranks()
         self.update_center_list()
 
-- 
2.43.0


From 120869809186cfdbc834ecaf6417fe868a35f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 23/32] fix: SOP adjusts the memory of the centers with a new
 evaluation only

---
 pySOT/strategy/sop_strategy.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index d238070..7b400bf 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -258,13 +258,16 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
+                if self.centers[i].new_index is not None:  # Already has its evaluation
+                    continue
                 if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
 
             if self.asynchronous:  # Process immediately
-                self.adjust_memory(center_index)
+                if center_index is not None:  # Nothing to adjust if the point has no center
+                    self.adjust_memory(center_index)
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
@@ -324,8 +327,8 @@ class SOPStrategy(SurrogateBaseStrategy):
 
         """
 
-        if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+        if index is None:  # Batch mode - update memory for all centers that have a new evaluation
+            indices = [i for i, center in enumerate(self.centers) if center.new_index is not None]
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From 4995832bb9c7e580857b433c83e4dadb41657278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 24/32] fix: SOP releases centers whose evaluation was
 rejected, aborted or lost

---
 pySOT/strategy/sop_strategy.py | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7b400bf..e8ec515 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -122,6 +122,10 @@ class _SopCenter:
         else:
             self._new_index = value
 
+    def release(self):
+        """Make the center available again, its new point is not evaluated"""
+        self._new_point = None
+
 
 class SOPStrategy(SurrogateBaseStrategy):
     """Surrogate Optimization with Pareto Selection Strategy
@@ -271,6 +275,39 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def release_center(self, x):
+        """Make the center that proposed x available again."""
+        for center in self.centers:
+            if center.new_index is None and np.array_equal(x, center.new_point):
+                center.release()
+                break
+
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal from phase 2."""
+        super().on_adapt_reject(proposal)
+
+        if self.asynchronous:  # The point is proposed again in the synchronous case
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation in phase 2."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+
+        # The rest of the batch is processed when its last evaluation is aborted
+        if not self.asynchronous and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_memory()
+
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+
+        # The points that were pending are lost, so make their centers available again
+        for center in self.centers:
+            queued = any(np.array_equal(x, center.new_point) for x in self.batch_queue)
+            if center.new_index is None and not queued:
+                center.release()
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
-- 
2.43.0


From 39980b12d94b5ce1ae4428b70062de32a1fbba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 25/32] fix: a candidate is not picked twice when the weight is
 zero

---
 pySOT/auxiliary_problems/candidate_srbf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/auxiliary_problems/candidate_srbf.py b/pySOT/auxiliary_problems/candidate_srbf.py
index 4bab802..22e3af5 100644
--- a/pySOT/auxiliary_problems/candidate_srbf.py
+++ b/pySOT/auxiliary_problems/candidate_srbf.py
@@ -46,6 +46,7 @@ def weighted_distance_merit(num_pts, surrogate, X, fX, cand, weights, Xpend=None
         merit = w * fvals + (1.0 - w) * (1.0 - unit_rescale(np.copy(dmerit)))
 
         merit[dmerit < dtol] = np.inf
+        merit[np.isinf(fvals)] = np.inf  # Already picked (0 * inf is not a number)
         jj = np.argmin(merit)
         fvals[jj] = np.inf
         new_points[i, :] = cand[jj, :].copy()
-- 
2.43.0


From 273b61ee6ddd03e0a6c3376fd58ad031ca13d9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 26/32] fix: init_pending is still the number of outstanding
 initial evaluations

---
 pySOT/strategy/surrogate_strategy.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 9b9edf4..3a44f1e 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -111,7 +111,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.extra_points = extra_points
         self.extra_vals = extra_vals
         self.batch_queue = []  # Unassigned points in initial experiment
-        self.init_pending = []  # Outstanding points from the initial design
+        self.init_outstanding = []  # Outstanding points from the initial design
         self.phase = 1  # 1 for initial, 2 for adaptive
 
         # Budgeting state
@@ -140,6 +140,11 @@ class SurrogateBaseStrategy(BaseStrategy):
         # Start with first experimental design
         self.sample_initial()
 
+    @property
+    def init_pending(self):
+        """Number of outstanding initial fevals."""
+        return len(self.init_outstanding)
+
     def get_ev(self):
         """Return event index and increase the counter."""
         ev = self.ev_next
@@ -183,10 +188,10 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
-        if self.init_pending:  # Put the outstanding initial points back in the queue
+        if self.init_outstanding:  # Put the outstanding initial points back in the queue
             self.phase = 1
-            self.batch_queue.extend(self.init_pending)
-            self.init_pending = []
+            self.batch_queue.extend(self.init_outstanding)
+            self.init_outstanding = []
 
         # Remove everything that was pending
         self.terminate = False  # What was pending no longer counts, so the budget may not be exhausted
@@ -325,15 +330,15 @@ class SurrogateBaseStrategy(BaseStrategy):
     def init_proposal(self):
         """Propose a point from the initial experimental design."""
         proposal = self.make_proposal(self.batch_queue.pop())
-        self.init_pending.append(np.copy(proposal.args[0]))
+        self.init_outstanding.append(np.copy(proposal.args[0]))
         proposal.add_callback(self.on_initial_proposal)
         return proposal
 
     def remove_init_pending(self, x):
         """Delete a point from the outstanding points of the initial design."""
-        for i, y in enumerate(self.init_pending):
+        for i, y in enumerate(self.init_outstanding):
             if np.array_equal(x, y):
-                del self.init_pending[i]
+                del self.init_outstanding[i]
                 break
 
     def requeue_initial(self, x):
-- 
2.43.0


From 353c7e76f399ce6fc83aa0115b1f2b22be1d4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:33 +0000
Subject: [PATCH 27/32] fix: SOP waits for an evaluation to finish when all
 centers are in use

---
 pySOT/strategy/sop_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index e8ec515..c8004be 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -333,6 +333,8 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if center.new_point is None:
                     break
                 center_index += 1
+            if center_index == len(self.centers):  # All centers are in use, wait for an evaluation to finish
+                return
             # Select new point by candidate search around center
             X_c = self.centers[center_index].xc
             sampling_radius = self.evals[self.centers[center_index].index].sigma
-- 
2.43.0


From e48b24e965ea33764ff83585cf4b9802e53d8402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:14 +0000
Subject: [PATCH 28/32] fix: TPSKernel must not modify its argument

---
 pySOT/surrogate/kernels/tps_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/surrogate/kernels/tps_kernel.py b/pySOT/surrogate/kernels/tps_kernel.py
index 564c492..b125606 100644
--- a/pySOT/surrogate/kernels/tps_kernel.py
+++ b/pySOT/surrogate/kernels/tps_kernel.py
@@ -25,7 +25,7 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|^2 \\log (\\|x_i - x_j \\|)`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)  # New array, the input is not modified
         return (dists ** 2) * np.log(dists)
 
     def deriv(self, dists):
@@ -38,5 +38,5 @@ class TPSKernel(Kernel):
             :math:`\\|x_i - x_j \\|(1 + 2 \\log (\\|x_i - x_j \\|) )`
         :rtype: numpy.array
         """
-        dists[dists < np.finfo(float).eps] = np.finfo(float).eps
+        dists = np.maximum(dists, np.finfo(float).eps)  # New array, the input is not modified
         return dists * (1 + 2 * np.log(dists))
-- 
2.43.0


From 67a10a86d4307a80cb5746ba8a6138c40d075559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:22 +0000
Subject: [PATCH 29/32] fix: Latin hypercube designs follow numpy's global
 random generator

pyDOE2 draws from a generator seeded by the operating system unless it is
given a seed, so np.random.seed did not make these designs (and the runs that
start from them) reproducible.
---
 pySOT/experimental_design/lhd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pySOT/experimental_design/lhd.py b/pySOT/experimental_design/lhd.py
index 194693b..9113267 100644
--- a/pySOT/experimental_design/lhd.py
+++ b/pySOT/experimental_design/lhd.py
@@ -52,6 +52,8 @@ class LatinHypercube(ExperimentalDesign):
             int_var = np.array([])
 
         def wrapper():
-            return pydoe.lhs(self.dim, self.num_pts, iterations=1)
+            # Without a seed pyDOE2 does not follow numpy's global generator
+            seed = np.random.randint(2 ** 31 - 1)
+            return pydoe.lhs(self.dim, self.num_pts, iterations=1, random_state=seed)
 
         return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)
-- 
2.43.0


From a7047585fb784b89151e36fbaffc27e3c04c15c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:34 +0000
Subject: [PATCH 30/32] fix: median capping truncates the median of integer
 arrays

---
 pySOT/surrogate/output_transformations/median_capping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/output_transformations/median_capping.py b/pySOT/surrogate/output_transformations/median_capping.py
index 9b64984..73004a7 100644
--- a/pySOT/surrogate/output_transformations/median_capping.py
+++ b/pySOT/surrogate/output_transformations/median_capping.py
@@ -10,7 +10,7 @@ def median_capping(x):
     :return: x
     :rtype: numpy.array
     """
-    x = x.copy()
+    x = x.astype(float)  # Makes a copy, the median of integers need not be an integer
     medf = np.median(x)
     x[x > medf] = medf
     return x
-- 
2.43.0


From 824278925f64ac3715e2709c255114182a3e02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:44 +0000
Subject: [PATCH 31/32] fix: a kernel or tail given alone is not replaced by
 the default

---
 pySOT/surrogate/rbf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/surrogate/rbf.py b/pySOT/surrogate/rbf.py
index 817118d..0e8a2af 100644
--- a/pySOT/surrogate/rbf.py
+++ b/pySOT/surrogate/rbf.py
@@ -67,8 +67,9 @@ class RBFInterpolant(Surrogate):
     def __init__(self, dim, lb, ub, output_transformation=None, kernel=None, tail=None, eta=1e-6):
         super().__init__(dim=dim, lb=lb, ub=ub, output_transformation=output_transformation)
 
-        if kernel is None or tail is None:
+        if kernel is None:
             kernel = CubicKernel()
+        if tail is None:
             tail = LinearTail(dim)
         assert isinstance(kernel, Kernel) and isinstance(tail, Tail)
 
-- 
2.43.0


From 27147cfecb28e341dfa11ca74b379c99577a3947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:44 +0000
Subject: [PATCH 32/32] fix: lcb_ga without lcb_target raises TypeError

---
 pySOT/auxiliary_problems/lcb_ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/lcb_ga.py b/pySOT/auxiliary_problems/lcb_ga.py
index 73cbe1f..18080b4 100644
--- a/pySOT/auxiliary_problems/lcb_ga.py
+++ b/pySOT/auxiliary_problems/lcb_ga.py
@@ -52,7 +52,7 @@ def lcb_ga(num_pts, opt_prob, surrogate, X, fX, Xpend=None, kappa=2.0, dtol=1e-3
         )
         x_best, f_min = ga.optimize()
 
-        if f_min > lcb_target:
+        if lcb_target is not None and f_min > lcb_target:
             return None  # Give up
 
         new_points[i, :] = x_best
-- 
2.43.0


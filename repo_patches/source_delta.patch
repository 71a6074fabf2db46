From f5f98076c03437c94b02a10fc855db681ea43bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:54 +0000
Subject: [PATCH 01/61] fix: LearningSession.ask must not hand out its cached
 object

---
 dmpbbo/bbo/LearningSession.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index e04ad95..d9e3103 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -390,7 +390,8 @@ class LearningSession:
 
             self._cache[basename] = obj
 
-            return obj
+            # Return a copy, so that the caller cannot modify the object in the cache
+            return copy.deepcopy(obj)
 
     def tell(self, obj, name, i_update=None, i_sample=None):
         """ Add an object to the database.
-- 
2.43.0


From 7d7230f5b5f4abbc328e8f0e89a63b011b4a3425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:54 +0000
Subject: [PATCH 02/61] fix: opening a learning session from a directory must
 not write to it

---
 dmpbbo/bbo/LearningSession.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index d9e3103..4378566 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -266,7 +266,11 @@ class LearningSession:
         filename = str(Path(directory, "n_samples_per_update.txt"))
         n_samples_per_update = np.atleast_1d(np.loadtxt(filename))
         n_samples_per_update = int(n_samples_per_update[0])
-        return cls(n_samples_per_update, directory)
+        # Pass the directory only afterwards: the constructor saves to it, but opening an existing
+        # session should not modify (or require permission to modify) the files in the directory.
+        session = cls(n_samples_per_update)
+        session._root_dir = directory
+        return session
 
     def add_eval(self, i_update, eval_sample, eval_cost):
         """ Add an evaluation.
-- 
2.43.0


From 3db71b5cdf7549d9eb3a3924b5e654180e15e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:27 +0000
Subject: [PATCH 03/61] fix: write learning session and json files atomically

A crash or full disk while writing left a truncated file behind, which was
later read as if it were complete (e.g. an array with fewer values).
---
 dmpbbo/bbo/LearningSession.py |  6 ++++--
 dmpbbo/json_for_cpp.py        | 34 ++++++++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 4378566..a152b09 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -426,10 +426,12 @@ class LearningSession:
 
         if isinstance(obj, (np.ndarray, list, int)):
             filename = f"{abs_basename}.txt"
-            np.savetxt(filename, np.atleast_1d(obj))  # noqa
+            with jc.atomic_write(filename) as filename_tmp:
+                np.savetxt(filename_tmp, np.atleast_1d(obj))  # noqa
         elif isinstance(obj, pd.DataFrame):
             filename = f"{abs_basename}.csv"
-            obj.to_csv(filename, index=False)
+            with jc.atomic_write(filename) as filename_tmp:
+                obj.to_csv(filename_tmp, index=False)
         else:
             filename = f"{abs_basename}.json"
             jc.savejson(filename, obj)
diff --git a/dmpbbo/json_for_cpp.py b/dmpbbo/json_for_cpp.py
index 2057f52..dfd7dcc 100644
--- a/dmpbbo/json_for_cpp.py
+++ b/dmpbbo/json_for_cpp.py
@@ -17,6 +17,8 @@
 """ Module with functions to save to/load from json. """
 
 import json
+import os
+from contextlib import contextmanager
 from json import JSONEncoder
 
 import jsonpickle
@@ -53,6 +55,28 @@ class DmpBboJSONEncoder(JSONEncoder):
         return json.JSONEncoder.default(self, obj)
 
 
+@contextmanager
+def atomic_write(filename):
+    """ Context manager for writing a file such that it is either written completely or not at all.
+
+    Writing is done to a temporary file in the same directory, which only replaces the actual file
+    when the block finishes without an exception. Other processes (plotting, the robot, ...), and
+    any process that is started after a crash, will thus never see a half-written file.
+
+    @param filename: Name of the file to write to.
+    @return: Name of the temporary file that should be written to inside the with block.
+    """
+    filename = str(filename)  # In case it is path
+    filename_tmp = f"{filename}.{os.getpid()}.tmp"
+    try:
+        yield filename_tmp
+        os.replace(filename_tmp, filename)
+    except BaseException:
+        if os.path.isfile(filename_tmp):
+            os.remove(filename_tmp)
+        raise
+
+
 def savejson_for_cpp(filename, obj):
     """ Save an object to a file that can be read by the C++ implementation of dmpbbo.
 
@@ -62,8 +86,9 @@ def savejson_for_cpp(filename, obj):
     # Save a simple JSON version that can be read by the C++ code.
     filename = str(filename)  # In case it is path
     j = json.dumps(obj, cls=DmpBboJSONEncoder, indent=2)
-    with open(filename, "w") as out_file:
-        out_file.write(j)
+    with atomic_write(filename) as filename_tmp:
+        with open(filename_tmp, "w") as out_file:
+            out_file.write(j)
 
 
 def savejson(filename, obj):
@@ -74,8 +99,9 @@ def savejson(filename, obj):
     """
     # Save to standard jsonpickle file
     j = jsonpickle.encode(obj)
-    with open(filename, "w") as out_file:
-        out_file.write(j)
+    with atomic_write(filename) as filename_tmp:
+        with open(filename_tmp, "w") as out_file:
+            out_file.write(j)
 
 
 def loadjson(filename):
-- 
2.43.0


From b5efbfac6b15b0dd5df6884092b0547a6c3bb7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:27 +0000
Subject: [PATCH 04/61] fix: storing an object of another type under the same
 name must replace the old one

The old file has another extension, and could take precedence when loading.
For dmps, this also makes sure that the directory exists before it is written to.
---
 dmpbbo/bbo/LearningSession.py             | 7 +++++++
 dmpbbo/bbo_of_dmps/LearningSessionTask.py | 5 +++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index a152b09..3367e33 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -436,6 +436,13 @@ class LearningSession:
             filename = f"{abs_basename}.json"
             jc.savejson(filename, obj)
 
+        # If an object of another type was saved before under the same name, it had a different
+        # extension. Remove it, because it would otherwise take precedence when loading.
+        for extension in ["json", "csv", "txt"]:
+            filename_old = f"{abs_basename}.{extension}"
+            if filename_old != filename and os.path.isfile(filename_old):
+                os.remove(filename_old)
+
         return filename
 
     def save_all(self, directory):
diff --git a/dmpbbo/bbo_of_dmps/LearningSessionTask.py b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
index e92d1ad..f5c5ca9 100644
--- a/dmpbbo/bbo_of_dmps/LearningSessionTask.py
+++ b/dmpbbo/bbo_of_dmps/LearningSessionTask.py
@@ -50,15 +50,16 @@ class LearningSessionTask(LearningSession):
         @param i_update:  The update number
         @param i_sample:  The sample number
         """
+        # Makes sure the directory exists, and saves Dmps with jsonpickle
+        filename = super().tell(obj, name, i_update, i_sample)
+
         # If it's a Dmp, save it in a C++-readable format also
         if "dmp" in name:
             if self._root_dir is not None:
                 basename = self.get_base_name(name, i_update, i_sample)
                 abs_basename = Path(self._root_dir, basename)
-                jc.savejson(f"{abs_basename}.json", obj)
                 jc.savejson_for_cpp(f"{abs_basename}_for_cpp.json", obj)
 
-        filename = super().tell(obj, name, i_update, i_sample)
         return filename
 
     def add_rollout(self, i_update, i_sample, sample, cost_vars, cost):
-- 
2.43.0


From 4d7cdffe1795383395369be389c3d599761e3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:27 +0000
Subject: [PATCH 05/61] fix: accept numpy integers as update/sample numbers,
 load csv without rounding

With a np.int64 as update or sample number, different entries ended up in the
same file.
---
 dmpbbo/bbo/LearningSession.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 3367e33..3805250 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -20,6 +20,7 @@
 import argparse
 import copy
 import inspect
+import numbers
 import os
 import warnings
 from glob import glob
@@ -328,14 +329,14 @@ class LearningSession:
         @param i_sample:  The sample number to be prepended
         @return: The basename of a file.
         """
-        if isinstance(i_sample, int):
+        if isinstance(i_sample, numbers.Integral):
             basename = f"{i_sample:03d}_{name}"  # e.g. 0 => "000_name"
         elif i_sample:
             basename = f"{i_sample}_{name}"  # e.g. "eval" => "eval_name"
         else:
             basename = name
 
-        if isinstance(i_update, int):
+        if isinstance(i_update, numbers.Integral):
             # e.g. "update00023/000_name"
             basename = Path(f"update{i_update:05d}", basename)
 
@@ -384,7 +385,7 @@ class LearningSession:
                     obj = jsonpickle.decode(f.read())
 
             elif os.path.isfile(f"{abs_basename}.csv"):
-                obj = pd.read_csv(f"{abs_basename}.csv")
+                obj = pd.read_csv(f"{abs_basename}.csv", float_precision="round_trip")
 
             elif os.path.isfile(f"{abs_basename}.txt"):
                 obj = np.loadtxt(f"{abs_basename}.txt")
-- 
2.43.0


From 01a5ee504a649da58c493229d4932cfb03e13a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 06/61] fix: saved arrays with one sample or one dimension must
 not change shape when loaded

With 1 sample per update, or in a 1-D search space, an optimization could not be
continued from (or plotted after loading from) a directory.
---
 dmpbbo/bbo/LearningSession.py                   | 13 ++++++++++---
 dmpbbo/bbo_of_dmps/step_by_step_optimization.py |  2 +-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 3805250..f6e1379 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -388,7 +388,10 @@ class LearningSession:
                 obj = pd.read_csv(f"{abs_basename}.csv", float_precision="round_trip")
 
             elif os.path.isfile(f"{abs_basename}.txt"):
-                obj = np.loadtxt(f"{abs_basename}.txt")
+                # Do not squeeze: an array with one row or one value should remain an array.
+                obj = np.loadtxt(f"{abs_basename}.txt", ndmin=2)
+                if obj.shape[1] == 1:
+                    obj = obj[:, 0]  # Vectors are saved as one column
 
             else:
                 raise IOError(f"Could not find file with basename: {abs_basename}")
@@ -495,7 +498,11 @@ class LearningSession:
             # One file for each sample
             n = self._n_samples_per_update
             sample_costs = [self.ask("costs", i_update, s) for s in range(n)]
-        return np.array(sample_costs)
+        sample_costs = np.array(sample_costs)
+        if sample_costs.ndim == 1:
+            # Only one cost per sample
+            sample_costs = sample_costs.reshape(len(sample_costs), 1)
+        return sample_costs
 
     def get_learning_curve(self):
         """ Get the learning curve from this learning session.
@@ -594,8 +601,8 @@ class LearningSession:
         plot_samples = kwargs.get("plot_samples", False)
 
         distribution = self.ask("distribution", i_update)
-        samples = self.ask("samples", i_update)
         weights = self.ask("weights", i_update)
+        samples = self.ask("samples", i_update).reshape(len(weights), -1)
         distribution_new = self.ask("distribution_new", i_update)
 
         if not ax:
diff --git a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
index 646c7c6..70ccbe3 100644
--- a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
+++ b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
@@ -126,7 +126,7 @@ def update_step(session, i_update, save_trajectory=False):
     # 3. Update parameters
     print("UPDATING DISTRIBUTION")
     distribution_prev = session.ask("distribution", i_update)
-    samples = session.ask("samples", i_update)
+    samples = session.ask("samples", i_update).reshape(n_samples, -1)
     updater = session.ask("updater")
 
     distribution_new, weights = updater.update_distribution(
-- 
2.43.0


From 8579646f3cb516d81fb4cbbd88674d797cf678a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 07/61] fix: get_n_updates must return the number of finished
 updates

It returned the number of the last update (i.e. one too few after running an
optimization, so that learning curves missed the last update), or the number of
directories minus one, also if the last update was interrupted.
---
 dmpbbo/bbo/LearningSession.py                   | 17 ++++++-----------
 dmpbbo/bbo_of_dmps/step_by_step_optimization.py |  2 +-
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index f6e1379..ace7006 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -23,7 +23,6 @@ import inspect
 import numbers
 import os
 import warnings
-from glob import glob
 from pathlib import Path
 
 import jsonpickle
@@ -241,7 +240,6 @@ class LearningSession:
         self._n_samples_per_update = n_samples_per_update
         self._root_dir = root_directory
         self._cache = {}
-        self._last_update_added = None
 
         self.tell(n_samples_per_update, "n_samples_per_update")
 
@@ -296,23 +294,20 @@ class LearningSession:
         self.tell(distribution, "distribution", i_update)
         self.tell(samples, "samples", i_update)
         self.tell(costs, "costs", i_update)
-        self.tell(weights, "weights", i_update)
         if distribution_new is not None:
             self.tell(distribution_new, "distribution_new", i_update)
-        self._last_update_added = i_update
+        self.tell(weights, "weights", i_update)  # Last, see get_n_updates()
 
     def get_n_updates(self):
         """ Get the number of updates that have already been performed.
 
         @return: The number of updates that have already been performed.
         """
-        if not self._root_dir:
-            return self._last_update_added
-        else:
-            update_dirs = sorted(glob(str(Path(self._root_dir, "update")) + "[0-9]*"))
-            last_dir = update_dirs[-1]
-            update_str = Path(last_dir).name.replace("update", "")
-            return int(update_str)
+        # The weights are the last thing to be stored for an update
+        n_updates = 0
+        while self.exists("weights", n_updates):
+            n_updates += 1
+        return n_updates
 
     @staticmethod
     def get_base_name(name, i_update=None, i_sample=None):
diff --git a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
index 70ccbe3..2b17211 100644
--- a/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
+++ b/dmpbbo/bbo_of_dmps/step_by_step_optimization.py
@@ -133,8 +133,8 @@ def update_step(session, i_update, save_trajectory=False):
         distribution_prev, samples, costs_per_sample
     )
 
-    session.tell(weights, "weights", i_update)
     session.tell(distribution_new, "distribution_new", i_update)
+    session.tell(weights, "weights", i_update)  # Last, see LearningSession.get_n_updates()
 
     # Update done: generate new samples
     print("GENERATE NEW SAMPLES")
-- 
2.43.0


From 022dd519a111aed05082aefa3869ef56a3d71211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 08/61] fix: learning curve of step-by-step optimization must
 use the evaluation rollouts

The costs of the evaluation rollouts were stored, but never used.
---
 dmpbbo/bbo/LearningSession.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index ace7006..7f2669f 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -468,9 +468,11 @@ class LearningSession:
         @param i_update:  The update numbers
         @return: The costs for that update.
         """
-        has_eval = self.exists("cost", 0, "eval")
+        # In step-by-step optimization, the file is called "eval_costs" rather than "eval_cost"
+        name = "cost" if self.exists("cost", 0, "eval") else "costs"
+        has_eval = self.exists(name, 0, "eval")
         if has_eval:
-            cost_eval = self.ask("cost", i_update, "eval")
+            cost_eval = self.ask(name, i_update, "eval")
             # Evaluation at the beginning of an update
             i_sample = i_update * self._n_samples_per_update
         else:
-- 
2.43.0


From c8f6e636c41e883043300d88034e078589009922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:46 +0000
Subject: [PATCH 09/61] fix: starting the integration of a Dmp in a given
 initial state

Passing y_init to integrate_start raised an error (or was ignored if y_init was
[0.0]), dmp.y_init did not return a new initial state after setting it, and
scaled goal systems did not know the initial state before training.
---
 dmpbbo/dmps/Dmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index ab4f99f..0786545 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -69,6 +69,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         dim_dmp += y_init.size  # new: damping coefficient system
         super().__init__(1, tau, y_init, dim_dmp)
 
+        self._y_init = y_init
         self._y_attr = y_attr
         self._function_approximators = function_approximators
 
@@ -196,7 +197,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         @param y_init: The initial state vector (y part)
         @return: x, xd - The first vector of state variables and their rates of change
         """
-        if y_init:
+        if y_init is not None:
             self.y_init = y_init
 
         x = np.zeros(self._dim_x)
@@ -591,7 +592,8 @@ class Dmp(DynamicalSystem, Parameterizable):
         """
         if y_init_new.size != self.dim_dmp():
             raise ValueError("y_init must have same size {self.dim_dmp()}")
-        self._y_init = y_init_new  # noqa defined inside DynamicalSystem.__init__ of
+        self._y_init = y_init_new
+        self._x_init[: self._dim_y] = y_init_new
 
         # Set value in all relevant subsystems also
         self._spring_system.y_init = y_init_new
-- 
2.43.0


From baa32742cb6edf3f66fd52b1004c0da027bcd9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:46 +0000
Subject: [PATCH 10/61] fix: setting tau of a Dmp must also set tau of its
 damping system

---
 dmpbbo/dmps/Dmp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 0786545..47b6ffd 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -584,6 +584,9 @@ class Dmp(DynamicalSystem, Parameterizable):
         if self._goal_system is not None:
             self._goal_system.tau *= tau_scale
 
+        if self._damping_system is not None:
+            self._damping_system.tau *= tau_scale
+
     @DynamicalSystem.y_init.setter
     def y_init(self, y_init_new):
         """ Set the initial state (y-part)
-- 
2.43.0


From 0fc427e87124f24d72cae928d42e03d2f3bb1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:46 +0000
Subject: [PATCH 11/61] fix: do not share memory of parameter vectors and
 initial states with the caller

---
 dmpbbo/dmps/Dmp.py                                   | 2 +-
 dmpbbo/dynamicalsystems/DynamicalSystem.py           | 2 +-
 dmpbbo/functionapproximators/FunctionApproximator.py | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 47b6ffd..d06ec85 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -706,7 +706,7 @@ class Dmp(DynamicalSystem, Parameterizable):
                     fa.set_param_vector(cur_values)
                     offset += cur_size
         if "goal" in self._selected_param_names:
-            self.y_attr = values[offset : offset + self.dim_dmp()]
+            self.y_attr = np.array(values[offset : offset + self.dim_dmp()])
 
     def get_param_vector_size(self):
         return self._get_param_vector_size_local()
diff --git a/dmpbbo/dynamicalsystems/DynamicalSystem.py b/dmpbbo/dynamicalsystems/DynamicalSystem.py
index 569bef1..7d0a67a 100644
--- a/dmpbbo/dynamicalsystems/DynamicalSystem.py
+++ b/dmpbbo/dynamicalsystems/DynamicalSystem.py
@@ -151,7 +151,7 @@ class DynamicalSystem(ABC):
         """
         if y_init is not None:
             self.y_init = y_init
-        x = self._x_init
+        x = self._x_init.copy()  # The caller may modify x, e.g. to apply a perturbation
         return x, self.differential_equation(x)
 
     def integrate_step(self, dt, x):
diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index 1ae8c97..ec46138 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -138,6 +138,9 @@ class FunctionApproximator(Parameterizable):
                 f"({self.get_param_vector_size()}) "
             )
 
+        # Make a copy, so that the model does not change if the caller modifies the vector later.
+        values = np.array(values)
+
         offset = 0
         for label in self._selected_param_names:
             expected_shape = self._model_params[label].shape
-- 
2.43.0


From 521a075da81d5b085c0306e0bd8e1fc2097ca376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:58 +0000
Subject: [PATCH 12/61] fix: bounds on schedules for more than one schedule,
 and when integrating online

Bounds of several schedules raised an error, a bound of 0.0 was ignored, and for
integrate_step_sched the bounds of the first schedule were applied to all of them.
---
 dmpbbo/dmps/DmpWithSchedules.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dmps/DmpWithSchedules.py b/dmpbbo/dmps/DmpWithSchedules.py
index 2bcaa45..bff352b 100644
--- a/dmpbbo/dmps/DmpWithSchedules.py
+++ b/dmpbbo/dmps/DmpWithSchedules.py
@@ -91,7 +91,7 @@ class DmpWithSchedules(Dmp):
 
         xs, _, _, _ = self.analytical_solution()
         inputs = xs[:, self.PHASE]
-        targets = schedules or trajectory.misc
+        targets = schedules if schedules is not None else trajectory.misc
 
         if targets is None:
             raise ValueError(
@@ -139,13 +139,8 @@ class DmpWithSchedules(Dmp):
         if self.min_schedules is None and self.max_schedules is None:
             # No bounds, simply return schedules
             return schedules
-        if schedules.ndim == 1:
-            schedules = schedules.reshape((schedules.shape[0], 1))
-        for i_dim in range(len(self._func_apps_schedules)):
-            min_sched = self.min_schedules[i_dim] if self.min_schedules else None
-            max_sched = self.max_schedules[i_dim] if self.max_schedules else None
-            schedules[:, i_dim] = np.clip(schedules[:, i_dim], min_sched, max_sched)
-        return schedules
+        # Last dimension is that of the schedules, i.e. this works for one time step also
+        return np.clip(schedules, self.min_schedules, self.max_schedules)
 
     def integrate_start_sched(self, y_init=None):
         """ Start integrating the DMP with schedules with a new initial state.
-- 
2.43.0


From f7c9fa765a85604a871cdc2d712c52e49f33715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:19 +0000
Subject: [PATCH 13/61] fix: maximum exploration must lead to a valid
 covariance matrix

Clipping only the diagonal of a full covariance matrix leads to a matrix that is
not positive semi-definite, from which samples cannot be drawn properly.
---
 dmpbbo/bbo/updaters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d1ff0aa..d5be731 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -193,6 +193,11 @@ class UpdaterCovarAdaptation(Updater):
                 if not is_scalar_max:
                     level_max = pow(self.diagonal_max[ii], 2)
                 if covar_new[ii, ii] > level_max:
+                    # Scale the whole row and column. Changing the diagonal value only would lead
+                    # to correlations larger than 1, i.e. not a valid covariance matrix.
+                    scale = np.sqrt(level_max / covar_new[ii, ii])
+                    covar_new[ii, :] *= scale
+                    covar_new[:, ii] *= scale
                     covar_new[ii, ii] = level_max
 
         # Set a minimum value for the diagonal to avoid pre-mature convergence
-- 
2.43.0


From a2ce40aad0aae1e74902f252e722fe1fad2d99ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:41 +0000
Subject: [PATCH 14/61] fix: refuse to update a distribution with costs that
 lead to weights that are nan

---
 dmpbbo/bbo/updaters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index d5be731..22ba072 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -279,4 +279,8 @@ def costs_to_weights(costs, weighting_method, eliteness):
     # Normalize weights
     weights = weights / sum(weights)
 
+    if not np.all(np.isfinite(weights)):
+        # Do not let one failed rollout (cost is nan) turn the whole distribution into nan.
+        raise ValueError(f"Cannot convert these costs to weights: {costs}")
+
     return weights
-- 
2.43.0


From f36592ecb496e66b733656f3bd06209a7a86dd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:04 +0000
Subject: [PATCH 15/61] fix: compile with Eigen 3.4 and nlohmann::json 3.11

Since Eigen 3.4, vectors have iterators, so nlohmann::json takes them for STL
containers when converting implicitly, and does not use Eigen::from_json.
---
 src/dmp/Dmp.cpp                             | 11 ++++++-----
 src/dynamicalsystems/ExponentialSystem.cpp  |  6 ++++--
 src/dynamicalsystems/SigmoidSystem.cpp      |  3 ++-
 src/dynamicalsystems/SpringDamperSystem.cpp |  6 ++++--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 6a752e4..8e67c25 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -548,10 +548,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
 
   double alpha_spring_damper = j.at("_spring_system").at("damping_coefficient");
 
-  VectorXd y_init = j.at("_y_init");
-  VectorXd y_attr = j.at("_y_attr");
-  // from_json(j.at("_y_init"), y_init);
-  // from_json(j.at("_y_attr"), y_attr);
+  VectorXd y_init;
+  Eigen::from_json(j.at("_y_init"), y_init);
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
 
   ExponentialSystem* goal_system;
   DynamicalSystem *phase_system, *gating_system;
@@ -560,7 +560,8 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
   string forcing_term_scaling = j.at("_forcing_term_scaling");
-  VectorXd scaling_amplitudes = j.at("_scaling_amplitudes");
+  VectorXd scaling_amplitudes;
+  Eigen::from_json(j.at("_scaling_amplitudes"), scaling_amplitudes);
 
   int n_dims = y_attr.size();
   vector<FunctionApproximator*> function_approximators;
diff --git a/src/dynamicalsystems/ExponentialSystem.cpp b/src/dynamicalsystems/ExponentialSystem.cpp
index 39158a1..18cdccc 100644
--- a/src/dynamicalsystems/ExponentialSystem.cpp
+++ b/src/dynamicalsystems/ExponentialSystem.cpp
@@ -92,8 +92,10 @@ void from_json(const nlohmann::json& j, ExponentialSystem*& obj)
 {
   double tau = j.at("_tau");
   double alpha = j.at("alpha");
-  VectorXd x_init = j.at("_x_init");
-  VectorXd x_attr = j.at("_x_attr");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
+  VectorXd x_attr;
+  Eigen::from_json(j.at("_x_attr"), x_attr);
 
   obj = new ExponentialSystem(tau, x_init, x_attr, alpha);
 }
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 0cd2dfd..6355884 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -167,7 +167,8 @@ void from_json(const nlohmann::json& j, SigmoidSystem*& obj)
   double tau = j.at("_tau");
   double max_rate = j.at("_max_rate");
   double inflection_point_time = j.at("_inflection_ratio");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
 
   obj = new SigmoidSystem(tau, x_init, max_rate, inflection_point_time);
 }
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index b170029..a6f7654 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -168,8 +168,10 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
   double spring_constant = j.at("spring_constant");
   double mass = j.at("mass");
 
-  VectorXd y_attr = j.at("_y_attr");
-  VectorXd x_init = j.at("_x_init");
+  VectorXd y_attr;
+  Eigen::from_json(j.at("_y_attr"), y_attr);
+  VectorXd x_init;
+  Eigen::from_json(j.at("_x_init"), x_init);
   VectorXd y_init = x_init.segment(0, y_attr.size());
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
-- 
2.43.0


From 2b79be9f77d2176f94e163b7862e85041aa1fc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:05 +0000
Subject: [PATCH 16/61] fix: temporal scaling of a SigmoidSystem

If tau of a Dmp with a sigmoid as the gating system was increased by a factor of
3 after constructing it, the gating term remained 1, i.e. the forcing term was
never phased out, and the Dmp did not converge to the goal.
---
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 3 +++
 src/dynamicalsystems/SigmoidSystem.cpp   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index 0c93554..cd022b5 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -89,6 +89,9 @@ class SigmoidSystem(DynamicalSystem):
 
         @param new_tau: Time constant
         """
+        # Temporal scaling: the rate of change must scale along. If it does not, the system stays at
+        # (or jumps away from) its initial state if tau becomes larger (or smaller).
+        self._max_rate = self._max_rate * (self._tau / new_tau)
         self._tau = new_tau
         self._Ks_cached = None  # Forces recomputing Ks
 
diff --git a/src/dynamicalsystems/SigmoidSystem.cpp b/src/dynamicalsystems/SigmoidSystem.cpp
index 6355884..acefb60 100644
--- a/src/dynamicalsystems/SigmoidSystem.cpp
+++ b/src/dynamicalsystems/SigmoidSystem.cpp
@@ -48,7 +48,9 @@ SigmoidSystem::~SigmoidSystem(void) {}
 
 void SigmoidSystem::set_tau(double new_tau)
 {
+  // Temporal scaling: the rate of change must scale along.
   // Get previous tau from superclass with tau() and set it with set_tau()
+  max_rate_ *= tau() / new_tau;
   DynamicalSystem::set_tau(new_tau);
   double inflection_point_time = inflection_ratio_ * tau();
   Ks_ = SigmoidSystem::computeKs(x_init(), max_rate_, inflection_point_time);
-- 
2.43.0


From be65c39255033f483151c88360da5388a8c24811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:59 +0000
Subject: [PATCH 17/61] fix: changing the goal of a Dmp with a Richards system
 as the goal system

The goal system ignored the new attractor state, so without scaling of the goal
system, the Dmp converged to the previous goal.
---
 dmpbbo/dmps/Dmp.py                        |  3 ++-
 dmpbbo/dynamicalsystems/RichardsSystem.py | 12 ++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index d06ec85..2455464 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -255,7 +255,8 @@ class Dmp(DynamicalSystem, Parameterizable):
             xd[self.GOAL] = np.zeros(self._dim_y)
         else:
             # Integrate goal system and get current goal state
-            self._goal_system.y_attr = self._y_attr
+            if not self.goal_system_requires_scaling:
+                self._goal_system.y_attr = self._y_attr
             xd[self.GOAL] = self._goal_system.differential_equation(x[self.GOAL])
             if not self.goal_system_requires_scaling:
                 # The goal state is the attractor state of the spring-damper system
diff --git a/dmpbbo/dynamicalsystems/RichardsSystem.py b/dmpbbo/dynamicalsystems/RichardsSystem.py
index ace433a..b42f9de 100644
--- a/dmpbbo/dynamicalsystems/RichardsSystem.py
+++ b/dmpbbo/dynamicalsystems/RichardsSystem.py
@@ -35,6 +35,18 @@ class RichardsSystem(DynamicalSystem):
         self.t_infl_ratio = t_infl_ratio
         self.left_asymp = None
 
+    @property
+    def y_attr(self):
+        """ Return the attractor state, which is the right asymptote. """
+        return self.right_asymp
+
+    @y_attr.setter
+    def y_attr(self, new_y_attr):
+        """ Set the attractor state, which is the right asymptote. """
+        if new_y_attr.size != self._dim_y:
+            raise ValueError(f"y_attr must have size {self._dim_y}")
+        self.right_asymp = np.atleast_1d(new_y_attr)
+
     def set_left_asymp(self, left_asymp):
         self.left_asymp = left_asymp
 
-- 
2.43.0


From 4e006603fa0ff51eb680a0af3668f5f016d7bdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:15 +0000
Subject: [PATCH 18/61] fix: costs that are nan are not ignored when all other
 costs are the same

max() and min() of [1.0, nan, nan] are both 1.0, so all samples, also those
with nan costs, got the same weight, instead of the costs being refused.
---
 dmpbbo/bbo/updaters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/updaters.py b/dmpbbo/bbo/updaters.py
index 22ba072..f251cbb 100644
--- a/dmpbbo/bbo/updaters.py
+++ b/dmpbbo/bbo/updaters.py
@@ -237,7 +237,8 @@ def costs_to_weights(costs, weighting_method, eliteness):
     if weighting_method == "PI-BB":
         # PI^2 style weighting: continuous, by taking exponent of the cost
         h = eliteness  # In PI^2, eliteness parameter is known as "h"
-        costs_range = max(costs) - min(costs)
+        # np.max/np.min because max/min depend on the order of the costs if one of them is nan.
+        costs_range = np.max(costs) - np.min(costs)
         if costs_range == 0:
             weights = np.full(costs.shape, 1.0)
         else:
-- 
2.43.0


From d2f42afee704d14450877649f0a17f50ca463aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:08 +0000
Subject: [PATCH 19/61] fix: an interrupted computation must not leave an
 incomplete cache in SigmoidSystem

---
 dmpbbo/dynamicalsystems/SigmoidSystem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SigmoidSystem.py b/dmpbbo/dynamicalsystems/SigmoidSystem.py
index cd022b5..e4b7307 100644
--- a/dmpbbo/dynamicalsystems/SigmoidSystem.py
+++ b/dmpbbo/dynamicalsystems/SigmoidSystem.py
@@ -176,7 +176,7 @@ class SigmoidSystem(DynamicalSystem):
         #              (K/N_0 - 1)*exp(-r*t_infl) = 1
         #                             (K/N_0 - 1) = 1/exp(-r*t_infl)
         #                                       K = N_0*(1+(1/exp(-r*t_infl)))
-        self._Ks_cached = np.empty(N_0s.shape)
+        Ks = np.empty(N_0s.shape)  # noqa
         for dd in range(len(N_0s)):
             r = self._max_rate[dd] if isinstance(self._max_rate, np.ndarray) else self._max_rate
             infl_ratio = (
@@ -185,7 +185,7 @@ class SigmoidSystem(DynamicalSystem):
                 else self._inflection_ratio
             )
             t_infl = self.tau * infl_ratio
-            self._Ks_cached[dd] = N_0s[dd] * (1.0 + (1.0 / np.exp(-r * t_infl)))
+            Ks[dd] = N_0s[dd] * (1.0 + (1.0 / np.exp(-r * t_infl)))
 
             # If Ks is too close to N_0===initial_state, then the differential equation will always
             # return 0. See differential_equation below
@@ -199,7 +199,7 @@ class SigmoidSystem(DynamicalSystem):
             #   xd = 0
             # And integration fails, especially for Euler integration.
             # So we now give a warning if this is likely to happen.
-            div = np.divide(N_0s[dd], self._Ks_cached[dd]) - 1.0
+            div = np.divide(N_0s[dd], Ks[dd]) - 1.0
             if np.any(np.abs(div) < 10e-9):  # 10e-9 determined empirically
                 print(
                     f"In function SigmoidSystem, Ks is too close to N_0s. This may lead to errors "
@@ -207,6 +207,7 @@ class SigmoidSystem(DynamicalSystem):
                     f"for the maximum rate of change (currently it is {r}) "
                 )
 
+        self._Ks_cached = Ks  # Only cache it once it is complete
         return self._Ks_cached
 
     def decouple_parameters(self):
-- 
2.43.0


From da8ffd2081bf9c66f259e4d355ec1570167b7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:01 +0000
Subject: [PATCH 20/61] fix: reading a Dmp without a delayed goal system from
 json

In Python, _goal_system is None (null in json) for IJSPEERT_2002_MOVEMENT. The C++
implementation supports this, but could not read it.
---
 src/dmp/Dmp.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 8e67c25..3ac8ec0 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -555,7 +555,10 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
 
   ExponentialSystem* goal_system;
   DynamicalSystem *phase_system, *gating_system;
-  goal_system = j.at("_goal_system").get<ExponentialSystem*>();
+  // There is not necessarily a system for the delayed goal
+  goal_system = NULL;
+  if (!j.at("_goal_system").is_null())
+    goal_system = j.at("_goal_system").get<ExponentialSystem*>();
   phase_system = j.at("_phase_system").get<DynamicalSystem*>();
   gating_system = j.at("_gating_system").get<DynamicalSystem*>();
 
-- 
2.43.0


From 8950cdc5bf9de69edbedd71eec3b9a7435d199e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:01 +0000
Subject: [PATCH 21/61] fix: integrating a Dmp without function approximators
 in C++

A Dmp need not have function approximators, in which case there is no forcing term.
---
 src/dmp/Dmp.cpp | 3 +++
 src/dmp/Dmp.hpp | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 3ac8ec0..cd290fe 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -307,6 +307,8 @@ void Dmp::differentialEquation(const Eigen::Ref<const Eigen::VectorXd>& x,
 
   // Compute output of the funciton approximators
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    fa_output_prealloc_(0, i_dim) = 0.0;
+    if (!has_function_approximator(i_dim)) continue;
     function_approximators_[i_dim]->predictRealTime(x.PHASE,
                                                     fa_output_one_prealloc_);
     fa_output_prealloc_(0, i_dim) = fa_output_one_prealloc_(0, 0);
@@ -420,6 +422,7 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   MatrixXd fa_output_one_dim(n_time_steps, 1);
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
+    if (!has_function_approximator(i_dim)) continue;
     function_approximators_[i_dim]->predict(xs_phase, fa_output_one_dim);
     fa_outputs.col(i_dim) = fa_output_one_dim;
   }
diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 49a7838..b3cf193 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -415,6 +415,14 @@ class Dmp : public DynamicalSystem {
    */
   std::vector<FunctionApproximator*> function_approximators_;
 
+  /** Is there a function approximator for a certain dimension? If not, there is
+   * no forcing term for this dimension. */
+  inline bool has_function_approximator(int i_dim) const
+  {
+    return i_dim < (int)function_approximators_.size() &&
+           function_approximators_[i_dim] != NULL;
+  }
+
   /** How is the forcing term scaled? */
   std::string forcing_term_scaling_;
 
-- 
2.43.0


From 57cb1db9fbe0e26d67a09ebbe16b9cd53f06924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:36 +0000
Subject: [PATCH 22/61] fix: integrating a Dmp with G_MINUS_Y0_SCALING in C++
 must not allocate memory

---
 src/dmp/Dmp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index b3cf193..4c88c4b 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -347,7 +347,8 @@ class Dmp : public DynamicalSystem {
   inline void get_y_init(Eigen::VectorXd& y_init) const
   {
     // x = [y z etc], return only y part
-    y_init = x_init().segment(0, dim_y());
+    // Do not use x_init() here, it allocates memory (not real-time)
+    DynamicalSystem::get_y_init(y_init);
   }
 
   /** Set the initial state of the dynamical system.
-- 
2.43.0


From a3763caedffbd41caa9f6ccba7b4f8eb1d5b165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:36 +0000
Subject: [PATCH 23/61] fix: starting the integration of a C++ Dmp in a given
 initial state

DynamicalSystem::integrateStart(y_init, x, xd) called set_x_init() with a vector that
only has the size of y_init, and did not set the initial state of the subsystems.
---
 src/dmp/Dmp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.hpp b/src/dmp/Dmp.hpp
index 4c88c4b..99f1e53 100644
--- a/src/dmp/Dmp.hpp
+++ b/src/dmp/Dmp.hpp
@@ -356,7 +356,8 @@ class Dmp : public DynamicalSystem {
    */
   inline void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
   {
-    set_x_init(y_init);
+    // Sets the value in all relevant subsystems also
+    set_y_init(Eigen::VectorXd(y_init));
   }
 
   /** Read an object from json.
-- 
2.43.0


From f7c6e573b699c9d47d724ad38420213c12ebd39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:11 +0000
Subject: [PATCH 24/61] fix: starting the integration of a C++ SigmoidSystem in
 a given initial state

The carrying capacities Ks depend on the initial state, also if it is set with set_y_init().
---
 src/dynamicalsystems/SigmoidSystem.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dynamicalsystems/SigmoidSystem.hpp b/src/dynamicalsystems/SigmoidSystem.hpp
index a084fce..d416c59 100644
--- a/src/dynamicalsystems/SigmoidSystem.hpp
+++ b/src/dynamicalsystems/SigmoidSystem.hpp
@@ -63,6 +63,10 @@ class SigmoidSystem : public DynamicalSystem {
 
   void set_tau(double tau);
   void set_x_init(const Eigen::VectorXd& x_init);
+  void set_y_init(const Eigen::Ref<const Eigen::VectorXd>& y_init)
+  {
+    set_x_init(y_init);  // y is equivalent to x
+  }
 
   /** Read an object from json.
    *  \param[in]  j   json input
-- 
2.43.0


From 020b781dac1353900b192c05bb7b426e98c17efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:06 +0000
Subject: [PATCH 25/61] fix: offline solution of spring-damper systems used z
 instead of the velocity z/tau as initial velocity

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 src/dynamicalsystems/SpringDamperSystem.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index f02bb6a..c83fde1 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -145,7 +145,7 @@ class SpringDamperSystem(DynamicalSystem):
 
         for i_dim in range(self._dim_y):
             y0 = self._x_init[i_dim] - self._y_attr[i_dim]
-            yd0 = self._x_init[self._dim_y + i_dim]
+            yd0 = self._x_init[self._dim_y + i_dim] / self._tau  # because z = tau*yd
 
             A = y0  # noqa
             B = yd0 + omega_0s[i_dim] * y0  # noqa
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index a6f7654..feb7254 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -124,7 +124,7 @@ void SpringDamperSystem::analyticalSolution(const VectorXd& ts, MatrixXd& xs,
   // Eigen::replicate().
   for (int i_dim = 0; i_dim < dim_y(); i_dim++) {
     double y0 = x_ini[i_dim] - y_attr_[i_dim];
-    double yd0 = x_ini[dim_y() + i_dim];
+    double yd0 = x_ini[dim_y() + i_dim] / tau();  // because z = tau*yd
 
     double A = y0;
     double B = yd0 + omega_0 * y0;
-- 
2.43.0


From 62435fe2dbce7376576e068c6340d10a2a7b9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:06 +0000
Subject: [PATCH 26/61] fix: DmpContextualTwoStep.integrate_start set a
 parameter matrix instead of a vector, which failed for the goal parameter

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index ea7369a..f68bbd0 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -186,14 +186,8 @@ class DmpContextualTwoStep(DynamicalSystem):
         @return: x, xd - The first vector of state variables and their rates of change
         """
 
-        # Predict dmp parameters from task parameters using the ppf
-        n_params = self.dmp.get_param_vector_size()
-        param_vector = np.zeros((n_params, 1))
-        for i_param in range(n_params):
-            param_vector[i_param] = self.ppf[i_param].predict(task_params)
-
-        # Set the dmp parameters
-        self.dmp.set_param_vector(param_vector)
+        # Predict dmp parameters from task parameters using the ppf, and set them
+        self.set_task_params(task_params)
 
         return self.dmp.integrate_start(y_init)
 
-- 
2.43.0


From 5f35f316213826ca10c28b49464c2273bcbbe2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:06 +0000
Subject: [PATCH 27/61] fix: GPR kept a reference to the training inputs, so
 that later changes to them changed its predictions

---
 dmpbbo/functionapproximators/FunctionApproximatorGPR.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
index b2aeb9d..455ef82 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorGPR.py
@@ -49,7 +49,8 @@ class FunctionApproximatorGPR(FunctionApproximator):
     def _train(inputs, targets, meta_params, **kwargs):
 
         model_params = {
-            "inputs": inputs,
+            # Copy, so that the model does not change if the caller modifies the inputs later.
+            "inputs": inputs.copy(),
             "lengths": np.full(inputs.shape, meta_params["lengths"]),
             "max_covariance": meta_params["max_covariance"],
         }
-- 
2.43.0


From 9b9f40d65996ba1e445716ce3c1763388a72a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:06 +0000
Subject: [PATCH 28/61] fix: the offset of WLS could not be set as a parameter,
 nor re-loaded from json as an array

---
 dmpbbo/functionapproximators/FunctionApproximatorWLS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorWLS.py b/dmpbbo/functionapproximators/FunctionApproximatorWLS.py
index 7e03e70..a86be77 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorWLS.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorWLS.py
@@ -81,7 +81,7 @@ class FunctionApproximatorWLS(FunctionApproximator):
         beta = np.dot(np.dot(np.dot(np.linalg.inv(to_invert), X.T), W), targets)
 
         if use_offset:
-            model_params = {"slope": beta[:-1], "offset": beta[-1]}
+            model_params = {"slope": beta[:-1], "offset": beta[-1:]}
         else:
             model_params = {"slope": beta}
 
-- 
2.43.0


From ca94b71d1739ca17ea5bc5b2d8bfee891589c003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:06 +0000
Subject: [PATCH 29/61] fix: RBFN and LWR with one number of basis functions
 for several input dimensions could not predict

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py  | 2 +-
 dmpbbo/functionapproximators/FunctionApproximatorRBFN.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 8ea4626..3571e13 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -50,7 +50,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
         model_params = {"centers": centers, "widths": widths}
 
         # Prepare weighted least squares regressions
-        n_bfs = np.prod(n_bfs_per_dim)
+        n_bfs = centers.shape[0]  # n_bfs_per_dim may be one number for all dimensions
         n_dims = centers.shape[1]
         slopes = np.ones([n_bfs, n_dims])
         offsets = np.ones([n_bfs, 1])
diff --git a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
index eef020d..f8005e9 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorRBFN.py
@@ -52,10 +52,9 @@ class FunctionApproximatorRBFN(FunctionApproximator):
         # Determine the centers and widths of the basis functions, given the input data range
 
         n_bfs_per_dim = meta_params["n_basis_functions_per_dim"]
-        n_bfs = np.prod(n_bfs_per_dim)
-
         height = meta_params["intersection_height"]
         centers, widths = Gaussian.get_centers_and_widths(inputs, n_bfs_per_dim, height)
+        n_bfs = centers.shape[0]  # n_bfs_per_dim may be one number for all dimensions
 
         model_params = {
             "centers": meta_params.get("centers", centers),
-- 
2.43.0


From 392cfb53818f1032791149ed09a9c5dd116febe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:15 +0000
Subject: [PATCH 30/61] fix: LWR ignored its regularization parameter

---
 dmpbbo/functionapproximators/FunctionApproximatorLWR.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
index 3571e13..aa58d21 100644
--- a/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
+++ b/dmpbbo/functionapproximators/FunctionApproximatorLWR.py
@@ -57,8 +57,7 @@ class FunctionApproximatorLWR(FunctionApproximator):
 
         # Prepare the weighted-least squares function approximator
         reg = meta_params["regularization"]
-        wls_meta_params = {"regularization": reg, "use_offset": True}
-        fa_lws = FunctionApproximatorWLS(wls_meta_params)
+        fa_lws = FunctionApproximatorWLS(use_offset=True, regularization=reg)
 
         # Perform one weighted least squares regression for each kernel
         activations = FunctionApproximatorLWR._activations(inputs, model_params)
-- 
2.43.0


From cbbb6db4c026c5763da0c903eedb3abb4398707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:39 +0000
Subject: [PATCH 31/61] fix: padding a trajectory failed if the number of time
 steps was rounded up

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 2310f76..9752ac5 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -282,7 +282,7 @@ class Trajectory:
             self._misc = self._misc[start:end, :]
 
     def pad_front(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_init, (n_padding, 1))
         prepend_traj = Trajectory(
             ts_padding,
@@ -293,7 +293,7 @@ class Trajectory:
         self.prepend(prepend_traj)
 
     def pad_end(self, n_padding=100):
-        ts_padding = np.arange(0.0, n_padding*self._dt_mean, self._dt_mean)
+        ts_padding = np.arange(n_padding) * self._dt_mean
         ys_padding = np.tile(self.y_final, (n_padding, 1))
         append_traj = Trajectory(
             ts_padding,
-- 
2.43.0


From 6c8f20d6891b10d856d04d485b8df70a27d4d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:39 +0000
Subject: [PATCH 32/61] fix: times were not increasing after prepending a
 trajectory that does not start at time 0

---
 dmpbbo/dmps/Trajectory.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 9752ac5..cad933d 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -449,9 +449,8 @@ class Trajectory:
 
         @param trajectory:  The trajectory to append.
         """
-        self.set_start_time_to_zero()
-        self.ts[:] += trajectory.duration + trajectory._dt_mean
-        self._ts = np.concatenate((trajectory.ts, self._ts))
+        ts_self = (self._ts - self._ts[0]) + (trajectory.ts[-1] + trajectory._dt_mean)
+        self._ts = np.concatenate((trajectory.ts, ts_self))
         self._ys = np.concatenate((trajectory.ys, self._ys))
         self._yds = np.concatenate((trajectory.yds, self._yds))
         self._ydds = np.concatenate((trajectory.ydds, self._ydds))
-- 
2.43.0


From 493c30ed703dfe88a371fc3c4e50f13a807fc887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:39 +0000
Subject: [PATCH 33/61] fix: cropping a trajectory up to a time after its end
 dropped the last time step

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index cad933d..022661f 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -267,9 +267,9 @@ class Trajectory:
                 # Get first index when time is larger than 'start'
                 start = np.argmax(self._ts >= start)
 
-            if end >= self._ts[-1]:
+            if end > self._ts[-1]:
                 # Time 'end' is larger than the last time in the trajectory
-                end = len(self._ts) - 1
+                end = len(self._ts)
             else:
                 # Get first index when time is smaller than 'end'
                 end = np.argmax(self._ts >= end)
-- 
2.43.0


From 5be4a1cc01d3e05e7655c09a12d13675b9036b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:39 +0000
Subject: [PATCH 34/61] fix: polynomial trajectories did not reach their final
 position if the initial acceleration is not 0

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 022661f..d52e318 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -320,8 +320,8 @@ class Trajectory:
         a1 = yd_from
         a2 = ydd_from / 2
 
-        a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
-        a4 = 15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
+        a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to - 4 * yd_to + 0.5 * ydd_to
+        a4 = 15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to
         a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to - 3 * yd_to + 0.5 * ydd_to
 
         n_time_steps = ts.size
-- 
2.43.0


From 587be3ee286321bd001442e3f861a292df8b30c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:39 +0000
Subject: [PATCH 35/61] fix: minimum-jerk trajectories did not start at the
 initial position if the first time is not 0

---
 dmpbbo/dmps/Trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index d52e318..29f4e7b 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -408,8 +408,8 @@ class Trajectory:
         yds = np.zeros([n_time_steps, n_dims])
         ydds = np.zeros([n_time_steps, n_dims])
 
-        D = ts[n_time_steps - 1]  # noqa
-        tss = ts / D
+        D = ts[n_time_steps - 1] - ts[0]  # noqa
+        tss = (ts - ts[0]) / D
 
         A = y_to - y_from  # noqa
 
-- 
2.43.0


From 56879883ab06b5148a8e3955c5f69670cc05351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:58 +0000
Subject: [PATCH 36/61] fix: padding the front of a trajectory with one time
 step led to times that are nan

---
 dmpbbo/dmps/Trajectory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 29f4e7b..869b657 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -290,6 +290,7 @@ class Trajectory:
             np.zeros((n_padding, self.yds.shape[1])),
             np.zeros((n_padding, self.ydds.shape[1])),
         )
+        prepend_traj._dt_mean = self._dt_mean  # Would be nan if n_padding is 1
         self.prepend(prepend_traj)
 
     def pad_end(self, n_padding=100):
-- 
2.43.0


From 9ca6a0b5bce3ab8e42a7e7ceae960a42474d97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:06:58 +0000
Subject: [PATCH 37/61] fix: the mean time step of a trajectory was not updated
 when appending, prepending or cropping

---
 dmpbbo/dmps/Trajectory.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 869b657..1b529e2 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -226,6 +226,11 @@ class Trajectory:
         """
         return self._ys.max(axis=0) - self._ys.min(axis=0)
 
+    def _update_dt_mean(self):
+        """ Update the mean dt value after time steps have been added or removed. """
+        if self._ts.size > 1:
+            self._dt_mean = np.mean(np.diff(self._ts))
+
     def crop(self, start, end, as_times=False):
         """ Crop trajectory from 'start' to 'end'
 
@@ -280,6 +285,7 @@ class Trajectory:
         self._ydds = self._ydds[start:end, :]
         if self._misc is not None:
             self._misc = self._misc[start:end, :]
+        self._update_dt_mean()
 
     def pad_front(self, n_padding=100):
         ts_padding = np.arange(n_padding) * self._dt_mean
@@ -443,6 +449,8 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((self._misc, trajectory.misc))
+        self._update_dt_mean()
+
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
 
@@ -459,6 +467,7 @@ class Trajectory:
             self._misc = None
         else:
             self._misc = np.concatenate((trajectory.misc, self._misc))
+        self._update_dt_mean()
 
     def as_matrix(self):
         """ Return the trajectory as a matrix.
-- 
2.43.0


From 8326e5944b54cc981e1e02637199aa0b713fd98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:11:32 +0000
Subject: [PATCH 38/61] fix: a refused append or prepend left a trajectory with
 inconsistent lengths

---
 dmpbbo/dmps/Trajectory.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 1b529e2..6c00c21 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -441,15 +441,7 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         ts_appended = (trajectory.ts - trajectory.ts[0]) + (self._ts[-1] + self._dt_mean)
-        self._ts = np.concatenate((self._ts, ts_appended))
-        self._ys = np.concatenate((self._ys, trajectory.ys))
-        self._yds = np.concatenate((self._yds, trajectory.yds))
-        self._ydds = np.concatenate((self._ydds, trajectory.ydds))
-        if self._misc is None or trajectory.misc is None:
-            self._misc = None
-        else:
-            self._misc = np.concatenate((self._misc, trajectory.misc))
-        self._update_dt_mean()
+        self._set_concatenated(self._ts, self, ts_appended, trajectory)
 
     def prepend(self, trajectory):
         """ Prepend another trajectory to this one.
@@ -459,14 +451,21 @@ class Trajectory:
         @param trajectory:  The trajectory to append.
         """
         ts_self = (self._ts - self._ts[0]) + (trajectory.ts[-1] + trajectory._dt_mean)
-        self._ts = np.concatenate((trajectory.ts, ts_self))
-        self._ys = np.concatenate((trajectory.ys, self._ys))
-        self._yds = np.concatenate((trajectory.yds, self._yds))
-        self._ydds = np.concatenate((trajectory.ydds, self._ydds))
-        if self._misc is None or trajectory.misc is None:
-            self._misc = None
-        else:
-            self._misc = np.concatenate((trajectory.misc, self._misc))
+        self._set_concatenated(trajectory.ts, trajectory, ts_self, self)
+
+    def _set_concatenated(self, ts1, traj1, ts2, traj2):
+        """ Set this trajectory to the concatenation of two others (one of which may be this one).
+
+        Nothing is changed if the trajectories do not fit together.
+        """
+        ts = np.concatenate((ts1, ts2))
+        ys = np.concatenate((traj1.ys, traj2.ys))
+        yds = np.concatenate((traj1.yds, traj2.yds))
+        ydds = np.concatenate((traj1.ydds, traj2.ydds))
+        misc = None
+        if traj1.has_misc() and traj2.has_misc():
+            misc = np.concatenate((traj1.misc, traj2.misc))
+        self._ts, self._ys, self._yds, self._ydds, self._misc = ts, ys, yds, ydds, misc
         self._update_dt_mean()
 
     def as_matrix(self):
-- 
2.43.0


From e244567cd999fb5cf4a49442ab1fa5579c15f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:27 +0000
Subject: [PATCH 39/61] fix: C++ loaded spring-damper systems without their
 initial velocities

---
 src/dynamicalsystems/SpringDamperSystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index feb7254..c59dc88 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -176,6 +176,7 @@ void from_json(const nlohmann::json& j, SpringDamperSystem*& obj)
 
   obj = new SpringDamperSystem(tau, y_init, y_attr, damping_coefficient,
                                spring_constant, mass);
+  obj->set_x_init(x_init);  // Includes the initial velocities
 }
 
 void SpringDamperSystem::to_json_helper(nlohmann::json& j) const
-- 
2.43.0


From b4bf74a725379d21aafa2a1521d677863778d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:27:49 +0000
Subject: [PATCH 40/61] fix: critical damping of spring-damper systems ignored
 their mass

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 src/dynamicalsystems/SpringDamperSystem.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index c83fde1..5e520ac 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -49,7 +49,7 @@ class SpringDamperSystem(DynamicalSystem):
         self.damping_coefficient = damping_coefficient
         self.mass = mass
         if spring_constant == "CRITICALLY_DAMPED":
-            self.spring_constant = damping_coefficient * damping_coefficient / 4
+            self.spring_constant = damping_coefficient * damping_coefficient / (4 * mass)
         else:
             self.spring_constant = spring_constant
 
diff --git a/src/dynamicalsystems/SpringDamperSystem.cpp b/src/dynamicalsystems/SpringDamperSystem.cpp
index c59dc88..178a55f 100644
--- a/src/dynamicalsystems/SpringDamperSystem.cpp
+++ b/src/dynamicalsystems/SpringDamperSystem.cpp
@@ -45,8 +45,8 @@ SpringDamperSystem::SpringDamperSystem(double tau, Eigen::VectorXd y_init,
       mass_(mass)
 {
   if (spring_constant_ == CRITICALLY_DAMPED)
-    spring_constant_ =
-        damping_coefficient_ * damping_coefficient_ / 4;  // Critically damped
+    spring_constant_ = damping_coefficient_ * damping_coefficient_ /
+                       (4 * mass_);  // Critically damped
 
   // Order 2 system: these variables are half the size of state dimensionality
   y_ = VectorXd(dim() / 2);
-- 
2.43.0


From 7c77eaab621c39ecf47058761980c049fcdeb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:33:46 +0000
Subject: [PATCH 41/61] fix: numpy integers and booleans were not stored as
 what they are

np.int64 as n_samples_per_update was stored in a json file, which
LearningSession.from_dir could not open. True and False came back as an
array of floats.
---
 dmpbbo/bbo/LearningSession.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 7f2669f..6744319 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -423,7 +423,8 @@ class LearningSession:
         # Make sure directory exists
         os.makedirs(os.path.dirname(abs_basename), exist_ok=True)
 
-        if isinstance(obj, (np.ndarray, list, int)):
+        is_int = isinstance(obj, numbers.Integral) and not isinstance(obj, bool)
+        if is_int or isinstance(obj, (np.ndarray, list)):
             filename = f"{abs_basename}.txt"
             with jc.atomic_write(filename) as filename_tmp:
                 np.savetxt(filename_tmp, np.atleast_1d(obj))  # noqa
-- 
2.43.0


From abda4d3dcf4a20bcc3f210653e067be96ac2b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:33:46 +0000
Subject: [PATCH 42/61] fix: keys of dictionaries became strings when stored

For instance, a task with via-points {10: 0.5} had {'10': 0.5} in a
re-opened session.
---
 demos/robot/plot_rollouts.py              | 2 +-
 demos/robot/step2_define_task.py          | 2 +-
 demos/robot/step4_prepare_optimization.py | 2 +-
 dmpbbo/bbo/LearningSession.py             | 2 +-
 dmpbbo/json_for_cpp.py                    | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/demos/robot/plot_rollouts.py b/demos/robot/plot_rollouts.py
index 563dcc8..303ee1d 100644
--- a/demos/robot/plot_rollouts.py
+++ b/demos/robot/plot_rollouts.py
@@ -46,7 +46,7 @@ def main():
     task = None
     if args.task is not None:
         with open(args.task, "r") as f:
-            task = jsonpickle.decode(f.read())
+            task = jsonpickle.decode(f.read(), keys=True)
 
     fig = plt.figure(1)
     fig.suptitle(args.input)
diff --git a/demos/robot/step2_define_task.py b/demos/robot/step2_define_task.py
index a689593..228a56e 100644
--- a/demos/robot/step2_define_task.py
+++ b/demos/robot/step2_define_task.py
@@ -43,7 +43,7 @@ def main():
     os.makedirs(args.directory, exist_ok=True)
     filename = Path(args.directory, args.filename)
     print(f"  * Saving task to file {filename}")
-    json = jsonpickle.encode(task)
+    json = jsonpickle.encode(task, keys=True)
     with open(filename, "w") as text_file:
         text_file.write(json)
 
diff --git a/demos/robot/step4_prepare_optimization.py b/demos/robot/step4_prepare_optimization.py
index eadfde2..1a159b9 100644
--- a/demos/robot/step4_prepare_optimization.py
+++ b/demos/robot/step4_prepare_optimization.py
@@ -35,7 +35,7 @@ def main():
 
     filename = Path(args.directory, "task.json")
     with open(filename, "r") as f:
-        task = jsonpickle.decode(f.read())
+        task = jsonpickle.decode(f.read(), keys=True)
 
     filename = Path(args.directory, "distribution_initial.json")
     with open(filename, "r") as f:
diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 6744319..029868b 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -377,7 +377,7 @@ class LearningSession:
             abs_basename = Path(self._root_dir, basename)
             if os.path.isfile(f"{abs_basename}.json"):
                 with open(f"{abs_basename}.json", "r") as f:
-                    obj = jsonpickle.decode(f.read())
+                    obj = jsonpickle.decode(f.read(), keys=True)
 
             elif os.path.isfile(f"{abs_basename}.csv"):
                 obj = pd.read_csv(f"{abs_basename}.csv", float_precision="round_trip")
diff --git a/dmpbbo/json_for_cpp.py b/dmpbbo/json_for_cpp.py
index dfd7dcc..a795f58 100644
--- a/dmpbbo/json_for_cpp.py
+++ b/dmpbbo/json_for_cpp.py
@@ -98,7 +98,7 @@ def savejson(filename, obj):
     @param obj: Object to save.
     """
     # Save to standard jsonpickle file
-    j = jsonpickle.encode(obj)
+    j = jsonpickle.encode(obj, keys=True)
     with atomic_write(filename) as filename_tmp:
         with open(filename_tmp, "w") as out_file:
             out_file.write(j)
@@ -113,5 +113,5 @@ def loadjson(filename):
     # Load from standard jsonpickle file
     with open(filename, "r") as in_file:
         j = in_file.read()
-    obj = jsonpickle.decode(j)
+    obj = jsonpickle.decode(j, keys=True)
     return obj
-- 
2.43.0


From 67175b8f3a1229aa9c97efcbd5398597359e0f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:46 +0000
Subject: [PATCH 43/61] fix: the goal stayed selected when other parameters
 were selected

After selecting ['goal', 'weights'] and then ['weights'], the parameter
vector still contained the goal.
---
 dmpbbo/dmps/Dmp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dmpbbo/dmps/Dmp.py b/dmpbbo/dmps/Dmp.py
index 2455464..c13848c 100644
--- a/dmpbbo/dmps/Dmp.py
+++ b/dmpbbo/dmps/Dmp.py
@@ -650,6 +650,7 @@ class Dmp(DynamicalSystem, Parameterizable):
         if isinstance(names, str):
             names = [names]  # Convert to list
 
+        self._selected_param_names = []
         if "goal" in names:
             self._selected_param_names = ["goal"]
             # No need to bother function approximators with it: remove all occurrences
-- 
2.43.0


From 54a72531b1b77590d15834ca58e70e7028e486ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:39:46 +0000
Subject: [PATCH 44/61] fix: plotting a contextual DMP changed its start and
 goal

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index f68bbd0..fc7d49a 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -241,15 +241,15 @@ class DmpContextualTwoStep(DynamicalSystem):
 
         hs = []
         cmap = cm.copper  # noqa
-        prev_tau = self.dmp.tau
+        contextual = copy.deepcopy(self)  # Plotting should not change tau, start and goal of self
         for task_param, traj_demo in task_params_and_trajs:
 
-            self.dmp.tau = traj_demo.duration
-            self.dmp.y_init = traj_demo.y_init
-            self.dmp.y_attr = traj_demo.y_final
-            self.set_task_params(np.array([task_param]))
+            contextual.dmp.tau = traj_demo.duration
+            contextual.dmp.y_init = traj_demo.y_init
+            contextual.dmp.y_attr = traj_demo.y_final
+            contextual.set_task_params(np.array([task_param]))
 
-            h, _ = self.dmp.plot(ts, axs=axs, plot_no_forcing_term_also=True)
+            h, _ = contextual.dmp.plot(ts, axs=axs, plot_no_forcing_term_also=True)
 
             tp = np.atleast_1d(task_param)
             scaled = (tp[0] - tp_min[0]) / (tp_max[0] - tp_min[0])
@@ -259,8 +259,6 @@ class DmpContextualTwoStep(DynamicalSystem):
             hs.extend(h)
 
             for ax in axs:
-                ax.axvline(self.dmp.tau, color=color, linewidth=1)
-
-        self.dmp.tau = prev_tau
+                ax.axvline(contextual.dmp.tau, color=color, linewidth=1)
 
         return hs, axs
-- 
2.43.0


From a8d08a3129cdc19381b6371198c66565084f398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:04:42 +0000
Subject: [PATCH 45/61] fix: spring-damper systems refused spring constants per
 dimension

---
 dmpbbo/dynamicalsystems/SpringDamperSystem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dynamicalsystems/SpringDamperSystem.py b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
index 5e520ac..4ca7484 100644
--- a/dmpbbo/dynamicalsystems/SpringDamperSystem.py
+++ b/dmpbbo/dynamicalsystems/SpringDamperSystem.py
@@ -48,7 +48,7 @@ class SpringDamperSystem(DynamicalSystem):
         self._y_attr = y_attr
         self.damping_coefficient = damping_coefficient
         self.mass = mass
-        if spring_constant == "CRITICALLY_DAMPED":
+        if isinstance(spring_constant, str) and spring_constant == "CRITICALLY_DAMPED":
             self.spring_constant = damping_coefficient * damping_coefficient / (4 * mass)
         else:
             self.spring_constant = spring_constant
-- 
2.43.0


From d8480c6f24b1a0d8865f21d55fcf21d1b135fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:31 +0000
Subject: [PATCH 46/61] fix: C++ gave all subsystems of a DMP the same time
 constant

---
 src/dmp/Dmp.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index cd290fe..546e056 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -515,13 +515,14 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
 void Dmp::set_tau(double tau)
 {
+  double scale = tau / DynamicalSystem::tau();
   DynamicalSystem::set_tau(tau);
 
-  // Set value in all relevant subsystems also
-  spring_system_->set_tau(tau);
-  if (goal_system_ != NULL) goal_system_->set_tau(tau);
-  phase_system_->set_tau(tau);
-  gating_system_->set_tau(tau);
+  // Scale value in all relevant subsystems also (they may have another tau)
+  spring_system_->set_tau(scale * spring_system_->tau());
+  if (goal_system_ != NULL) goal_system_->set_tau(scale * goal_system_->tau());
+  phase_system_->set_tau(scale * phase_system_->tau());
+  gating_system_->set_tau(scale * gating_system_->tau());
 }
 
 void Dmp::set_y_init(const Eigen::VectorXd& y_init)
-- 
2.43.0


From ef74ac71a8af5ede6b16d76813eb89698e2bca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:31 +0000
Subject: [PATCH 47/61] fix: C++ ignored the spring constant and mass of a DMP

---
 src/dmp/Dmp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 546e056..53a8fad 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -471,7 +471,9 @@ void Dmp::analyticalSolution(const Eigen::VectorXd& ts, Eigen::MatrixXd& xs,
 
   // Reset the dynamical system, and get the first state
   double damping = spring_system_->damping_coefficient();
-  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping);
+  SpringDamperSystem localspring_system_(tau(), y_init(), y_attr_, damping,
+                                         spring_system_->spring_constant(),
+                                         spring_system_->mass());
 
   // Set first attractor state
   localspring_system_.set_y_attr(xs_goal.row(0));
@@ -583,6 +585,9 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   obj = new Dmp(tau, y_init, y_attr, function_approximators,
                 alpha_spring_damper, goal_system, phase_system, gating_system,
                 forcing_term_scaling, scaling_amplitudes);
+  obj->spring_system_->set_spring_constant(
+      j.at("_spring_system").at("spring_constant"));
+  obj->spring_system_->set_mass(j.at("_spring_system").at("mass"));
 }
 
 void Dmp::to_json_helper(nlohmann::json& j) const
@@ -591,6 +596,8 @@ void Dmp::to_json_helper(nlohmann::json& j) const
 
   j["_spring_system"]["damping_coefficient"] =
       spring_system_->damping_coefficient();
+  j["_spring_system"]["spring_constant"] = spring_system_->spring_constant();
+  j["_spring_system"]["mass"] = spring_system_->mass();
   j["_goal_system"] = goal_system_;
   j["_phase_system"] = phase_system_;
   j["_gating_system"] = gating_system_;
-- 
2.43.0


From 32c7d1f1bdb6342cd69764cdd1df37935390ef38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:49:54 +0000
Subject: [PATCH 48/61] fix: C++ minimum-jerk trajectories which do not start
 at time 0 jumped at the start

---
 src/dmp/Trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index be4b8cb..821b6a6 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -149,8 +149,8 @@ Trajectory Trajectory::generateMinJerkTrajectory(const VectorXd& ts,
   MatrixXd ys(n_time_steps, n_dims), yds(n_time_steps, n_dims),
       ydds(n_time_steps, n_dims);
 
-  double D = ts[n_time_steps - 1];
-  ArrayXd tss = (ts / D).array();
+  double D = ts[n_time_steps - 1] - ts[0];
+  ArrayXd tss = (ts.array() - ts[0]) / D;
 
   ArrayXd A = y_to.array() - y_from.array();
 
-- 
2.43.0


From ccecaf6f953e1ace9dc5413f04d2353c3f60996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:49:54 +0000
Subject: [PATCH 49/61] fix: C++ polynomial trajectories with an initial
 acceleration missed their final state

---
 src/dmp/Trajectory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index 821b6a6..ddd12a0 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -180,10 +180,10 @@ Trajectory Trajectory::generatePolynomialTrajectory(
   VectorXd a1 = yd_from;
   VectorXd a2 = ydd_from / 2;
 
-  VectorXd a3 = -10 * y_from - 6 * yd_from - 2.5 * ydd_from + 10 * y_to -
+  VectorXd a3 = -10 * y_from - 6 * yd_from - 1.5 * ydd_from + 10 * y_to -
                 4 * yd_to + 0.5 * ydd_to;
   VectorXd a4 =
-      15 * y_from + 8 * yd_from + 2 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
+      15 * y_from + 8 * yd_from + 1.5 * ydd_from - 15 * y_to + 7 * yd_to - ydd_to;
   VectorXd a5 = -6 * y_from - 3 * yd_from - 0.5 * ydd_from + 6 * y_to -
                 3 * yd_to + 0.5 * ydd_to;
 
-- 
2.43.0


From b007e991c3bd670eed828317438e68a5099abeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:50:43 +0000
Subject: [PATCH 50/61] fix: C++ loadMatrix hung, crashed or misread files
 which do not contain a matrix

---
 src/eigenutils/eigen_file_io.tpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 5ecc4ab..4c77094 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -48,17 +48,34 @@ inline bool loadMatrix(
 
   std::vector<Scalar> v;
   int n_rows = 0;
-  while (getline(input, line)) {
-    ++n_rows;
+  int n_cols = 0;
+  bool valid = true;
+  while (valid && getline(input, line)) {
     std::stringstream input_line(line);
-    while (!input_line.eof()) {
-      input_line >> d;
-      v.push_back(d);
+    int n_cols_line = 0;
+    while (valid && !(input_line >> std::ws).eof()) {
+      if (input_line >> d) {
+        v.push_back(d);
+        ++n_cols_line;
+      } else {
+        valid = false;  // Not a number
+      }
     }
+    if (n_cols_line == 0) continue;  // Empty line
+
+    if (n_rows == 0) n_cols = n_cols_line;
+    if (n_cols_line != n_cols) valid = false;
+    ++n_rows;
   }
+  if (input.bad() || n_rows == 0) valid = false;
   input.close();
 
-  int n_cols = v.size() / n_rows;
+  if (!valid) {
+    std::cerr << "ERROR. File '" << filename << "' does not contain a matrix."
+              << std::endl;
+    return false;
+  }
+
   m = Eigen::Matrix<Scalar, RowsAtCompileTime, ColsAtCompileTime>(n_rows,
                                                                   n_cols);
 
-- 
2.43.0


From 7f01f87d68e14f11ebaea7be3cc85b4457676a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:50:43 +0000
Subject: [PATCH 51/61] fix: C++ saveMatrix reported success when the matrix
 had not been saved

---
 src/eigenutils/eigen_file_io.tpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index 4c77094..a523ca0 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -110,9 +110,7 @@ inline bool saveMatrix(
   }
 
   filename = directory + "/" + filename;
-  saveMatrix(filename, matrix, overwrite);
-
-  return true;
+  return saveMatrix(filename, matrix, overwrite);
 }
 
 /** Save an Eigen matrix to an ASCII file.
@@ -147,6 +145,11 @@ inline bool saveMatrix(
   file << std::fixed;
   file << matrix;
   file.close();
+  if (file.fail()) {
+    std::cerr << "Couldn't write matrix to file '" << filename << "'."
+              << std::endl;
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 9a3fefe8f96ad4692f17c707076dea0a76084970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:50:43 +0000
Subject: [PATCH 52/61] fix: C++ DMPs constructed from a type had a state that
 was too small, and gating at the wrong time

---
 src/dmp/Dmp.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index 53a8fad..d799356 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -104,7 +104,7 @@ Dmp::Dmp(int n_dims_dmp,
          double alpha_spring_damper, ExponentialSystem* goal_system,
          DynamicalSystem* phase_system, DynamicalSystem* gating_system,
          std::string scaling, Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       goal_system_(goal_system),
       phase_system_(phase_system),
@@ -120,7 +120,7 @@ Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -133,7 +133,7 @@ Dmp::Dmp(int n_dims_dmp,
          std::vector<FunctionApproximator*> function_approximators,
          std::string dmp_type, std::string scaling,
          Eigen::VectorXd scaling_amplitudes)
-    : DynamicalSystem(1, 1.0, VectorXd::Zero(n_dims_dmp)),
+    : DynamicalSystem(1.0, VectorXd::Zero(n_dims_dmp), 3 * n_dims_dmp + 2),
       y_attr_(VectorXd::Ones(n_dims_dmp)),
       forcing_term_scaling_(scaling),
       scaling_amplitudes_(scaling_amplitudes)
@@ -144,7 +144,7 @@ Dmp::Dmp(int n_dims_dmp,
 
 Dmp::Dmp(double tau, Eigen::VectorXd y_init, Eigen::VectorXd y_attr,
          double alpha_spring_damper, ExponentialSystem* goal_system)
-    : DynamicalSystem(1, tau, y_init),
+    : DynamicalSystem(tau, y_init, 3 * y_init.size() + 2),
       y_attr_(y_attr),
       forcing_term_scaling_("NO_SCALING"),
       scaling_amplitudes_(VectorXd::Zero(0))
@@ -175,7 +175,7 @@ void Dmp::initSubSystems(std::string dmp_type)
   } else if (dmp_type == "KULVICIUS_2012_JOINING" ||
              dmp_type == "COUNTDOWN_2013") {
     goal_system = new ExponentialSystem(tau(), y_init(), y_attr_, 15);
-    gating_system = new SigmoidSystem(tau(), one_1, -10, 0.9 * tau());
+    gating_system = new SigmoidSystem(tau(), one_1, -10 / tau(), 0.9);
     bool count_down = (dmp_type == "COUNTDOWN_2013");
     phase_system = new TimeSystem(tau(), count_down);
   }
-- 
2.43.0


From c2d5edc8a845c1fc050546c26542a311a1684f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:55:31 +0000
Subject: [PATCH 53/61] fix: C++ viapoint trajectories could abort, because
 joining them required too much accuracy

---
 src/dmp/Trajectory.cpp | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/dmp/Trajectory.cpp b/src/dmp/Trajectory.cpp
index ddd12a0..c37276a 100644
--- a/src/dmp/Trajectory.cpp
+++ b/src/dmp/Trajectory.cpp
@@ -82,27 +82,25 @@ void Trajectory::set_misc(const Eigen::MatrixXd& misc)
   }
 }
 
+/** Does the second matrix start as the first one ends, up to numerical accuracy?
+ * The accuracy is relative to all values, because the last ones may be close to
+ * zero. */
+static inline bool isContinuous(const Eigen::MatrixXd& first,
+                                const Eigen::MatrixXd& second)
+{
+  double accuracy = 1e-8 * (1.0 + first.norm() + second.norm());
+  return (first.row(first.rows() - 1) - second.row(0)).norm() <= accuracy;
+}
+
 void Trajectory::append(const Trajectory& trajectory)
 {
   assert(dim() == trajectory.dim());
 
   assert(ts_[length() - 1] == trajectory.ts()[0]);
 
-  if (ys_.row(length() - 1).isZero() || trajectory.ys().row(0).isZero())
-    assert(ys_.row(length() - 1).isZero() && trajectory.ys().row(0).isZero());
-  else
-    assert(ys_.row(length() - 1).isApprox(trajectory.ys().row(0)));
-
-  if (yds_.row(length() - 1).isZero() || trajectory.yds().row(0).isZero())
-    assert(yds_.row(length() - 1).isZero() && trajectory.yds().row(0).isZero());
-  else
-    assert(yds_.row(length() - 1).isApprox(trajectory.yds().row(0)));
-
-  if (ydds_.row(length() - 1).isZero() || trajectory.ydds().row(0).isZero())
-    assert(ydds_.row(length() - 1).isZero() &&
-           trajectory.ydds().row(0).isZero());
-  else
-    assert(ydds_.row(length() - 1).isApprox(trajectory.ydds().row(0)));
+  assert(isContinuous(ys_, trajectory.ys()));
+  assert(isContinuous(yds_, trajectory.yds()));
+  assert(isContinuous(ydds_, trajectory.ydds()));
 
   int new_size = length() + trajectory.length() - 1;
 
-- 
2.43.0


From 6d1412cf8357295a0805724cb7ad2a65abc79844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:08:13 +0000
Subject: [PATCH 54/61] fix: parameter vectors contained a zero for each
 function approximator without selected parameters

---
 dmpbbo/functionapproximators/FunctionApproximator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dmpbbo/functionapproximators/FunctionApproximator.py b/dmpbbo/functionapproximators/FunctionApproximator.py
index ec46138..60afe76 100644
--- a/dmpbbo/functionapproximators/FunctionApproximator.py
+++ b/dmpbbo/functionapproximators/FunctionApproximator.py
@@ -116,7 +116,7 @@ class FunctionApproximator(Parameterizable):
 
     def get_param_vector(self):
         if self._selected_param_names is None:
-            return np.array(0)
+            return np.empty(0)
 
         """Get a vector containing the values of the selected parameters."""
         if not self.is_trained():
@@ -142,7 +142,7 @@ class FunctionApproximator(Parameterizable):
         values = np.array(values)
 
         offset = 0
-        for label in self._selected_param_names:
+        for label in self._selected_param_names or []:
             expected_shape = self._model_params[label].shape
             cur_n_values = np.prod(expected_shape)
             cur_values = values[offset : offset + cur_n_values]
-- 
2.43.0


From 48329e71725f93564d813c4541c247855e6bfbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:08:41 +0000
Subject: [PATCH 55/61] fix: the cost ratio of a session failed if costs are
 numbers

---
 dmpbbo/bbo/LearningSession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/LearningSession.py b/dmpbbo/bbo/LearningSession.py
index 029868b..1524f62 100644
--- a/dmpbbo/bbo/LearningSession.py
+++ b/dmpbbo/bbo/LearningSession.py
@@ -461,7 +461,7 @@ class LearningSession:
     def get_cost_ratio(self):
         before, after = self.get_eval_cost_before_after()
         # Only use total cost, not the cost components
-        return after[0] / before[0]
+        return np.atleast_1d(after)[0] / np.atleast_1d(before)[0]
 
     def get_eval_costs(self, i_update):
         """ Get the evaluation cost for a given update.
-- 
2.43.0


From 5216436c8106faa4ebf0594251a78fa47ac8e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 56/61] fix: viapoint trajectories had other times than those
 requested, if these are not equidistant

---
 dmpbbo/dmps/Trajectory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dmpbbo/dmps/Trajectory.py b/dmpbbo/dmps/Trajectory.py
index 6c00c21..46838d8 100644
--- a/dmpbbo/dmps/Trajectory.py
+++ b/dmpbbo/dmps/Trajectory.py
@@ -396,6 +396,9 @@ class Trajectory:
         )
 
         traj1.append(traj2)
+        # Appending assumes equidistant time steps; the times should be those that were requested.
+        traj1._ts = ts
+        traj1._update_dt_mean()
 
         return traj1
 
-- 
2.43.0


From ed666b43825cd3cc15ab84adfdc48b3d3322eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 57/61] fix: the largest eigenvalue of a covariance matrix
 could be a complex number

---
 dmpbbo/bbo/DistributionGaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dmpbbo/bbo/DistributionGaussian.py b/dmpbbo/bbo/DistributionGaussian.py
index 63fc0e1..5545e25 100644
--- a/dmpbbo/bbo/DistributionGaussian.py
+++ b/dmpbbo/bbo/DistributionGaussian.py
@@ -96,7 +96,8 @@ class DistributionGaussian:
 
         @return: largest eigenvalue of the covariance matrix of this distribution.
         """
-        return max(np.linalg.eigvals(self.covar))
+        # Covariance matrices are symmetric. Solvers for matrices that are not can return complex numbers.
+        return np.max(np.linalg.eigvalsh(self.covar))
 
     def __str__(self):
         """ Get a string representation of an object of this class.
-- 
2.43.0


From c5ca483a0e844dc5f73a5ee0ecfa046026653387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 58/61] fix: DMPs with integer times could not be saved for C++

---
 dmpbbo/json_for_cpp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/json_for_cpp.py b/dmpbbo/json_for_cpp.py
index a795f58..7a555e2 100644
--- a/dmpbbo/json_for_cpp.py
+++ b/dmpbbo/json_for_cpp.py
@@ -45,7 +45,7 @@ class DmpBboJSONEncoder(JSONEncoder):
         @param obj:  Object to encode
         @return: JSON representation
         """
-        if isinstance(obj, np.ndarray):
+        if isinstance(obj, (np.ndarray, np.generic)):
             return obj.tolist()
         elif hasattr(obj, "__dict__"):
             # Add class to the json output. Necessary for reading it in C++
-- 
2.43.0


From 641dc407acb60dd43e79fa12bb8625ce161235ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 59/61] fix: C++ could not load DMPs of which some function
 approximators have not been trained

---
 src/dmp/Dmp.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dmp/Dmp.cpp b/src/dmp/Dmp.cpp
index d799356..3e2cb8f 100644
--- a/src/dmp/Dmp.cpp
+++ b/src/dmp/Dmp.cpp
@@ -577,7 +577,11 @@ void from_json(const nlohmann::json& j, Dmp*& obj)
   const auto& jrow = j.at("_function_approximators");
   if (jrow.is_array()) {
     for (int i_dim = 0; i_dim < n_dims; i_dim++) {
-      FunctionApproximator* fa = jrow.at(i_dim).get<FunctionApproximator*>();
+      const auto& jfa = jrow.at(i_dim);
+      FunctionApproximator* fa = NULL;
+      // Function approximators that have not been trained do not contribute
+      if (!jfa.contains("_dim_input") || !jfa.at("_dim_input").is_null())
+        fa = jfa.get<FunctionApproximator*>();
       function_approximators.push_back(fa);
     }
   }
-- 
2.43.0


From 06dba558306b968ee183662ac780e5870fad27ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:41 +0000
Subject: [PATCH 60/61] fix: the dimensionality of a contextual DMP was a
 method rather than a number

---
 dmpbbo/dmps/DmpContextualTwoStep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dmpbbo/dmps/DmpContextualTwoStep.py b/dmpbbo/dmps/DmpContextualTwoStep.py
index fc7d49a..2759e7e 100644
--- a/dmpbbo/dmps/DmpContextualTwoStep.py
+++ b/dmpbbo/dmps/DmpContextualTwoStep.py
@@ -166,7 +166,7 @@ class DmpContextualTwoStep(DynamicalSystem):
         return dmp_contextual
 
     def dim_dmp(self):
-        return self.dmp.dim_dmp
+        return self.dmp.dim_dmp()
 
     def set_task_params(self, task_params):
         dmp_params = self.dmp.get_param_vector()  # Get vector of right size; Values do not matter.
-- 
2.43.0


From eac56d6175bdd31dda2ad189aab12c924e58ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:52 +0000
Subject: [PATCH 61/61] fix: C++ read words that are not numbers as several
 numbers

---
 src/eigenutils/eigen_file_io.hpp | 1 +
 src/eigenutils/eigen_file_io.tpp | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/eigenutils/eigen_file_io.hpp b/src/eigenutils/eigen_file_io.hpp
index 27d8c7e..ec1b032 100644
--- a/src/eigenutils/eigen_file_io.hpp
+++ b/src/eigenutils/eigen_file_io.hpp
@@ -27,6 +27,7 @@
 #define _EIGEN_FILE_IO_HPP_
 
 #include <boost/filesystem.hpp>
+#include <cctype>
 #include <eigen3/Eigen/Core>
 #include <fstream>
 #include <iostream>
diff --git a/src/eigenutils/eigen_file_io.tpp b/src/eigenutils/eigen_file_io.tpp
index a523ca0..1caf84b 100644
--- a/src/eigenutils/eigen_file_io.tpp
+++ b/src/eigenutils/eigen_file_io.tpp
@@ -57,6 +57,9 @@ inline bool loadMatrix(
       if (input_line >> d) {
         v.push_back(d);
         ++n_cols_line;
+        // Numbers are separated by spaces, e.g. "1.2.3" is not two numbers
+        if (!input_line.eof() && !std::isspace(input_line.peek()))
+          valid = false;
       } else {
         valid = false;  // Not a number
       }
-- 
2.43.0


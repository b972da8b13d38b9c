From 3baddba970fe0aedaab989058bd3f843080cdbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 01/41] fix: hypervolume of fronts with ties and points level
 with the reference

Ties were broken differently per dimension and points with a coordinate equal
to the reference were kept, so sets with four or more objectives could get a
wrong volume.
---
 algorithms/base/hv.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/algorithms/base/hv.py b/algorithms/base/hv.py
index 26f2526..dcae0aa 100644
--- a/algorithms/base/hv.py
+++ b/algorithms/base/hv.py
@@ -42,9 +42,9 @@ class HyperVolume:
 
         """
 
-        def weaklyDominates(point, other):
+        def strictlyDominates(point, other):
             for i in range(len(point)):
-                if point[i] > other[i]:
+                if point[i] >= other[i]:
                     return False
             return True
 
@@ -52,8 +52,9 @@ class HyperVolume:
         referencePoint = self.referencePoint
         dimensions = len(referencePoint)
         for point in front:
-            # only consider points that dominate the reference point
-            if weaklyDominates(point, referencePoint):
+            # only consider points that are better than the reference point
+            # everywhere: the others contribute no volume
+            if strictlyDominates(point, referencePoint):
                 relevantPoints.append(point)
         if any(referencePoint):
             # shift points so that referencePoint == [0, ..., 0]
@@ -158,7 +159,10 @@ class HyperVolume:
         """Sets up the list data structure needed for calculation."""
         dimensions = len(self.referencePoint)
         nodeList = MultiList(dimensions)
-        nodes = [MultiList.Node(dimensions, point) for point in front]
+        # ties have to be broken the same way in every dimension
+        nodes = [
+            MultiList.Node(dimensions, point) for point in sorted(front, key=list)
+        ]
         for i in range(dimensions):
             self.sortByDimension(nodes, i)
             nodeList.extend(nodes, i)
-- 
2.43.0


From 83f78e72292e6c5405d01cc8c284213f829e0cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 02/41] fix: OMOPSO never applied its mutations

map() is lazy, so neither the uniform nor the non-uniform mutation ran.
---
 algorithms/OMOPSO/OMOPSO.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index bcdbdba..25d0ead 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -162,7 +162,8 @@ class OMOPSO(Driver):
         uniform_mutation = UniformMutation(
             self.mutation_probability, self.mutation_perturbation, self.dims
         )
-        map(uniform_mutation, self.individuals[0:pop_part])
+        for p in self.individuals[0:pop_part]:
+            uniform_mutation(p)
 
         if evolution_progress:
             non_uniform_mutation = NonUniformMutation(
@@ -171,7 +172,8 @@ class OMOPSO(Driver):
                 self.mutation_perturbation,
                 self.dims,
             )
-            map(non_uniform_mutation, self.individuals[pop_part : 2 * pop_part])
+            for p in self.individuals[pop_part : 2 * pop_part]:
+                non_uniform_mutation(p)
 
 
 class Mutation(object):
-- 
2.43.0


From 985e3f50b95e096da71a2c16078b360808bdecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 03/41] fix: charge one evaluation per evaluated individual in
 SPEA2, SMSEMOA and OMOPSO

SMSEMOA charged the whole population for every single offspring, and an
archived individual reset the cost of the ones evaluated before it.
---
 algorithms/OMOPSO/OMOPSO.py   | 3 +--
 algorithms/SMSEMOA/SMSEMOA.py | 3 +--
 algorithms/SPEA2/SPEA2.py     | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 25d0ead..98d6a08 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -117,10 +117,9 @@ class OMOPSO(Driver):
         for p in self.individuals:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.individuals)
+                objectives_cost += 1
         return objectives_cost
 
     def move(self):
diff --git a/algorithms/SMSEMOA/SMSEMOA.py b/algorithms/SMSEMOA/SMSEMOA.py
index 4e09ec3..b91a479 100644
--- a/algorithms/SMSEMOA/SMSEMOA.py
+++ b/algorithms/SMSEMOA/SMSEMOA.py
@@ -66,10 +66,9 @@ class SMSEMOA(Driver):
         for p in pop:
             if (self.fitness_archive is not None) and (p.value in self.fitness_archive):
                 p.objectives = self.fitness_archive[p.value]
-                objectives_cost = 0
             else:
                 p.objectives = [o(p.value) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def generate(self, pop):
diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index 5cb88c3..f90c7e5 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -117,10 +117,9 @@ class SPEA2(Driver):
                 p["value"] in self.fitness_archive
             ):
                 p["objectives"] = self.fitness_archive[p["value"]]
-                objectives_cost = 0
             else:
                 p["objectives"] = [o(p["value"]) for o in self.fitnesses]
-                objectives_cost = len(self.population)
+                objectives_cost += 1
         return objectives_cost
 
     def calculate_dominated(self, pop):
-- 
2.43.0


From 6e182f8bddd0f1a2866fdad38bee45f3e04e2fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/41] fix: IBEA charged surviving individuals again in every
 step

---
 algorithms/IBEA/IBEA.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index ff27292..3148781 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -43,12 +43,11 @@ class IBEA(Driver):
         self.k = kappa
         self.mating_size_c = mating_population_size
         self.trim_function = trim_function
+        self.fitness_archive = fitness_archive
         self.population = [self.trim_function(x) for x in population]
 
         self._scale_objectives()
 
-        self.fitness_archive = fitness_archive
-
     def finalized_population(self):
         return self.finish()
 
@@ -76,7 +75,7 @@ class IBEA(Driver):
     def _scale_objectives(self):
         min_max = lambda x: (min(x), max(x))
         for ind in self.individuals:
-            if not ind.known_objectives or not (
+            if not ind.known_objectives and not (
                 (self.fitness_archive is not None) and (ind.v in self.fitness_archive)
             ):
                 self.cost += 1
-- 
2.43.0


From 87d9f28b3280852ee9cd002c428eb7643d4dadd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 05/41] fix: HGS precision trimming moved points out of domains
 that do not contain zero

---
 algorithms/HGS/classic/ClassicHGS.py | 15 ++++++++++++---
 algorithms/HGS/distributed/actors.py |  4 +++-
 algorithms/HGS/tools.py              | 13 +++++++++++--
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 7541a7d..3b3c1e0 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -241,7 +241,7 @@ class ClassicHGS(ComplexDriver):
                 crossover_rate=owner.crossover_rates[self.level],
                 fitness_archive=self.owner.global_fitness_archive[self.level],
                 trim_function=lambda x: trim_vector(
-                    x, self.owner.mantissa_bits[self.level]
+                    x, self.owner.mantissa_bits[self.level], self.owner.dims
                 ),
                 message_adapter_factory=owner.driver_message_adapter_factory,
             )
@@ -364,8 +364,17 @@ def redundant(pop_a, pop_b, min_dist):
     return dist < min_dist
 
 
-def trim_vector(vector, bits_no):
-    return [trim_mantissa(x, bits_no) for x in vector]
+def trim_vector(vector, bits_no, dims):
+    return [trim_in_domain(x, bits_no, dim) for x, dim in zip(vector, dims)]
+
+
+def trim_in_domain(value, bits_no, dim):
+    lb, ub = dim
+    trimmed = trim_mantissa(value, bits_no)
+    if lb <= value <= ub:
+        # trimming moves towards zero, possibly across the bound
+        return min(max(trimmed, float(lb)), float(ub))
+    return trimmed
 
 
 def trim_mantissa(value, bits_no):
diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index 0e4168a..fb93cd9 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -253,7 +253,9 @@ class Node(TaskActor):
             crossover_rate=config.hgs_config.crossover_rates[self.level],
             # fitness_archive=config.global_fitness_archive,
             trim_function=lambda x: tools.trim_vector(
-                x, config.hgs_config.mantissa_bits[self.level]
+                x,
+                config.hgs_config.mantissa_bits[self.level],
+                config.hgs_config.dims,
             ),
             message_adapter_factory=config.hgs_config.driver_message_adapter_factory,
         )
diff --git a/algorithms/HGS/tools.py b/algorithms/HGS/tools.py
index 09be1de..7c3501b 100644
--- a/algorithms/HGS/tools.py
+++ b/algorithms/HGS/tools.py
@@ -23,8 +23,17 @@ def redundant(pop_a, pop_b, min_dist):
     return dist < min_dist
 
 
-def trim_vector(vector, bits_no):
-    return [trim_mantissa(x, bits_no) for x in vector]
+def trim_vector(vector, bits_no, dims):
+    return [trim_in_domain(x, bits_no, dim) for x, dim in zip(vector, dims)]
+
+
+def trim_in_domain(value, bits_no, dim):
+    lb, ub = dim
+    trimmed = trim_mantissa(value, bits_no)
+    if lb <= value <= ub:
+        # trimming moves towards zero, possibly across the bound
+        return min(max(trimmed, float(lb)), float(ub))
+    return trimmed
 
 
 def trim_mantissa(value, bits_no):
-- 
2.43.0


From df2e19749de6746918d281eed5bfe2f89cfc39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:04 +0000
Subject: [PATCH 06/41] fix: rounding in JGBL gene jumping could leave the
 domain

---
 algorithms/JGBL/JGBL.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/algorithms/JGBL/JGBL.py b/algorithms/JGBL/JGBL.py
index 415c8c2..31cd6d5 100644
--- a/algorithms/JGBL/JGBL.py
+++ b/algorithms/JGBL/JGBL.py
@@ -134,8 +134,7 @@ class JGBL(NSGAII):
 
     def decode_ratio(self, ratio):
         return [
-            self.dims[i][0] + ratio[i] * (self.dims[i][1] - self.dims[i][0])
-            for i in range(len(ratio))
+            min(ub, max(lb, lb + r * (ub - lb))) for r, (lb, ub) in zip(ratio, self.dims)
         ]
 
     def prepare_transposon(self, x):
-- 
2.43.0


From 8dafb8b00cf8f85dd3cdc732fcd36b4eda51d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:16 +0000
Subject: [PATCH 07/41] fix: OMOPSO moved the points inside lists it had
 already handed out

---
 algorithms/OMOPSO/OMOPSO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 98d6a08..567ce8f 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -124,6 +124,8 @@ class OMOPSO(Driver):
 
     def move(self):
         for p in self.individuals:
+            # the current list may have been handed out (messages, migration)
+            p.value = list(p.value)
             for i in range(len(self.dims)):
                 new_x = p.value[i] + p.speed[i]
                 bounded_x = max(new_x, self.dims[i][0])
-- 
2.43.0


From 064789379a11450897fa3dd5f9ef3fcc8b06ddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 08/41] fix: OMOPSO archives skipped members while removing
 dominated ones

---
 algorithms/OMOPSO/OMOPSO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index 567ce8f..b3a1534 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -280,7 +280,7 @@ class Archive(object):
 
     def add(self, p):
 
-        for l in self.archive:
+        for l in list(self.archive):
             if l.dominates(p, self.eta):
                 return False
             elif p.dominates(l, self.eta):
-- 
2.43.0


From 3c6decb8a0fde8636220352b9b763089fb35b212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 09/41] fix: OMOPSO archive kept dominated members when
 objectives are negative

---
 algorithms/OMOPSO/OMOPSO.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index b3a1534..a82836b 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -253,9 +253,12 @@ class Individual:
     def dominates(self, p2, eta=0):
         at_least_one = False
         for i in range(len(self.objectives)):
-            if p2.objectives[i] < self.objectives[i] / (1 + eta):
+            own = self.objectives[i]
+            # eta relaxes the comparison, whatever the sign of the objective
+            own = own / (1 + eta) if own >= 0 else own * (1 + eta)
+            if p2.objectives[i] < own:
                 return False
-            elif p2.objectives[i] > self.objectives[i] / (1 + eta):
+            elif p2.objectives[i] > own:
                 at_least_one = True
 
         return at_least_one
-- 
2.43.0


From 8c39328664083f0bd439eedad9751369d898a44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 10/41] fix: IMGA result could be read only once, results were
 stored without their population

---
 algorithms/IMGA/IMGA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index 9dfb665..f03a2c3 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -60,8 +60,10 @@ class IMGA(ComplexDriver):
                 island.driver.max_budget = self.max_budget
 
     def finalized_population(self):
-        return itertools.chain(
-            *(island.driver.finalized_population() for island in self.islands)
+        return list(
+            itertools.chain(
+                *(island.driver.finalized_population() for island in self.islands)
+            )
         )
 
     def step(self):
-- 
2.43.0


From 27a06066f85f4fd49916b69be642f24d3c371a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 11/41] fix: torus topology linked islands to themselves and
 left one island isolated

---
 algorithms/IMGA/topology.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/algorithms/IMGA/topology.py b/algorithms/IMGA/topology.py
index e9d7f18..6930dbf 100644
--- a/algorithms/IMGA/topology.py
+++ b/algorithms/IMGA/topology.py
@@ -41,7 +41,7 @@ class TorusTopology(Topology):
 
                 neighbors = set()
 
-                if len(t) > self.width:
+                if len(t) >= self.width:
                     last = i - self.width
                     last_neighbors = t[last]
 
@@ -62,7 +62,5 @@ class TorusTopology(Topology):
 
                 t.append(neighbors)
 
-            if last_width == 1:
-                t[N].remove(N)
-
-        return [set(neighbors) for neighbors in t]
+        # in a row or column of one island the wrap-around leads back to itself
+        return [set(neighbors) - {i} for i, neighbors in enumerate(t)]
-- 
2.43.0


From 14ab3f335809418cf57a24d3789fccabc48dd11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:13 +0000
Subject: [PATCH 12/41] fix: HGS nodes saw the absolute value of negative
 objectives

---
 algorithms/HGS/classic/ClassicHGS.py | 5 +----
 algorithms/HGS/tools.py              | 4 +---
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index 3b3c1e0..cd400d7 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -1,5 +1,4 @@
 import collections
-import math
 import random
 import time
 
@@ -213,9 +212,7 @@ class ClassicHGS(ComplexDriver):
         def blurred(f):
             def blurred_f(*args, **kwargs):
                 f_val = f(*args, **kwargs)
-                x = math.fabs(
-                    random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
-                )
+                x = random.gauss(f_val, self.fitness_errors[level] * f_val / 3.0)
 
                 # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
                 return x
diff --git a/algorithms/HGS/tools.py b/algorithms/HGS/tools.py
index 7c3501b..de61745 100644
--- a/algorithms/HGS/tools.py
+++ b/algorithms/HGS/tools.py
@@ -46,9 +46,7 @@ def blurred_fitnesses(level, fitnesses, fitness_errors):
     def blurred(f):
         def blurred_f(*args, **kwargs):
             f_val = f(*args, **kwargs)
-            x = np.math.fabs(
-                random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
-            )
+            x = random.gauss(f_val, fitness_errors[level] * f_val / 3.0)
 
             # print("level: {}, normal: {} blurred: {}, diff: {}".format(level, f_val, x, math.fabs(f_val - x)/f_val))
             return x
-- 
2.43.0


From d097c1d47a2076864bf22a95df14818f8cad7b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 13/41] fix: a run without --algo selected no algorithm instead
 of all

---
 simulation/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index 366dc6f..c2a896c 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -96,6 +96,8 @@ def parse_algorithms(args):
             algo for algo in run_config.algorithms if algo.lower() in algorithms_filter
         ]
         logger.debug("Selected: %s", algorithms)
+    else:
+        algorithms = run_config.algorithms
     return algorithms
 
 
-- 
2.43.0


From 1067659712fe58a8fe3a34d806f0842702f6f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:05 +0000
Subject: [PATCH 14/41] fix: one failed simulation ended the whole batch

---
 simulation/run_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index c756c82..5a0e43d 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -39,7 +39,7 @@ def run_parallel(args):
 
         def process_result(subres):
             results.append(subres)
-            log_simulation_stats(start_time, subres[-1], len(simulation_cases))
+            log_simulation_stats(start_time, len(results), len(simulation_cases))
 
         rx.from_iterable(range(len(simulation_cases))).pipe(
             ops.map(lambda i: worker_factory(simulation_cases[i], i)),
-- 
2.43.0


From aa739df10e5784f300b3897f9dfff62e542b7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 15/41] fix: a hierarchic run changed the progress thresholds
 of the shared configuration

---
 algorithms/HGS/classic/ClassicHGS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/HGS/classic/ClassicHGS.py b/algorithms/HGS/classic/ClassicHGS.py
index cd400d7..f7bd015 100644
--- a/algorithms/HGS/classic/ClassicHGS.py
+++ b/algorithms/HGS/classic/ClassicHGS.py
@@ -61,7 +61,7 @@ class ClassicHGS(ComplexDriver):
         self.max_level = max_level
         self.max_sprouts_no = max_sprouts_no
         self.sproutiveness = sproutiveness
-        self.min_progress_ratio = min_progress_ratio
+        self.min_progress_ratio = list(min_progress_ratio)
 
         self.mutation_etas = mutation_etas
         self.mutation_rates = mutation_rates
-- 
2.43.0


From fa62b12342928591a365eb3b918a0a20e56589b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:17 +0000
Subject: [PATCH 16/41] fix: a stray file beside the problem directories ended
 the reading of results

---
 simulation/serialization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simulation/serialization.py b/simulation/serialization.py
index 3d0c2df..ad66d98 100644
--- a/simulation/serialization.py
+++ b/simulation/serialization.py
@@ -111,6 +111,8 @@ def each_result(result_extractor: ResultsExtractor, results_path=RESULTS_DIR):
 
     with suppress(FileNotFoundError):
         for problem in Path(results_path).iterdir():
+            if not problem.is_dir():
+                continue
             problem_mod = ".".join(["problems", problem.name, "problem"])
             problem_mod = import_module(problem_mod)
             yield problem.name, problem_mod, f_problem(problem, problem_mod)
-- 
2.43.0


From 23daec7c03120663f1a6c6fc4e6c9650c4778394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 17/41] fix: dominance indicator compared runs numbered in
 directory order with runs numbered in name order

---
 simulation/metrics_processor.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index ea342a0..64417c3 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -191,7 +191,15 @@ def preload_results_for_problem(cache, problem_path: Path):
     logger.debug("Loading for problem : {}".format(problem_name))
     for algo_path in problem_path.iterdir():
         if algo_path.is_dir():
-            runs = [run for run in algo_path.iterdir() if run.is_dir()]
+            # the same runs in the same order as numbered by ResultsExtractor
+            runs = sorted(
+                run
+                for run in algo_path.iterdir()
+                if run.is_dir()
+                and re.fullmatch(
+                    r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}", run.name
+                )
+            )
             for run_no in range(len(runs)):
                 for result_file in runs[run_no].iterdir():
                     try:
-- 
2.43.0


From 66cd9a1924992709ca7df05ac039773c3359846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 18/41] fix: dominance indicator failed when the results
 directory's path contains the problem's name and an underscore

---
 simulation/metrics_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simulation/metrics_processor.py b/simulation/metrics_processor.py
index 64417c3..0bb34d2 100644
--- a/simulation/metrics_processor.py
+++ b/simulation/metrics_processor.py
@@ -264,9 +264,9 @@ def clear_old_pdi_metrics(problem_path: Path):
     logger = logging.getLogger(__name__)
 
     for filename in fnmatch.filter(
-        [str(p) for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
+        [p.name for p in problem_path.iterdir()], "*{}_*".format(problem_path.name)
     ):
-        os.remove(filename)
+        os.remove(str(problem_path / filename))
         logger.debug("Removing file: " + filename)
 
     for root, dirnames, filenames in os.walk(str(problem_path)):
-- 
2.43.0


From beaaa3f0755dd0ca277dbb6986757da4eb4b924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 19/41] fix: bootstrap interval of a single observation was
 -inf..-inf

---
 statistic/stats_bootstrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 5d81eaf..1c27593 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -93,7 +93,11 @@ def yield_analysis(data_process, boot_size):
         mean_nooutliers = float("inf")
 
     btstrpd = bootstrap(
-        data_process, average, boot_size, int(len(data_process) * 0.66), 0.025
+        data_process,
+        average,
+        boot_size,
+        max(1, int(len(data_process) * 0.66)),
+        0.025,
     )
 
     goodbench = "✓"
-- 
2.43.0


From fb971d45a9c7dc92ac7a0f118e5d09ae8f81b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 20/41] fix: ranking failed when an algorithm's directory holds
 no results

---
 statistic/stats_bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/statistic/stats_bootstrap.py b/statistic/stats_bootstrap.py
index 1c27593..e91a85c 100644
--- a/statistic/stats_bootstrap.py
+++ b/statistic/stats_bootstrap.py
@@ -15,6 +15,8 @@ def validate_cost(result, boot_size, delta=500):
 
 
 def find_acceptable_result_for_budget(results, boot_size):
+    if not results:
+        return None
     delta = 500
     prev_budget = results[-1]["budget"]
     for result in reversed(results):
-- 
2.43.0


From 150e82280fb998559dc5c263cc4884dff0f6daa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 21/41] fix: stats ignored --dir

---
 statistic/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index 62a450c..cace502 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -83,7 +83,7 @@ def statistics(args):
 
     with close_and_join(multiprocessing.Pool(min(int(args["-j"]), 8))) as p:
         for problem_name, problem_mod, algorithms in serialization.each_result(
-            BudgetResultsExtractor()
+            BudgetResultsExtractor(), args["--dir"]
         ):
             for algo_name, budgets in algorithms:
                 header_just_printed = print_header()
-- 
2.43.0


From a72ac4df7c688bdc2553a7106a641a2d6cfe309a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 22/41] fix: UF8, UF9 and UF10 grouped the variables by the
 complement of the published index sets

---
 problems/UF10/problem.py | 6 +++---
 problems/UF8/problem.py  | 6 +++---
 problems/UF9/problem.py  | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 3c3e39a..19352d9 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -17,9 +17,9 @@ pareto_front = [
 
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
+J2 = [j for j in range(3, n + 1) if not (j - 2) % 3]
+J3 = [j for j in range(3, n + 1) if not j % 3]
 
 
 def yj(x, j):
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index 830f97b..bda49f6 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
 ]
 pareto_set = []
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
+J2 = [j for j in range(3, n + 1) if not (j - 2) % 3]
+J3 = [j for j in range(3, n + 1) if not j % 3]
 
 
 def base_fit(x, J):
diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 044dbf0..1c63821 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -15,9 +15,9 @@ pareto_front = [
     if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
 ]
 
-J1 = [j for j in range(3, n + 1) if (j - 1) % 3]
-J2 = [j for j in range(3, n + 1) if (j - 2) % 3]
-J3 = [j for j in range(3, n + 1) if j % 3]
+J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
+J2 = [j for j in range(3, n + 1) if not (j - 2) % 3]
+J3 = [j for j in range(3, n + 1) if not j % 3]
 
 
 def base_fit(x, J):
-- 
2.43.0


From 203faafb4933d7f9d98f3545d34ec8f258c647c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 23/41] fix: reference fronts of UF8 and UF10 did not lie on
 the unit sphere

---
 problems/UF10/problem.py | 2 +-
 problems/UF8/problem.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/problems/UF10/problem.py b/problems/UF10/problem.py
index 19352d9..8edfe2d 100644
--- a/problems/UF10/problem.py
+++ b/problems/UF10/problem.py
@@ -10,7 +10,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(1 - x ** 2 - y ** 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
diff --git a/problems/UF8/problem.py b/problems/UF8/problem.py
index bda49f6..b31d1c8 100644
--- a/problems/UF8/problem.py
+++ b/problems/UF8/problem.py
@@ -9,7 +9,7 @@ x_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 y_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 
 pareto_front = [
-    [x, y, math.pow(-x ** 2 - y ** 2 + 1, 1 / 3)]
+    [x, y, math.sqrt(1 - x ** 2 - y ** 2)]
     for x, y in itertools.product(x_points, y_points)
     if x ** 2 + y ** 2 <= 1
 ]
-- 
2.43.0


From 6f53f2ba64f991edf705691a1a3cb6bf795925d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 24/41] fix: reference front of UF9 held points with negative
 objectives

---
 problems/UF9/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/problems/UF9/problem.py b/problems/UF9/problem.py
index 1c63821..ae5c641 100644
--- a/problems/UF9/problem.py
+++ b/problems/UF9/problem.py
@@ -12,7 +12,7 @@ z_points = [i / (xy_series_no - 1) for i in range(xy_series_no)]
 pareto_front = [
     [x, 1 - x - z, z]
     for x, z in itertools.product(x_points, z_points)
-    if x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z)
+    if x + z <= 1 and (x <= 0.25 * (1 - z) or x >= 0.75 * (1 - z))
 ]
 
 J1 = [j for j in range(3, n + 1) if not (j - 1) % 3]
-- 
2.43.0


From 4076a9f3e11f50af1be319e1d7a4501c356145db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 25/41] fix: distributed HGS stops redundant nodes, as the
 sequential version does

---
 algorithms/HGS/distributed/actors.py     |  5 +++--
 algorithms/HGS/distributed/hgs_tasks.py  |  7 ++++---
 algorithms/HGS/distributed/node_tasks.py | 11 +++++++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/algorithms/HGS/distributed/actors.py b/algorithms/HGS/distributed/actors.py
index fb93cd9..1e1bf5a 100644
--- a/algorithms/HGS/distributed/actors.py
+++ b/algorithms/HGS/distributed/actors.py
@@ -18,7 +18,7 @@ from algorithms.HGS.distributed.node_tasks import (
     GetPopulationNodeTask,
     NewMetaepochNodeTask,
     TrimNotProgressingNodeTask,
-    ReleaseSproutsNodeTask, ReviveNodeTask)
+    ReleaseSproutsNodeTask, ReviveNodeTask, KillNodeTask)
 from algorithms.HGS.distributed.hgs_tasks import (
     HgsOperationTask,
     MetaepochHgsTask,
@@ -206,7 +206,8 @@ class Node(TaskActor):
             NodeOperation.NEW_METAEPOCH: NewMetaepochNodeTask,
             NodeOperation.TRIM_NOT_PROGRESSING: TrimNotProgressingNodeTask,
             NodeOperation.RELEASE_SPROUTS: ReleaseSproutsNodeTask,
-            NodeOperation.REVIVE: ReviveNodeTask
+            NodeOperation.REVIVE: ReviveNodeTask,
+            NodeOperation.KILL: KillNodeTask,
         }
 
     def get_task_owner_name(self):
diff --git a/algorithms/HGS/distributed/hgs_tasks.py b/algorithms/HGS/distributed/hgs_tasks.py
index 292b7b6..af8ebf7 100644
--- a/algorithms/HGS/distributed/hgs_tasks.py
+++ b/algorithms/HGS/distributed/hgs_tasks.py
@@ -248,8 +248,9 @@ class TrimRedundantHgsTask(HgsOperationTask):
             for level, lvl_infos in itertools.groupby(
                 self.trim_infos, key=lambda info: info.level
             ):
-                self.log(f"trim lvl infos: {list(lvl_infos)} for lvl={level}")
-                self.trim_redundant(list(lvl_infos))
+                lvl_infos = list(lvl_infos)
+                self.log(f"trim lvl infos: {lvl_infos} for lvl={level}")
+                self.trim_redundant(lvl_infos)
             self.hgs.send(
                 self.sender,
                 HgsMessage(HgsOperation.TRIM_REDUNDANT_END, self.sender_task_id, True),
@@ -270,7 +271,7 @@ class TrimRedundantHgsTask(HgsOperationTask):
                 ) and tools.redundant(
                     [another_sprout.center],
                     [sprout.center],
-                    self.hgs.min_dists[sprout.level],
+                    self.hgs.config.min_dists[sprout.level],
                 ):
                     self.hgs.send(sprout.node, NodeMessage(NodeOperation.KILL, self.id))
                     sprout.alive = False
diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index c8223de..248c403 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -72,6 +72,17 @@ class ReviveNodeTask(NodeOperationTask):
         self.node.send(sender, NodeMessage(NodeOperation.REVIVE, msg.id))
 
 
+class KillNodeTask(NodeOperationTask):
+    def __init__(self, node):
+        super().__init__(node)
+
+    def configure_steps(self, steps: Dict[OperationType, Callable]):
+        steps[NodeOperation.KILL] = self.kill
+
+    def kill(self, msg: NodeMessage, sender: Actor):
+        self.node.alive = False
+
+
 class GetPopulationNodeTask(NodeOperationTask):
     def __init__(self, node):
         super().__init__(node)
-- 
2.43.0


From 098458da19287abe8da85f17f1054eee99915546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:25 +0000
Subject: [PATCH 26/41] fix: distributed HGS counts the sprouts it releases
 towards max_sprouts_no

---
 algorithms/HGS/distributed/node_tasks.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/algorithms/HGS/distributed/node_tasks.py b/algorithms/HGS/distributed/node_tasks.py
index 248c403..ac4af5c 100644
--- a/algorithms/HGS/distributed/node_tasks.py
+++ b/algorithms/HGS/distributed/node_tasks.py
@@ -335,5 +335,6 @@ class ReleaseSproutsNodeTask(NodeOperationTask):
         self.log("new sprout registered")
         self.node.sprouts.append(msg.data)
         self.released_sprouts += 1
+        self.alive_sprouts_count += 1
 
         self.try_relase_next_sprout()
-- 
2.43.0


From 121a095eae8f2c903a2a23639c1a53ae01226a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 27/41] fix: plotting time curves skips algorithms without a
 plot group

Results of SPEA2, SMSEMOA or a deeper combination made the pictures command
fail with a KeyError, so nothing was drawn for any algorithm.
---
 plots/pictures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index aaf71b1..393403b 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -512,7 +512,7 @@ def pictures_from_stats(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (budget, budget_err, score, score_err)
                             print("PLOT: " + str(value))
@@ -554,7 +554,7 @@ def pictures_time(args):
 
                             keys = [
                                 (problem_name, algo_name, metric_name, group)
-                                for group in algos_groups[algo_name]
+                                for group in algos_groups.get(algo_name, ())
                             ]
                             value = (time, 0, score, score_err)
                             for key in keys:
-- 
2.43.0


From 4f290ba7b5b41f4925eb9a0a30d32447f41897d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:39 +0000
Subject: [PATCH 28/41] fix: time plots cover the curves of all algorithms

The range ended at the last checkpoint of whichever curve was read first,
hiding the rest of longer ones, and an empty results directory failed.
---
 plots/pictures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index 393403b..a8894ba 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -559,7 +559,9 @@ def pictures_time(args):
                             value = (time, 0, score, score_err)
                             for key in keys:
                                 plot_data[key].append(value)
-    max_time = max(list(plot_data.values())[0])[0]
+    max_time = max(
+        (value[0] for values in plot_data.values() for value in values), default=0
+    )
     plot_results(plot_data, plots_dir, (0, max_time))
 
 
-- 
2.43.0


From 36957255848985085de6ade011585e98cf12b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 29/41] fix: summary plots show problems without a place in the
 plotting order

Results of kursawe, ackley or a user's own problem made pictures_summary
fail with an IndexError.
---
 plots/pictures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plots/pictures.py b/plots/pictures.py
index a8894ba..ebd4c99 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -573,6 +573,7 @@ def plot_results_summary(problems, scoring, selected, plots_dir):
         plt.title(metric_name)
         x_axis = range(len(problems))
         problem_labels = [p for p in problems_order if p in problems]
+        problem_labels += sorted(p for p in problems if p not in problems_order)
         plt.xticks(x_axis, problem_labels)
 
         if metric_name == "hypervolume":
-- 
2.43.0


From bfebed5dd23d8b904f6835c9efc19c319707f138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:40 +0000
Subject: [PATCH 30/41] fix: summary plots survive a problem without acceptable
 results

Normalising went through the indicators of the other problems and took the
maximum of an empty list.
---
 plots/pictures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plots/pictures.py b/plots/pictures.py
index ebd4c99..bddaf86 100644
--- a/plots/pictures.py
+++ b/plots/pictures.py
@@ -658,7 +658,7 @@ def pictures_summary(args):
                 else:
                     print("{}, {}, NO BUDGET".format(problem_name, algo_name))
 
-            for metric_name in scoring:
+            for metric_name in problem_score:
                 if metric_name != "pdi":
 
                     max_score = (
-- 
2.43.0


From ab41c955b3156ff2e0bd5ffb129d51dcc5989e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 31/41] fix: BOGO archive dropped the member that dominates a
 new candidate

---
 algorithms/BOGO/BOGO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/BOGO/BOGO.py b/algorithms/BOGO/BOGO.py
index a46d123..17a553f 100644
--- a/algorithms/BOGO/BOGO.py
+++ b/algorithms/BOGO/BOGO.py
@@ -36,9 +36,9 @@ class BOGO(Driver):
         new_archive = []
         individual_dominated = False
         for archival in self.archive:
-            if not individual_dominated and dominates(archival.fit, individual.fit):
+            if dominates(archival.fit, individual.fit):
                 individual_dominated = True
-            elif not dominates(individual.fit, archival.fit):
+            if not dominates(individual.fit, archival.fit):
                 new_archive.append(archival)
         if not individual_dominated:
             new_archive.append(individual)
-- 
2.43.0


From cdfb1b4150a9038fb721b73220c938e4d7b01ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 32/41] fix: SPEA2 truncation ignored further neighbours when
 the nearest distances tie

---
 algorithms/SPEA2/SPEA2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algorithms/SPEA2/SPEA2.py b/algorithms/SPEA2/SPEA2.py
index f90c7e5..424a8ef 100644
--- a/algorithms/SPEA2/SPEA2.py
+++ b/algorithms/SPEA2/SPEA2.py
@@ -185,7 +185,7 @@ class SPEA2(Driver):
         return self.get_min(distances, 0)[0]
 
     def get_min(self, distances, level):
-        if level >= len(distances):
+        if level >= len(distances[0][1]):
             return distances[0]
 
         sorted_distances = sorted(distances, key=lambda dist: dist[1][level][1])
-- 
2.43.0


From 190b18b27cbd4576a742ed9861d4afdf933ecc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:29 +0000
Subject: [PATCH 33/41] fix: OMOPSO pruned the least crowded leaders and
 preferred the most crowded ones

---
 algorithms/OMOPSO/OMOPSO.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algorithms/OMOPSO/OMOPSO.py b/algorithms/OMOPSO/OMOPSO.py
index a82836b..4e6930e 100644
--- a/algorithms/OMOPSO/OMOPSO.py
+++ b/algorithms/OMOPSO/OMOPSO.py
@@ -231,7 +231,7 @@ class CrowdingTournament:
 
     def __call__(self, pool):
         sub_pool = random.sample(pool.archive, self.tournament_size)
-        return min(sub_pool, key=lambda x: x.crowd_val)
+        return max(sub_pool, key=lambda x: x.crowd_val)
 
 
 class Individual:
@@ -308,7 +308,8 @@ class LeaderArchive(Archive):
 
     def prune(self):
         self.crowding()
-        worst_res = max(self.archive, key=lambda x: x.crowd_val)
+        # crowd_val is a distance: the most crowded leader has the smallest one
+        worst_res = min(self.archive, key=lambda x: x.crowd_val)
         self.archive.remove(worst_res)
 
     def crowding(self):
-- 
2.43.0


From cd84fd051e41aa93262982dd96f137d41d241555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 34/41] fix: NSLS filled the last layer with passing extremes
 and could drop the real ones

---
 algorithms/NSLS/NSLS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 3384929..9944245 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -187,10 +187,10 @@ class NSLS(Driver):
                 if obj > max_obj:
                     max_obj = obj
                     max_ind = ind
-                if min_ind not in additional:
-                    additional.append(min_ind)
-                if max_ind not in additional:
-                    additional.append(max_ind)
+            if min_ind not in additional:
+                additional.append(min_ind)
+            if max_ind not in additional:
+                additional.append(max_ind)
 
         if len(additional) > to_select:
             additional = random.sample(additional, to_select)
-- 
2.43.0


From 2c48db3a3b02d3d316a19102da29d3f09fa76562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 35/41] fix: NSLS never finished a step in which no local move
 was accepted

---
 algorithms/NSLS/NSLS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/algorithms/NSLS/NSLS.py b/algorithms/NSLS/NSLS.py
index 9944245..3f22a6d 100644
--- a/algorithms/NSLS/NSLS.py
+++ b/algorithms/NSLS/NSLS.py
@@ -164,7 +164,8 @@ class NSLS(Driver):
 
         front_no = 1
         while (
-            len(next_gen_individuals) + len(self.front[front_no])
+            self.front[front_no]
+            and len(next_gen_individuals) + len(self.front[front_no])
             <= self.population_size
         ):
             next_gen_individuals.extend(self.front[front_no])
-- 
2.43.0


From 9dae1123344fb27753398d63534e2183cbcfe2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 36/41] fix: a failing custom initialiser passed for a missing
 one

An AttributeError raised inside the function was suppressed together with the lookup.
---
 simulation/factory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simulation/factory.py b/simulation/factory.py
index c2a896c..aa098d4 100644
--- a/simulation/factory.py
+++ b/simulation/factory.py
@@ -238,6 +238,7 @@ def custom_init(
         example fun: init_alg___HGS__SPEA2____ackley
         example fun: init_alg___IMGA__HGS_SPEA2____zdt1
     """
+    updater = None
     with suppress(AttributeError):
         key = "init_alg___" + algo
         if all_drivers:
@@ -249,6 +250,8 @@ def custom_init(
         logger.debug(
             "Custom initialization: %s: %s: %s", "| by algo fun:", key, updater
         )
+    # outside the block above: a failure of the function itself must not pass for a missing function
+    if updater:
         updater(config, problem_mod)
         logger.debug("config: %s", show_conf(config))
 
-- 
2.43.0


From 5868f081ea197e4cf079a75c02422ae06bfe502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 37/41] fix: IMGA never announced its budget to the islands

The budget is set after construction, so announcing it in the constructor did nothing.
---
 algorithms/IMGA/IMGA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/IMGA/IMGA.py b/algorithms/IMGA/IMGA.py
index f03a2c3..44b0de9 100644
--- a/algorithms/IMGA/IMGA.py
+++ b/algorithms/IMGA/IMGA.py
@@ -52,8 +52,6 @@ class IMGA(ComplexDriver):
 
         self.logger = logging.getLogger(__name__)
 
-        self.spread_budget_info()
-
     def spread_budget_info(self):
         if self.max_budget:
             for island in self.islands:
@@ -67,6 +65,8 @@ class IMGA(ComplexDriver):
         )
 
     def step(self):
+        # the budget is announced once the driver has been created
+        self.spread_budget_info()
         last_result = (
             rx.from_iterable(self.islands)
             .pipe(
-- 
2.43.0


From e593c368e2ee128517b7349afced69242b700c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 38/41] fix: IBEA's mating tournament preferred the less fit
 members

Larger fitness is better in IBEA; the comparison came from NSGA-II.
---
 algorithms/IBEA/IBEA.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algorithms/IBEA/IBEA.py b/algorithms/IBEA/IBEA.py
index 3148781..48bc146 100644
--- a/algorithms/IBEA/IBEA.py
+++ b/algorithms/IBEA/IBEA.py
@@ -138,9 +138,9 @@ class IBEA(Driver):
     def _mating_selection(self, p):
         coin = lambda: random.random() < p
         better = (
-            lambda x1, x2: self.fitness[x1] < self.fitness[x2] and x1 or x2
+            lambda x1, x2: self.fitness[x1] > self.fitness[x2] and x1 or x2
             if coin()
-            else self.fitness[x1] > self.fitness[x2] and x1 or x2
+            else self.fitness[x1] < self.fitness[x2] and x1 or x2
         )
         self.mating_individuals = [
             better(random.choice(self.individuals), random.choice(self.individuals))
-- 
2.43.0


From 1881432c13b5831311f97500cf41ecb52d261948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:50 +0000
Subject: [PATCH 39/41] =?UTF-8?q?fix:=20stats=20counted=20and=20flagged=20?=
 =?UTF-8?q?values=20inside=20mean=C2=B13=CF=83=20as=20outside?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 statistic/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/statistic/stats.py b/statistic/stats.py
index cace502..0ce0933 100644
--- a/statistic/stats.py
+++ b/statistic/stats.py
@@ -143,7 +143,7 @@ def statistics(args):
                                     [
                                         x
                                         for x in data_process
-                                        if lower_process <= x <= upper_process
+                                        if not lower_process <= x <= upper_process
                                     ]
                                 )
                                 print(
@@ -185,7 +185,7 @@ def statistics(args):
                                         "{err_prefix}:: {0:>30.20}  = avg {1:<+30} = avg {3:+8.3f}% ⨉ σ | {2:17} {4:17} {5:17}\n".format(
                                             x,
                                             x - mean_process,
-                                            (lower_process <= x <= upper_process)
+                                            not (lower_process <= x <= upper_process)
                                             and "(out of mean±3σ)"
                                             or "",
                                             aux(x),
-- 
2.43.0


From 3e33307aec57ea5866dc4d040cbfe8c2b0fb22f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 40/41] fix: --renice accumulated over the cases of a batch

---
 simulation/worker.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/simulation/worker.py b/simulation/worker.py
index 4905eba..ef60ee0 100644
--- a/simulation/worker.py
+++ b/simulation/worker.py
@@ -15,6 +15,8 @@ from simulation.run_config import NotViableConfiguration
 from simulation.serializer import Serializer, Result
 from simulation.timing import log_time, process_time
 
+INITIAL_NICENESS = os.nice(0) if os.name == "posix" else 0
+
 
 class SimulationWorker:
     def __init__(self, simulation: SimulationCase, simulation_no: int):
@@ -34,7 +36,9 @@ class SimulationWorker:
             logger.debug(
                 "Renice the process PID:%s by %s", os.getpid(), self.simulation
             )
-            os.nice(int(self.simulation.renice))  # pylint: disable=no-member
+            # cases of a batch share a process: count from where the program started
+            increment = INITIAL_NICENESS + int(self.simulation.renice) - os.nice(0)
+            os.nice(increment)  # pylint: disable=no-member
 
         self._init_random_seed(logger)
 
-- 
2.43.0


From eacb1c4662a43319675586c69b019e64b1d549ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:54 +0000
Subject: [PATCH 41/41] fix: estimated time to finish counted the minutes of
 full hours twice

---
 simulation/run_parallel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simulation/run_parallel.py b/simulation/run_parallel.py
index 5a0e43d..10e4be7 100644
--- a/simulation/run_parallel.py
+++ b/simulation/run_parallel.py
@@ -63,7 +63,7 @@ def log_simulation_stats(start_time, simulation_id, simultations_count):
             "Job queue progress: %.3f%%. Est. finish in %02d:%02d:%02d (at %s)",
             ratio * 100,
             time_to_delivery.days * 24 + time_to_delivery.seconds // 3600,
-            time_to_delivery.seconds // 60,
+            time_to_delivery.seconds // 60 % 60,
             time_to_delivery.seconds % 60,
             est_delivery_time.strftime("%Y-%m-%d %H:%M:%S.%f"),
         )
-- 
2.43.0


From 3b8c7c9a062f5b07bef164fac4d6d3037edfbdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 01/38] fix: CategoricalMutation accepts the documented string
 levels

The class never defined mutation_map, so the default level 'normal' (and
'weak', 'strong') raised AttributeError; map them to k/number_of_genes with
the update_mutation_lvl() that was already there but never called.
---
 baumeva/ga/mutations/categorical_mutation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..71835b2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,8 +22,8 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
+            if self.mutation_lvl in ['weak', 'normal', 'strong']:
+                pass
             else:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
@@ -91,5 +91,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From 3c28d3dd4ccf07979dce0df62ca51b18936b9147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 02/38] fix: mutation level is the mutation probability

randint(0, 999) <= lvl * 1000 mutated with probability lvl + 0.001, so a
level of 0.0 still mutated.
---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 71835b2..464caf2 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -56,7 +56,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 04eedb794995260a702f9c38c1615ddd8a1f9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 03/38] fix: fitness does not modify the caller's conditions
 list

set_opt_value() removed 'optimize' from the list the user passed, so the same
list (or a second optimize() of the same GA) could not be used again.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From 4f2cdd81e9374f95f6b9e77c40bc4ba49106a71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 04/38] fix: pass any input_data that is not None to the
 objective function

Falsy input data (0, '', empty containers) was silently dropped and a numpy
array raised on its truth value.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
-- 
2.43.0


From 96d99d95e605953c97ed17582e3e012f5178dfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:17 +0000
Subject: [PATCH 05/38] fix: accept an objective function that returns one
 value in a sequence

check_input() fell through and returned None for a sequence of length 1.
---
 baumeva/ga/fitness/base_fitness.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index acffe2c..2fdebab 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -108,6 +108,7 @@ class BaseFitness(ABC):
                 if len(values) > 1:
                     raise Exception(f'Number of returned values from objective function for non-conditional'
                                     f' optimization must be equal 1')
+                return values[0]
             except TypeError:
                 return values
 
-- 
2.43.0


From 7ccbdde03252f822b576765f0f893680cc31c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 06/38] fix: an objective function that raises leaves the
 population intact

execute() exchanged genotype and phenotype of every individual while it
evaluated, so an exception left the whole population exchanged and the next
attempt evaluated bit strings. Read the phenotype instead.
---
 baumeva/ga/fitness/base_fitness.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index 2fdebab..fcdee94 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -157,11 +157,11 @@ class BaseFitness(ABC):
         """
         if ga_data.population.is_phenotype:
             ga_data.population.get_phenotype()
-            ga_data.population.swap()
 
         for individ in ga_data.population:
             if individ['score'] is None:
-                values = self.calc_obj_func(genotype=individ['genotype'])
+                gens = individ['phenotype'] if ga_data.population.is_phenotype else individ['genotype']
+                values = self.calc_obj_func(genotype=gens)
                 if self.__is_conditional_opt:
                     self.set_obj_score(values, individ)
                     for i_v, v in enumerate(values):
@@ -180,6 +180,3 @@ class BaseFitness(ABC):
                     individ['obj_score'] = values
                     penalty_value = 0
                 individ['score'] = self.get_fitness_score(individ, penalty_value)
-
-        if ga_data.population.is_phenotype:
-            ga_data.population.swap()
-- 
2.43.0


From 7a8b9cc2a833d95ff869f14439f1afe47d2647b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 07/38] fix: multi-objective algorithms pass input_data to the
 objective function

Dominance and VEGA's probe for the number of objectives called a two-argument
objective function with one argument; the probe also evaluated the origin,
which need not lie in the declared ranges.
---
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 baumeva/vega.py                     | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..67df7e5 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..23d4867 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,12 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        if self.conditions is None:
+            point = [gen[0] for gen in self.gens]
+            values = self.obj_function(point) if self.input_data is None else self.obj_function(self.input_data, point)
+            num_objectives = len(values)
+        else:
+            num_objectives = self.conditions.count('optimize')
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From 6da0e156d836bd327133cbc598ab9f2678569e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 08/38] fix: objective scores keep the order of the objectives

With conditions the values to optimize were stored last to first, so target
values and per-objective scores were paired with the wrong objective.
---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 67df7e5..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From 1c357d90bf1d179917e166b159c67301a239578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 09/38] fix: FFGA scores follow the ranks of the current
 population

Parents carried over kept the score of the rank they had when they were first
evaluated although ranks are assigned anew in every generation.
---
 baumeva/ga/fitness/ffga_fitness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..b104fbc 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,5 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From 1b632d072cdd05b8b1088dec2dc5a0ead65ae3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 10/38] fix: VEGA balanced and ranked selection keep the
 parents of every objective

The parents were reset for each objective, so only those chosen by the last
objective survived.
---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4c1970c 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,3 +1,4 @@
+from .base_selection import BaseSelection
 from .balanced_selection import BalancedSelection
 from baumeva.ga import MultiGaData
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 1cc016378ccd23029a6bec091898bf936c8a04b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 11/38] fix: VEGA ranked selection ranks by the score of the
 objective at hand

Ranks were the positions in the population, which is not ordered by that score.
---
 baumeva/ga/selections/vega_ranked_selection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..3763b83 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,6 +25,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        ga_data.population.sort(key=lambda ind: ind['score'][self.idx])
         prev_score = -1
         count = 1
         for idx in range(len(ga_data.population)):
-- 
2.43.0


From 2eb1dc52b9f039028fa131018e0848a1134ba903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 12/38] fix: ranked selection does not take a score of -1 for a
 tie

The start value of prev_score equals a legal score, which gave the worst
individual a rank below 1.
---
 baumeva/ga/selections/ranked_selection.py      | 2 +-
 baumeva/ga/selections/vega_ranked_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..1acb1e6 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -25,7 +25,7 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index 3763b83..2f98fa8 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -26,7 +26,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :return: None
         """
         ga_data.population.sort(key=lambda ind: ind['score'][self.idx])
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
-- 
2.43.0


From 0b6c2dd59eae333f53749c015a9a44f588488fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 13/38] fix: VEGA uses its tournament_size parameter

---
 baumeva/vega.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index 23d4867..913e75b 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -87,7 +87,8 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives,
+                                            tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From 243851d91f196a3d03a42fdef3c7098bfc3d4ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 14/38] fix: balanced selection cannot step past the last
 individual

The cumulative probabilities can end below 1 by rounding; a random value above
that end raised IndexError.
---
 baumeva/ga/selections/balanced_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 8830793..63cbd56 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -53,7 +53,8 @@ class BalancedSelection(BaseSelection):
         """
         rand_value = random()
         idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        return idx if rand_value >= self.selection_scores[idx] else idx - 1
+        idx = idx if rand_value >= self.selection_scores[idx] else idx - 1
+        return min(idx, len(self.selection_scores) - 2)
 
     def balanced_selection(self, ga_data: GaData):
         """
-- 
2.43.0


From 99737f8d4340f65396f954d911b8312e75394d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 15/38] fix: binary genes are at least as fine as the requested
 step

Truncating range / step lost a point when the step does not divide the range
(or only up to rounding): the grid got coarser than asked for, and a gene of
one step raised ZeroDivisionError.
---
 baumeva/ga/populations/binary_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1c9fdd4..62c4671 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -1,3 +1,4 @@
+from math import ceil
 from typing import List, Tuple
 from random import randint
 from .base_population import BasePopulation
@@ -55,7 +56,7 @@ class BinaryPopulation(BasePopulation):
         """
         for gen in self.gens:
             gen_range = abs(gen[1] - gen[0])
-            num_points = int(gen_range / gen[2])
+            num_points = ceil(round(gen_range / gen[2], 9))
             num_bits, real_num_points = self.get_real_number_of_points(num_points)
             self.real_step.append(gen_range / (2 ** num_bits - 1))
             self.num_bits.append(num_bits)
-- 
2.43.0


From de095e3bb0387ff58830f8b1976ec67e6a0f0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 16/38] fix: decoded binary genes never exceed the maximum of
 their range

start + index * step could exceed the declared maximum by rounding.
---
 baumeva/ga/populations/binary_gray_population.py | 2 +-
 baumeva/ga/populations/binary_population.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index 9c3af6d..42e34f1 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -45,7 +45,7 @@ class BinaryGrayPopulation(BinaryPopulation):
             index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
             index_point = self.get_index_from_gray(index_point)
             point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
-            phenotype.append(point)
+            phenotype.append(min(point, gen_item[1]))
         return phenotype
 
     @staticmethod
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 62c4671..604fc76 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -115,7 +115,7 @@ class BinaryPopulation(BasePopulation):
         for gen_idx, gen_item in enumerate(self.gens):
             index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
             point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
-            phenotype.append(point)
+            phenotype.append(min(point, gen_item[1]))
         return phenotype
 
     def get_phenotype(self):
-- 
2.43.0


From 7c1b67e84320199f9f1bc119061ca775d70c6243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 17/38] fix: elites that replace duplicates are the next best
 parents

The bounds check was always true, so every duplicate was replaced by parents
picked at random although the strategy is 'best'.
---
 baumeva/ga/new_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 64d964c..0ec633b 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -51,7 +51,7 @@ class NewGeneration:
                         break
 
                 z_counter += 1
-                if -num_elites - 1 - z_counter < 0:
+                if num_elites + 1 + z_counter > len(ga_data.population):
                     elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
-- 
2.43.0


From b8078f6d443b6c9f2a186f4f6d443df6e8289dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:18 +0000
Subject: [PATCH 18/38] fix: the recorded Pareto sets do not change afterwards

The history held the live individuals, whose ranks are assigned anew in later
generations.
---
 baumeva/ga/multi_ga_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 2aa0b4d..d66ce28 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -48,7 +48,7 @@ class MultiGaData(GaData):
             else:
                 break
 
-        self.historical_best.append(pareto_set)
+        self.historical_best.append(deepcopy(pareto_set))
 
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
-- 
2.43.0


From 017d6e200f302ed1a1f2e5b7dbe2baba7c0985b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 19/38] fix: StaticPenalty uses the interval that contains the
 violation

An equality was only looked at when it held, inequalities took the
coefficients of the equalities, and every interval that did not contain the
value raised, so more than one interval per condition could not be used.
---
 baumeva/ga/penalties/static_penalty.py | 29 +++++++++++---------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..aee12d2 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,26 +43,21 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
-                    res = 0
-                    continue
-                for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                violation = abs(values[i])
+                intervals, r_coef = self.equality_intervals, self.equality_r_coef
             elif conditional == '<=':
-                if values[i] <= 0:
-                    res = 0
-                    continue
-                for idx, val in enumerate(self.inequality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                violation = max(0, values[i])
+                intervals, r_coef = self.inequality_intervals, self.inequality_r_coef
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
-            self.sum_conditional += res ** self.power
+            if violation == 0:
+                continue
+            for idx, val in enumerate(intervals[i]):
+                if val[0] < violation <= val[1]:
+                    self.sum_conditional += (r_coef[i][idx] * violation) ** self.power
+                    break
+            else:
+                raise Exception(f"Value {violation} is out of the intervals: {intervals[i]}")
 
     def execute(self, conditionals: List[str], values: List[float], **kwargs) -> float:
         """
-- 
2.43.0


From 82c29ae41a462afc830caf3039e75f82ad0aaee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 20/38] fix: the multi-objective early stop looks at the
 solutions only

The Pareto sets were compared with their bookkeeping (idx_individ, order,
copies), so an unchanged set counted as an improvement.
---
 baumeva/ga/multi_ga_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index d66ce28..4b08ab5 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -53,7 +53,8 @@ class MultiGaData(GaData):
         if self.best_solution is None:
             self.best_solution = {'pareto_set':[]}
 
-        if self.best_solution['pareto_set'] != pareto_set:
+        old_genotypes = set(tuple(individ['genotype']) for individ in self.best_solution['pareto_set'])
+        if old_genotypes != set(tuple(individ['genotype']) for individ in pareto_set):
             self.best_solution['pareto_set'] = deepcopy(pareto_set)
             self.best_solution['idx_generation'] = self.idx_generation
             self.num_generation_no_improve = 0
-- 
2.43.0


From 3c8fa0029b8b579204bc5dbc4117e16d54bba192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 21/38] fix: a fixed seed does not restart the random stream in
 every generation

The generator was seeded whenever a population object was made, that is twice
per generation: with rnd_seed set, every generation drew the same tournaments,
cut points and mutations. Seed once, when the population is set up.
---
 baumeva/ga/populations/base_population.py   | 2 --
 baumeva/ga/populations/binary_population.py | 3 ++-
 baumeva/ga/populations/cat_population.py    | 3 ++-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/populations/base_population.py b/baumeva/ga/populations/base_population.py
index 4e7c408..136270d 100644
--- a/baumeva/ga/populations/base_population.py
+++ b/baumeva/ga/populations/base_population.py
@@ -1,6 +1,5 @@
 from abc import ABC, abstractmethod
 from typing import List, Optional
-from random import seed
 from baumeva.global_generator import generator
 
 
@@ -18,7 +17,6 @@ class BasePopulation(ABC, list):
     def __init__(self) -> None:
         super().__init__()
         self.rnd_seed = generator.rnd_seed
-        seed(self.rnd_seed)
 
     @abstractmethod
     def set_params(self, num_individ: int, gens: tuple, input_population: List[list] = None) -> None:
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 604fc76..a8b9340 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -1,6 +1,6 @@
 from math import ceil
 from typing import List, Tuple
-from random import randint
+from random import randint, seed
 from .base_population import BasePopulation
 
 
@@ -28,6 +28,7 @@ class BinaryPopulation(BasePopulation):
             if len(input_population) > num_individ:
                 raise Exception(f'Size of input population: {len(input_population)} more then number of individuals:'
                                 f' {num_individ}')
+        seed(self.rnd_seed)
         self.num_individ = num_individ
         self.gens = gens
         self.input_population = input_population
diff --git a/baumeva/ga/populations/cat_population.py b/baumeva/ga/populations/cat_population.py
index 2278b62..8679fee 100644
--- a/baumeva/ga/populations/cat_population.py
+++ b/baumeva/ga/populations/cat_population.py
@@ -1,5 +1,5 @@
 from typing import List
-from random import randrange, choice
+from random import randrange, choice, seed
 from .base_population import BasePopulation
 
 
@@ -23,6 +23,7 @@ class CatPopulation(BasePopulation):
             if len(input_population) > num_individ:
                 raise Exception(f'Size of input population: {len(input_population)} more then number of individuals:'
                                 f' {num_individ}')
+        seed(self.rnd_seed)
         self.num_individ = num_individ
         self.gens = gens
         self.input_population = input_population
-- 
2.43.0


From f3da78507bcebcc73b6314dc1896b14a5ca47e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 22/38] fix: random transfer of parents works for small
 multi-objective populations

Ten parents were sampled whatever the size of the population.
---
 baumeva/ga/multi_new_generation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/multi_new_generation.py b/baumeva/ga/multi_new_generation.py
index e04d2b9..423c70a 100644
--- a/baumeva/ga/multi_new_generation.py
+++ b/baumeva/ga/multi_new_generation.py
@@ -39,7 +39,7 @@ class MultiNewGeneration(NewGeneration):
         # if not ga_data.population.is_sorted:
         #     ga_data.population.sort_by_dict('rank')
 
-        self.add_parents(ga_data, num_elites=10)
+        self.add_parents(ga_data, num_elites=min(10, len(ga_data.population) - 1))
 
         ga_data.population = ga_data.children
         ga_data.population.is_sorted = False
-- 
2.43.0


From 06bcd72f84e1e1ad50c65d711e8b65c9b2906cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 23/38] fix: AdaptivePenalty works in multi-objective
 optimization

The best solution of MultiGaData is a pareto set without a 'feasible' key.
---
 baumeva/ga/fitness/multi_fitness.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index e61f48a..36b1df3 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -70,6 +70,20 @@ class MultiFitness(BaseFitness):
         """
         super().check_task()
 
+    def get_penalty_value(self, values: List[Union[int, float]], idx_generation: int, best_individ: dict) ->\
+            Union[int, float]:
+        """
+        Calculate the penalty value, the best found is feasible if its pareto set has a feasible individual.
+
+        :param values: values of conditions.
+        :param idx_generation: the index of the current generation.
+        :param best_individ: best solution of MultiGaData.
+        :return: the calculated penalty value.
+        """
+        if best_individ is not None:
+            best_individ = {'feasible': any(individ['feasible'] for individ in best_individ['pareto_set'])}
+        return super().get_penalty_value(values, idx_generation, best_individ)
+
     def check_input(self, values: List[Union[int, float]]) -> List[Union[int, float]]:
         """
         Checks whether the number of values returned from objective function is correct.
-- 
2.43.0


From cd4cac28c0bc9b97dbecd601a7695855879e9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 24/38] fix: multi-objective optimization of populations
 without phenotype

Categorical populations have no 'phenotype' key.
---
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 baumeva/ga/multi_ga_data.py         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 36b1df3..c589c8e 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -112,8 +112,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = self.calc_obj_func(x['phenotype'])
-        y_score = self.calc_obj_func(y['phenotype'])
+        x_score = self.calc_obj_func(x.get('phenotype', x['genotype']))
+        y_score = self.calc_obj_func(y.get('phenotype', y['genotype']))
 
         if x_score == y_score:
             return None
diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index 4b08ab5..a674135 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -79,8 +79,8 @@ class MultiGaData(GaData):
         print('Best solution:')
         print(f'\tindex generation: {self.best_solution["idx_generation"]}')
         # print(f'\tgenotypes: {self.best_solution["genotype"]}')
-        # if 'phenotype' in self.best_solution.keys():
-        self.print_list('phenotypes', self.best_solution["pareto_set"], 'phenotype')
+        label = 'phenotype' if 'phenotype' in self.best_solution["pareto_set"][0] else 'genotype'
+        self.print_list(f'{label}s', self.best_solution["pareto_set"], label)
         # print(f'\tfitness score: {self.best_solution["score"]}')
         self.print_list('objective scores', self.best_solution["pareto_set"], 'obj_score')
         # print(f'\tfeasible region: {self.best_solution["feasible"]}')
-- 
2.43.0


From 791c701d0e19a357d429317fafc33436d570f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 25/38] fix: balanced selection favours the fitter individual
 for negative scores

Without obj_value the scores are negative; dividing by their negative sum gave
the worst individual the largest share, and a sum of zero raised
ZeroDivisionError.
---
 baumeva/ga/selections/balanced_selection.py   | 27 ++++++++++++++-----
 .../ga/selections/vega_balanced_selection.py  |  8 +-----
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 63cbd56..ccd9963 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,3 +1,4 @@
+from bisect import bisect_right
 from random import random
 from copy import deepcopy
 from .base_selection import BaseSelection
@@ -37,12 +38,26 @@ class BalancedSelection(BaseSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.set_selection_scores([ind[self.score_type] for ind in ga_data.population])
+
+    def set_selection_scores(self, scores: list) -> None:
+        """
+        Store cumulative selection probabilities. Negative scores are shifted, so that the worst one becomes zero.
+
+        :param scores: scores of individuals.
+        :return: None
+        """
+        min_score = min(scores)
+        if min_score < 0:
+            scores = [score - min_score for score in scores]
+        sum_scores = sum(scores)
+        if sum_scores == 0:
+            scores, sum_scores = [1] * len(scores), len(scores)
+
         self.selection_scores = [0]
-        sum_scores = sum(ind[self.score_type] for ind in ga_data.population)
         proportional = 0
-
-        for ind in ga_data.population:
-            proportional += ind[self.score_type] / sum_scores
+        for score in scores:
+            proportional += score / sum_scores
             self.selection_scores.append(proportional)
 
     def get_index(self):
@@ -52,9 +67,7 @@ class BalancedSelection(BaseSelection):
         :return: The index of the selected individual.
         """
         rand_value = random()
-        idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        idx = idx if rand_value >= self.selection_scores[idx] else idx - 1
-        return min(idx, len(self.selection_scores) - 2)
+        return min(bisect_right(self.selection_scores, rand_value), len(self.selection_scores) - 1) - 1
 
     def balanced_selection(self, ga_data: GaData):
         """
diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 4c1970c..3b1b490 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -37,13 +37,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
-        self.selection_scores = [0]
-        sum_scores = sum(ind[self.score_type][self.idx] for ind in ga_data.population)
-        proportional = 0
-
-        for ind in ga_data.population:
-            proportional += ind[self.score_type][self.idx] / sum_scores
-            self.selection_scores.append(proportional)
+        self.set_selection_scores([ind[self.score_type][self.idx] for ind in ga_data.population])
 
     def execute(self, ga_data: MultiGaData) -> None:
         """
-- 
2.43.0


From cca5bb086250dd0666c40a5877da3d3efec64c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:25 +0000
Subject: [PATCH 26/38] fix: balanced selection always finds a second parent

Redrawing until another individual came up practically never ended when one
individual held nearly all of the fitness. Draw from the others directly,
which gives the same distribution.
---
 baumeva/ga/selections/balanced_selection.py | 28 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index ccd9963..38d9202 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -60,13 +60,32 @@ class BalancedSelection(BaseSelection):
             proportional += score / sum_scores
             self.selection_scores.append(proportional)
 
-    def get_index(self):
+    def get_index(self, excluded: int = None):
         """
         Get the index of a selected individual using proportional selection.
 
+        :param excluded: index of an individual that must not be selected.
         :return: The index of the selected individual.
         """
         rand_value = random()
+        if excluded is not None:
+            left, right = self.selection_scores[excluded:excluded + 2]
+            rand_value *= self.selection_scores[-1] - (right - left)
+            if rand_value >= left:
+                rand_value += right - left
+            idx = self.index_of(rand_value)
+            if idx == excluded:
+                idx = excluded - 1 if excluded > 0 else excluded + 1
+            return idx
+        return self.index_of(rand_value)
+
+    def index_of(self, rand_value: float) -> int:
+        """
+        Get the index of the individual whose share of the cumulative probabilities contains the value.
+
+        :param rand_value: value from 0 to 1.
+        :return: The index of the individual.
+        """
         return min(bisect_right(self.selection_scores, rand_value), len(self.selection_scores) - 1) - 1
 
     def balanced_selection(self, ga_data: GaData):
@@ -79,11 +98,8 @@ class BalancedSelection(BaseSelection):
         total_num_parents = self.get_total_num_parents(ga_data)
 
         for _ in range(total_num_parents):
-            idxs = []
-            while len(idxs) < 2:
-                idx = self.get_index()
-                if len(idxs) == 0 or idx != idxs[-1]:
-                    idxs.append(idx)
+            idxs = [self.get_index()]
+            idxs.append(self.get_index(excluded=idxs[0]))
 
             ga_data.parents.extend(deepcopy(ga_data.population[idx]) for idx in idxs)
 
-- 
2.43.0


From c7d52ca01f4acf8004e5f9f2a226773b9ea473ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:26 +0000
Subject: [PATCH 27/38] fix: a mutation with a string level can be reused for
 another problem

The level was replaced by the probability for the length of the first problem,
which then applied to every later one.
---
 baumeva/ga/mutations/bin_string_mutation.py  | 11 +++++++----
 baumeva/ga/mutations/categorical_mutation.py | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index d51ffd1..2d62230 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -14,6 +14,7 @@ class BinStringMutation(BaseMutation):
         :return: None
         """
         super().__init__(mutation_lvl=mutation_lvl)
+        self.mutation_prob = mutation_lvl
         self.check_mutation()
 
     def check_mutation(self) -> None:
@@ -44,11 +45,13 @@ class BinStringMutation(BaseMutation):
         """
         if type(self.mutation_lvl) is str:
             if self.mutation_lvl == 'weak':
-                self.mutation_lvl = 0.3 / len_bin_str
+                self.mutation_prob = 0.3 / len_bin_str
             elif self.mutation_lvl == 'normal':
-                self.mutation_lvl = 1 / len_bin_str
+                self.mutation_prob = 1 / len_bin_str
             else:
-                self.mutation_lvl = 3 / len_bin_str
+                self.mutation_prob = 3 / len_bin_str
+        else:
+            self.mutation_prob = self.mutation_lvl
 
     def determines_mutation(self) -> bool:
         """
@@ -56,7 +59,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_prob * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 464caf2..ede5c72 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -13,6 +13,7 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         super().__init__(mutation_lvl=mutation_lvl)
+        self.mutation_prob = mutation_lvl
         self.check_mutation()
 
     def check_mutation(self) -> None:
@@ -44,11 +45,13 @@ class CategoricalMutation(BaseMutation):
         """
         if type(self.mutation_lvl) is str:
             if self.mutation_lvl == 'weak':
-                self.mutation_lvl = 0.3 / len_bin_str
+                self.mutation_prob = 0.3 / len_bin_str
             elif self.mutation_lvl == 'normal':
-                self.mutation_lvl = 1 / len_bin_str
+                self.mutation_prob = 1 / len_bin_str
             else:
-                self.mutation_lvl = 3 / len_bin_str
+                self.mutation_prob = 3 / len_bin_str
+        else:
+            self.mutation_prob = self.mutation_lvl
 
     def determines_mutation(self) -> bool:
         """
@@ -56,7 +59,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_prob * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From e2d42b59e8729ba486c3373ae24adda43ab78250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:46 +0000
Subject: [PATCH 28/38] fix: FFGA populations do not shrink below the declared
 size

---
 baumeva/ga/multi_new_generation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/multi_new_generation.py b/baumeva/ga/multi_new_generation.py
index 423c70a..603dcd4 100644
--- a/baumeva/ga/multi_new_generation.py
+++ b/baumeva/ga/multi_new_generation.py
@@ -18,7 +18,7 @@ class MultiNewGeneration(NewGeneration):
         elites = []
 
         for individ in ga_data.population:
-            if individ['rank'] == 1:
+            if individ['rank'] == 1 or len(elites) <= num_elites:
                 elites.append(individ)
             else:
                 break
@@ -39,7 +39,7 @@ class MultiNewGeneration(NewGeneration):
         # if not ga_data.population.is_sorted:
         #     ga_data.population.sort_by_dict('rank')
 
-        self.add_parents(ga_data, num_elites=min(10, len(ga_data.population) - 1))
+        self.add_parents(ga_data, num_elites=ga_data.population.num_individ - len(ga_data.children))
 
         ga_data.population = ga_data.children
         ga_data.population.is_sorted = False
-- 
2.43.0


From 25c3c2064553793b8db6135cd9c801450741d7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:10 +0000
Subject: [PATCH 29/38] fix: random transfer of FFGA keeps a non-dominated
 individual

---
 baumeva/ga/multi_new_generation.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/multi_new_generation.py b/baumeva/ga/multi_new_generation.py
index 603dcd4..1406af7 100644
--- a/baumeva/ga/multi_new_generation.py
+++ b/baumeva/ga/multi_new_generation.py
@@ -17,7 +17,7 @@ class MultiNewGeneration(NewGeneration):
         """
         elites = []
 
-        for individ in ga_data.population:
+        for individ in reversed(ga_data.population):
             if individ['rank'] == 1 or len(elites) <= num_elites:
                 elites.append(individ)
             else:
@@ -35,9 +35,7 @@ class MultiNewGeneration(NewGeneration):
         ga_data.children.__dict__ = ga_data.population.__dict__
         if ga_data.population.is_phenotype:
             ga_data.population.get_phenotype()
-        # ga_data.assign_ranks()
-        # if not ga_data.population.is_sorted:
-        #     ga_data.population.sort_by_dict('rank')
+        ga_data.population.sort_by_dict('rank', reverse=True)
 
         self.add_parents(ga_data, num_elites=ga_data.population.num_individ - len(ga_data.children))
 
-- 
2.43.0


From 900e41e2e670ce1c9ace06c10eafb5c3125cc4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:42 +0000
Subject: [PATCH 30/38] fix: an elite that fills a free place twice is copied

---
 baumeva/ga/new_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 0ec633b..62e868d 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from random import sample
 from .ga_data import GaData
 
@@ -52,7 +53,7 @@ class NewGeneration:
 
                 z_counter += 1
                 if num_elites + 1 + z_counter > len(ga_data.population):
-                    elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
+                    elites[0:0] = deepcopy(sample(ga_data.population, num_elites + 1 - len(elites)))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
                 loop_counter += 1
-- 
2.43.0


From c693dd993cefd4867244b3c2423da410ba03257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:21 +0000
Subject: [PATCH 31/38] fix: ranked selection does not overwrite the Pareto
 rank

---
 baumeva/ga/selections/ranked_selection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index 1acb1e6..31448a1 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -8,7 +8,7 @@ class RankedSelection(BalancedSelection):
     Inherits from BalancedSelection.
     """
 
-    score_type = 'rank'
+    score_type = 'selection_rank'
 
     def __init__(self):
         """
@@ -25,19 +25,20 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        ga_data.population.sort_by_dict()
         prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
-            ga_data.population[idx]['rank'] = rank
+            ga_data.population[idx][self.score_type] = rank
             if ga_data.population[idx]['score'] == prev_score:
                 count += 1
                 if rank == len(ga_data.population):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'] = (sum(range(rank - count, rank)) + count) / count
+                        ga_data.population[_idx][self.score_type] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'] = (sum(range(idx - count, idx)) + count) / count
+                    ga_data.population[_idx][self.score_type] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
             prev_score = ga_data.population[idx]['score']
         super().add_probabilities(ga_data)
-- 
2.43.0


From 8ba60b207df6b96f5e185701b54b3649e686831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:29 +0000
Subject: [PATCH 32/38] fix: a mutation level that is not a number is refused

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index 449a663..544d135 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -35,7 +35,7 @@ class BaseCombinatoryMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 2d62230..9b854b0 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -30,7 +30,7 @@ class BinStringMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index ede5c72..0265c45 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -29,7 +29,7 @@ class CategoricalMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
-- 
2.43.0


From cb58e0ab2413242ee9a483e08ade57e545c65aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:49 +0000
Subject: [PATCH 33/38] fix: subclasses of the penalty classes are penalised
 like their base class

The penalty was called by the name of its class, so a subclass of DynamicPenalty
got no generation (no penalty at all) and one of AdaptivePenalty raised
TypeError.
---
 baumeva/ga/fitness/base_fitness.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fcdee94..72c0550 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -1,6 +1,6 @@
 from abc import ABC, abstractmethod
 from typing import Union, Callable, List, Any
-from baumeva.ga import BasePenalty
+from baumeva.ga import BasePenalty, DynamicPenalty, AdaptivePenalty, StaticPenalty
 from baumeva.ga.ga_data import GaData
 from warnings import warn
 
@@ -81,11 +81,11 @@ class BaseFitness(ABC):
         :param idx_generation: the index of the current generation.
         :return: the calculated penalty value.
         """
-        if self.penalty.name() == 'DynamicPenalty':
+        if isinstance(self.penalty, DynamicPenalty):
             return self.penalty.execute(conditionals=self.conditions, values=values, iter_generation=idx_generation)
-        elif self.penalty.name() == 'AdaptivePenalty':
+        elif isinstance(self.penalty, AdaptivePenalty):
             return self.penalty.execute(conditionals=self.conditions, values=values, iter_generation=idx_generation, best_individ = best_individ)
-        elif self.penalty.name() == 'StaticPenalty':
+        elif isinstance(self.penalty, StaticPenalty):
             return self.penalty.execute(conditionals=self.conditions, values=values,)
         else:
             return self.penalty.execute(conditionals=self.conditions, values=values)
-- 
2.43.0


From a2bc4956e3e241609117d805ff9fef8a08dea5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:34 +0000
Subject: [PATCH 34/38] fix: the average score of a VEGA population can be
 calculated

get_avg_score() of MultiGaData added a list of scores to a number.
---
 baumeva/ga/multi_ga_data.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/baumeva/ga/multi_ga_data.py b/baumeva/ga/multi_ga_data.py
index a674135..7982591 100644
--- a/baumeva/ga/multi_ga_data.py
+++ b/baumeva/ga/multi_ga_data.py
@@ -19,17 +19,15 @@ class MultiGaData(GaData):
         """
         super().__init__(num_generations, children_percent, early_stop)
 
-    def get_avg_score(self) -> float:
+    def get_avg_score(self) -> Union[float, List[float]]:
         """
         Calculate and return the average score of the current population.
 
-        :return: аverage score of the population.
+        :return: аverage score of the population, one per objective for VEGA.
         """
-        avg = 0
-        for individ in self.population:
-            avg += individ['score']
-        avg /= len(self.population)
-        return avg
+        if not isinstance(self.population[0]['score'], list):
+            return super().get_avg_score()
+        return [sum(scores) / len(self.population) for scores in zip(*(ind['score'] for ind in self.population))]
 
     def update(self) -> None:
         """
-- 
2.43.0


From 768f28207a84fcb32efcc24a4d5bfdbaee5f3a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 35/38] fix: one infinite objective value does not disable
 balanced selection

A score of minus infinity made all cumulative probabilities NaN, so the last
two individuals were chosen for every pair. Such an individual now has no share.
---
 baumeva/ga/selections/balanced_selection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 38d9202..0b4575b 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -1,4 +1,5 @@
 from bisect import bisect_right
+from math import inf
 from random import random
 from copy import deepcopy
 from .base_selection import BaseSelection
@@ -47,9 +48,10 @@ class BalancedSelection(BaseSelection):
         :param scores: scores of individuals.
         :return: None
         """
-        min_score = min(scores)
+        min_score = min((score for score in scores if score != -inf), default=0)
         if min_score < 0:
             scores = [score - min_score for score in scores]
+        scores = [max(0, score) for score in scores]
         sum_scores = sum(scores)
         if sum_scores == 0:
             scores, sum_scores = [1] * len(scores), len(scores)
-- 
2.43.0


From 1eb35d5db38b82603e05e30a1433c91a9df1da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:27 +0000
Subject: [PATCH 36/38] fix: an infinite constraint violation does not make
 scores NaN in generation 0

Zero times infinity is NaN, and a NaN score can become the best solution and
never be replaced. A penalty factor of zero now means no penalty.
---
 baumeva/ga/penalties/adaptive_penalty.py | 3 ++-
 baumeva/ga/penalties/dynamic_penalty.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/penalties/adaptive_penalty.py b/baumeva/ga/penalties/adaptive_penalty.py
index ea23c53..0da7f20 100644
--- a/baumeva/ga/penalties/adaptive_penalty.py
+++ b/baumeva/ga/penalties/adaptive_penalty.py
@@ -59,5 +59,6 @@ class AdaptivePenalty(BasePenalty):
         else:
             lambda_ = 0 
 
-        self.penalty = self.delta * lambda_ * self.sum_conditional
+        factor = self.delta * lambda_
+        self.penalty = factor * self.sum_conditional if factor else 0
         return self.penalty
diff --git a/baumeva/ga/penalties/dynamic_penalty.py b/baumeva/ga/penalties/dynamic_penalty.py
index 9e2626a..c323468 100644
--- a/baumeva/ga/penalties/dynamic_penalty.py
+++ b/baumeva/ga/penalties/dynamic_penalty.py
@@ -35,5 +35,6 @@ class DynamicPenalty(BasePenalty):
         :return: self.penalty.
         """
         super().execute(conditionals, values)
-        self.penalty = self.delta * ((self.c * iter_generation) ** self.alpha) * self.sum_conditional
+        factor = self.delta * ((self.c * iter_generation) ** self.alpha)
+        self.penalty = factor * self.sum_conditional if factor else 0
         return self.penalty
-- 
2.43.0


From 04c45aeef9570ad2b5a019a52a013c2c96d725c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:07 +0000
Subject: [PATCH 37/38] fix: convert numpy numbers returned by the objective,
 whose fixed width arithmetic overflows

---
 baumeva/ga/fitness/base_fitness.py  | 15 ++++++++++++---
 baumeva/ga/fitness/multi_fitness.py |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index 72c0550..9195fdc 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -90,6 +90,15 @@ class BaseFitness(ABC):
         else:
             return self.penalty.execute(conditionals=self.conditions, values=values)
 
+    @staticmethod
+    def to_number(value: Union[int, float]) -> Union[int, float]:
+        """
+        Converts numpy numbers to python ones, whose arithmetic does not overflow.
+        :param value: value returned from objective function.
+        :return: the same value as python number.
+        """
+        return value.item() if hasattr(value, 'item') else value
+
     def check_input(self, values: List[Union[int, float]]) -> List[Union[int, float]]:
         """
         Checks whether the number of values returned from objective function is correct.
@@ -102,15 +111,15 @@ class BaseFitness(ABC):
                     raise Exception(f'Number of returned values from objective function must equal length conditions')
             except TypeError:
                 raise Exception(f'For conditional optimization the objective function must return more then 1 value.')
-            return list(values)
+            return [self.to_number(value) for value in values]
         else:
             try:
                 if len(values) > 1:
                     raise Exception(f'Number of returned values from objective function for non-conditional'
                                     f' optimization must be equal 1')
-                return values[0]
+                return self.to_number(values[0])
             except TypeError:
-                return values
+                return self.to_number(values)
 
     def calc_obj_func(self, genotype: List[Union[int, float]]) -> Union[int, float, list]:
         """
diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index c589c8e..1d82fce 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -90,7 +90,7 @@ class MultiFitness(BaseFitness):
         :param values: values of objective function.
         :return: values.
         """
-        return list(values)
+        return [self.to_number(value) for value in values]
 
     def set_obj_score(self, values: List[Union[int, float]], individ: dict) -> None:
         """
-- 
2.43.0


From fe00ec6c275ebcb3a5c2495b72c6c4551f8d7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:01 +0000
Subject: [PATCH 38/38] fix: two offsprings of uniform crossover do not share
 their genotype list

---
 baumeva/ga/crossovers/uniform_crossover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/crossovers/uniform_crossover.py b/baumeva/ga/crossovers/uniform_crossover.py
index 4d61d34..46b63bc 100644
--- a/baumeva/ga/crossovers/uniform_crossover.py
+++ b/baumeva/ga/crossovers/uniform_crossover.py
@@ -27,7 +27,7 @@ class UniformCrossover(BaseCrossover):
             else:
                 new_gens.append(parent_2[i])
         child_1['genotype'] = new_gens
-        child_2['genotype'] = new_gens
+        child_2['genotype'] = new_gens.copy()
 
         return child_1, child_2
 
-- 
2.43.0


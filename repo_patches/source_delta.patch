From 834039040ae5da2fafbfd4ef0373467019a4c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:26 +0000
Subject: [PATCH 01/17] fix: CategoricalMutation accepts the documented string
 mutation levels

mutation_map does not exist on this class, so the default level "normal" raised AttributeError.
---
 baumeva/ga/mutations/categorical_mutation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index a7e4128..32da02e 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -22,9 +22,7 @@ class CategoricalMutation(BaseMutation):
         :return: None
         """
         if type(self.mutation_lvl) is str:
-            if self.mutation_lvl in self.mutation_map.keys():
-                self.mutation_lvl = self.mutation_map[self.mutation_lvl]
-            else:
+            if self.mutation_lvl not in ['weak', 'normal', 'strong']:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
@@ -91,5 +89,6 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
             self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
-- 
2.43.0


From 9016088d77a17952c995e4560421eaf42b122c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 02/17] fix: mutation level 0 never mutates

The draw 0 satisfied 0 <= 0, so level 0.0 still mutated once in 1000 draws.
---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index a7b8505..449a663 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -48,7 +48,7 @@ class BaseCombinatoryMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index 09d73ef..d51ffd1 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -56,7 +56,7 @@ class BinStringMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples-1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples-1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 32da02e..7b92faf 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -54,7 +54,7 @@ class CategoricalMutation(BaseMutation):
 
         :return: True if mutation should be performed, False otherwise.
         """
-        if randint(0, self.rnd_samples - 1) <= self.mutation_lvl * self.rnd_samples:
+        if randint(0, self.rnd_samples - 1) < self.mutation_lvl * self.rnd_samples:
             return True
         else:
             return False
-- 
2.43.0


From 68a57848c6ca9b48072f6e344e8bb9ec5fb27864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 03/17] fix: proportional selection never indexes past the
 population

The cumulative sum can stay below 1 by rounding, so a draw above it selected index len(population).
---
 baumeva/ga/selections/balanced_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/balanced_selection.py b/baumeva/ga/selections/balanced_selection.py
index 8830793..63cbd56 100644
--- a/baumeva/ga/selections/balanced_selection.py
+++ b/baumeva/ga/selections/balanced_selection.py
@@ -53,7 +53,8 @@ class BalancedSelection(BaseSelection):
         """
         rand_value = random()
         idx = min(range(len(self.selection_scores)), key=lambda i: abs(self.selection_scores[i] - rand_value))
-        return idx if rand_value >= self.selection_scores[idx] else idx - 1
+        idx = idx if rand_value >= self.selection_scores[idx] else idx - 1
+        return min(idx, len(self.selection_scores) - 2)
 
     def balanced_selection(self, ga_data: GaData):
         """
-- 
2.43.0


From 12380aecdda511a793feb7225bb6402ccfc40a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 04/17] fix: VEGABalancedSelection keeps the parents of every
 objective

The parents list was reset for each objective, so only the last objective contributed.
---
 baumeva/ga/selections/vega_balanced_selection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/selections/vega_balanced_selection.py b/baumeva/ga/selections/vega_balanced_selection.py
index 896c1cd..4185ea7 100644
--- a/baumeva/ga/selections/vega_balanced_selection.py
+++ b/baumeva/ga/selections/vega_balanced_selection.py
@@ -1,4 +1,5 @@
 from .balanced_selection import BalancedSelection
+from .base_selection import BaseSelection
 from baumeva.ga import MultiGaData
 
 
@@ -51,5 +52,7 @@ class VEGABalancedSelection(BalancedSelection):
         :param ga_data: MultiGaData instance containing population and related data.
         :return: None
         """
+        BaseSelection.execute(self, ga_data)
         for self.idx in range(self.num_objectives):
-            super().execute(ga_data)
+            self.add_probabilities(ga_data)
+            self.balanced_selection(ga_data)
-- 
2.43.0


From 807abf631a6f791912e1b3a40df19d97f75ad75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 05/17] fix: ranked selections rank a score of -1 correctly

-1 is a legal score, but it was also the "no previous score" sentinel.
---
 baumeva/ga/selections/ranked_selection.py      | 2 +-
 baumeva/ga/selections/vega_ranked_selection.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/selections/ranked_selection.py b/baumeva/ga/selections/ranked_selection.py
index f961294..1acb1e6 100644
--- a/baumeva/ga/selections/ranked_selection.py
+++ b/baumeva/ga/selections/ranked_selection.py
@@ -25,7 +25,7 @@ class RankedSelection(BalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index cd7d837..7de4291 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -25,7 +25,7 @@ class VEGARankedSelection(VEGABalancedSelection):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
-        prev_score = -1
+        prev_score = None
         count = 1
         for idx in range(len(ga_data.population)):
             rank = idx + 1
-- 
2.43.0


From 9486ec92b5caa1459bec957ccebd39593fc7df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 06/17] fix: VEGARankedSelection ranks by the objective's own
 score

Ranks were positions in the population, which is not sorted by that objective.
---
 baumeva/ga/selections/vega_ranked_selection.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/baumeva/ga/selections/vega_ranked_selection.py b/baumeva/ga/selections/vega_ranked_selection.py
index 7de4291..d1850e2 100644
--- a/baumeva/ga/selections/vega_ranked_selection.py
+++ b/baumeva/ga/selections/vega_ranked_selection.py
@@ -27,19 +27,20 @@ class VEGARankedSelection(VEGABalancedSelection):
         """
         prev_score = None
         count = 1
-        for idx in range(len(ga_data.population)):
+        ordered = sorted(ga_data.population, key=lambda ind: ind['score'][self.idx])
+        for idx in range(len(ordered)):
             rank = idx + 1
-            ga_data.population[idx]['rank'][self.idx] = rank
-            if ga_data.population[idx]['score'][self.idx] == prev_score:
+            ordered[idx]['rank'][self.idx] = rank
+            if ordered[idx]['score'][self.idx] == prev_score:
                 count += 1
-                if rank == len(ga_data.population):
+                if rank == len(ordered):
                     for _idx in range(rank - count, rank):
-                        ga_data.population[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
+                        ordered[_idx]['rank'][self.idx] = (sum(range(rank - count, rank)) + count) / count
             elif count > 1:
                 for _idx in range(idx - count, idx):
-                    ga_data.population[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
+                    ordered[_idx]['rank'][self.idx] = (sum(range(idx - count, idx)) + count) / count
                 count = 1
-            prev_score = ga_data.population[idx]['score'][self.idx]
+            prev_score = ordered[idx]['score'][self.idx]
         super().add_probabilities(ga_data)
 
     def execute(self, ga_data: MultiGaData) -> None:
-- 
2.43.0


From 42217ff285823736c56d1239c77b9e22e3e70fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 07/17] fix: multi-objective scores keep the order of the
 objectives

With conditions the objectives were recorded in reverse order, so obj_value targets were paired with the wrong objective.
---
 baumeva/ga/fitness/multi_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index 1e36a18..eafaafe 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -88,7 +88,7 @@ class MultiFitness(BaseFitness):
         """
         individ['obj_score'] = []
         for idx in self.__idx_opt_value:
-            individ['obj_score'].append(values.pop(idx))
+            individ['obj_score'].insert(0, values.pop(idx))
 
     def inferior(self, x: dict, y: dict) -> Union[dict, None]:
         """
-- 
2.43.0


From c8eb3a8bc1743783ebee31c283ed7f3375491d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:54 +0000
Subject: [PATCH 08/17] fix: the caller's conditions list is not modified

'optimize' was removed from the caller's own list, so a second optimize() failed.
---
 baumeva/ga/fitness/base_fitness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index fc4238b..a4d2aae 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -48,7 +48,7 @@ class BaseFitness(ABC):
         self.obj_value = obj_value
         self.input_data = input_data
         self.penalty = penalty
-        self.conditions = ['optimize'] if conditions is None else conditions
+        self.conditions = ['optimize'] if conditions is None else list(conditions)
         self.check_task()
 
     def set_opt_value(self) -> None:
-- 
2.43.0


From 8235dae7496b062b93ec2e7ec17cf19320f7ea46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 09/17] fix: input_data is passed to every call of the
 objective, falsy or not

Falsy input_data (0, [], {}) was dropped, and VEGA/FFGA ranked without it; VEGA probed the number of objectives at 0, which may lie outside the declared ranges.
---
 baumeva/ga/fitness/base_fitness.py  | 2 +-
 baumeva/ga/fitness/multi_fitness.py | 4 ++--
 baumeva/vega.py                     | 8 ++++++--
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/baumeva/ga/fitness/base_fitness.py b/baumeva/ga/fitness/base_fitness.py
index a4d2aae..acffe2c 100644
--- a/baumeva/ga/fitness/base_fitness.py
+++ b/baumeva/ga/fitness/base_fitness.py
@@ -118,7 +118,7 @@ class BaseFitness(ABC):
         :param genotype: the genotype of an individual.
         :return: one or more values.
         """
-        if self.input_data:
+        if self.input_data is not None:
             values = self.obj_function(self.input_data, genotype)
         else:
             values = self.obj_function(genotype)
diff --git a/baumeva/ga/fitness/multi_fitness.py b/baumeva/ga/fitness/multi_fitness.py
index eafaafe..e61f48a 100644
--- a/baumeva/ga/fitness/multi_fitness.py
+++ b/baumeva/ga/fitness/multi_fitness.py
@@ -98,8 +98,8 @@ class MultiFitness(BaseFitness):
         :param y: dict, second individual data.
         :return: dict, containing the inferior of x and y if there is one, None if there are no inferior individuals
         """
-        x_score = list(self.obj_function(x['phenotype']))
-        y_score = list(self.obj_function(y['phenotype']))
+        x_score = self.calc_obj_func(x['phenotype'])
+        y_score = self.calc_obj_func(y['phenotype'])
 
         if x_score == y_score:
             return None
diff --git a/baumeva/vega.py b/baumeva/vega.py
index 67ce193..f6506eb 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -69,8 +69,12 @@ class VEGA:
         :return: GaData
         """
         # init GaData & Population
-        num_objectives = len(self.obj_function([0]*len(self.gens))) if self.conditions is None\
-            else self.conditions.count('optimize')
+        if self.conditions is None:
+            probe = [gen[0] for gen in self.gens]
+            values = self.obj_function(probe) if self.input_data is None else self.obj_function(self.input_data, probe)
+            num_objectives = len(values)
+        else:
+            num_objectives = self.conditions.count('optimize')
         ga_data = MultiGaData(num_generations=self.num_generations, children_percent=self.children_percent,
                               early_stop=self.early_stop)
         if self.is_gray:
-- 
2.43.0


From 72ef93fe2497301edc10a6eea6b4f0b72ea98439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 10/17] fix: VEGA uses the tournament_size it is given

---
 baumeva/vega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baumeva/vega.py b/baumeva/vega.py
index f6506eb..d96cba5 100644
--- a/baumeva/vega.py
+++ b/baumeva/vega.py
@@ -87,7 +87,7 @@ class VEGA:
         fitness_func = VEGAHyperbolaFitness(obj_function=self.obj_function, obj_value=self.obj_value,
                                             input_data=self.input_data, penalty=self.penalty,
                                             conditions=self.conditions)
-        selection = VEGATournamentSelection(num_objectives=num_objectives)
+        selection = VEGATournamentSelection(num_objectives=num_objectives, tournament_size=self.tournament_size)
         cross = OnePointCrossover()
         mutation = BinStringMutation(mutation_lvl=self.mutation_lvl)
         new_generation = NewGeneration(transfer_parents=self.transfer_parents)
-- 
2.43.0


From 90248e7df37491f08c7274e2a8f28a1c79df936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 11/17] fix: a decoded gene never exceeds its declared maximum

min + index * step can round above max, e.g. gens (-0.5, -0.23, 0.1).
---
 baumeva/ga/populations/binary_gray_population.py | 2 +-
 baumeva/ga/populations/binary_population.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/baumeva/ga/populations/binary_gray_population.py b/baumeva/ga/populations/binary_gray_population.py
index 9c3af6d..a447564 100644
--- a/baumeva/ga/populations/binary_gray_population.py
+++ b/baumeva/ga/populations/binary_gray_population.py
@@ -45,7 +45,7 @@ class BinaryGrayPopulation(BinaryPopulation):
             index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
             index_point = self.get_index_from_gray(index_point)
             point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
-            phenotype.append(point)
+            phenotype.append(min(point, self.gens[gen_idx][1]))
         return phenotype
 
     @staticmethod
diff --git a/baumeva/ga/populations/binary_population.py b/baumeva/ga/populations/binary_population.py
index 1c9fdd4..6bf4a30 100644
--- a/baumeva/ga/populations/binary_population.py
+++ b/baumeva/ga/populations/binary_population.py
@@ -114,7 +114,7 @@ class BinaryPopulation(BasePopulation):
         for gen_idx, gen_item in enumerate(self.gens):
             index_point = int(genotype_str[self.idx_bits[gen_idx]:self.idx_bits[gen_idx + 1]], 2)
             point = self.gens[gen_idx][0] + index_point * self.real_step[gen_idx]
-            phenotype.append(point)
+            phenotype.append(min(point, self.gens[gen_idx][1]))
         return phenotype
 
     def get_phenotype(self):
-- 
2.43.0


From 4cc43d15d385b400a9fe4de64d1b2a8b0122ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 12/17] fix: FFGA fitness follows the current Pareto rank

Ranks are recomputed every generation, but the score of a surviving individual kept its old rank.
---
 baumeva/ga/fitness/ffga_fitness.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/baumeva/ga/fitness/ffga_fitness.py b/baumeva/ga/fitness/ffga_fitness.py
index f90cfa1..b104fbc 100644
--- a/baumeva/ga/fitness/ffga_fitness.py
+++ b/baumeva/ga/fitness/ffga_fitness.py
@@ -36,3 +36,5 @@ class FFGAFitness(MultiFitness):
         """
 
         super().execute(ga_data)
+        for individ in ga_data.population:
+            individ['score'] = self.get_fitness_score(individ)
-- 
2.43.0


From 812474402a25866be2dd56d958f7344a8419c2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 13/17] fix: StaticPenalty penalises violated conditions

The equality test was inverted, inequalities used the equality coefficients, and every value outside the first
interval raised.
---
 baumeva/ga/penalties/static_penalty.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/baumeva/ga/penalties/static_penalty.py b/baumeva/ga/penalties/static_penalty.py
index 62ec694..1d3b238 100644
--- a/baumeva/ga/penalties/static_penalty.py
+++ b/baumeva/ga/penalties/static_penalty.py
@@ -43,23 +43,25 @@ class StaticPenalty(BasePenalty):
 
         for i, conditional in enumerate(conditionals):
             if conditional == '!=':
-                if values[i] != 0:
+                if values[i] == 0:
                     res = 0
                     continue
                 for idx, val in enumerate(self.equality_intervals[i]):
-                    if val[0] < values[i] < val[1]:
+                    if val[0] < abs(values[i]) < val[1]:
                         res = self.equality_r_coef[i][idx] * abs(values[i])
-                    else: 
-                        raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
+                        break
+                else:
+                    raise Exception(f"Unexpected equality intervals: {self.equality_intervals[i]}")
             elif conditional == '<=':
                 if values[i] <= 0:
                     res = 0
                     continue
                 for idx, val in enumerate(self.inequality_intervals[i]):
                     if val[0] < values[i] < val[1]:
-                        res = self.equality_r_coef[i][idx] * max(0, values[i])
-                    else:
-                        raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
+                        res = self.inequality_r_coef[i][idx] * max(0, values[i])
+                        break
+                else:
+                    raise Exception(f"Unexpected inequality intervals: {self.inequality_intervals[i]}")
             else:
                 raise Exception(f'Unexpected sign for conditionals: {conditional}, please use "!=" or "<="')
             self.sum_conditional += res ** self.power
-- 
2.43.0


From 864171c7b51c92ee17aca30ffca7c351d18a7cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 14/17] fix: transfer_parents='random' works when the
 population has fewer parents than elites

FFGA always asks for 10 elites, so any population of 10 or fewer raised ValueError.
---
 baumeva/ga/new_generation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index 64d964c..d9943c8 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -72,6 +72,7 @@ class NewGeneration:
         if self.transfer_parents == 'best':
             elites = self.add_best(ga_data, num_elites)
         else:
+            num_elites = min(num_elites, len(ga_data.population) - 1)
             elites = sample(ga_data.population[:-1], num_elites)
             loop_counter = 0
             while ga_data.population.is_duplicate(elites):
-- 
2.43.0


From 601450049ab19b854ee0de3827f9eefe9fa2acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:37 +0000
Subject: [PATCH 15/17] fix: elites added to fill the generation are
 individuals of their own

---
 baumeva/ga/new_generation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/new_generation.py b/baumeva/ga/new_generation.py
index d9943c8..474322c 100644
--- a/baumeva/ga/new_generation.py
+++ b/baumeva/ga/new_generation.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from random import sample
 from .ga_data import GaData
 
@@ -52,7 +53,7 @@ class NewGeneration:
 
                 z_counter += 1
                 if -num_elites - 1 - z_counter < 0:
-                    elites[0:0] = sample(ga_data.population, num_elites + 1 - len(elites))
+                    elites[0:0] = deepcopy(sample(ga_data.population, num_elites + 1 - len(elites)))
                     break
                 elites.insert(0, ga_data.population[-num_elites - 1 - z_counter])
                 loop_counter += 1
-- 
2.43.0


From 811d1b9ccd607c1d9cc92ebf65890feea2ae4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:36 +0000
Subject: [PATCH 16/17] fix: a NaN mutation level is rejected like any other
 level outside [0, 1]

---
 baumeva/ga/mutations/base_combinatory_mutation.py | 2 +-
 baumeva/ga/mutations/bin_string_mutation.py       | 2 +-
 baumeva/ga/mutations/categorical_mutation.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/baumeva/ga/mutations/base_combinatory_mutation.py b/baumeva/ga/mutations/base_combinatory_mutation.py
index 449a663..544d135 100644
--- a/baumeva/ga/mutations/base_combinatory_mutation.py
+++ b/baumeva/ga/mutations/base_combinatory_mutation.py
@@ -35,7 +35,7 @@ class BaseCombinatoryMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index d51ffd1..ff5293e 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -29,7 +29,7 @@ class BinStringMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 7b92faf..74b2a03 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -26,7 +26,7 @@ class CategoricalMutation(BaseMutation):
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         elif type(self.mutation_lvl) is float:
-            if self.mutation_lvl < 0 or self.mutation_lvl > 1:
+            if not 0 <= self.mutation_lvl <= 1:
                 raise Exception(f'{self.mutation_lvl} is not expected, please use one of this:'
                                 f' ("normal", "weak", "strong") or float value from 0 to 1')
         else:
-- 
2.43.0


From fcdd866845fdf94717e04e18f0b89f4f9469831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:12 +0000
Subject: [PATCH 17/17] fix: a named mutation level follows the length of the
 current genotype

---
 baumeva/ga/mutations/bin_string_mutation.py  | 2 ++
 baumeva/ga/mutations/categorical_mutation.py | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/baumeva/ga/mutations/bin_string_mutation.py b/baumeva/ga/mutations/bin_string_mutation.py
index ff5293e..41228f8 100644
--- a/baumeva/ga/mutations/bin_string_mutation.py
+++ b/baumeva/ga/mutations/bin_string_mutation.py
@@ -83,6 +83,8 @@ class BinStringMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        mutation_lvl = self.mutation_lvl
         self.update_mutation_lvl(ga_data.population.idx_bits[-1])
         for child in ga_data.children:
             self.get_mutation(child)
+        self.mutation_lvl = mutation_lvl
diff --git a/baumeva/ga/mutations/categorical_mutation.py b/baumeva/ga/mutations/categorical_mutation.py
index 74b2a03..4322c10 100644
--- a/baumeva/ga/mutations/categorical_mutation.py
+++ b/baumeva/ga/mutations/categorical_mutation.py
@@ -89,6 +89,8 @@ class CategoricalMutation(BaseMutation):
         :param ga_data: GaData instance containing population and related data.
         :return: None
         """
+        mutation_lvl = self.mutation_lvl
         self.update_mutation_lvl(len(ga_data.population.gens))
         for child in ga_data.children:
-            self.get_mutation(child, ga_data.population.gens)
\ No newline at end of file
+            self.get_mutation(child, ga_data.population.gens)
+        self.mutation_lvl = mutation_lvl
-- 
2.43.0


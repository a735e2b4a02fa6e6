From dda167fa12123efce75f9481e6fd4deb6ac19b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 1/8] fix: order crossover with an empty range

With an empty range in front of the end the fill loop did not run and the
offspring was parent1[0] repeated; with n..n it never ended.
---
 src/operators/crossover.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index ef05a53..7a3a057 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -492,6 +492,11 @@ where
 
     let p1 = range.start;
     let p2 = range.end;
+    if p1 == p2 {
+        // Nothing is taken from parent1
+        return parent2.to_vec();
+    }
+
     let mut genome = vec![parent1[0]; n];
 
     // Copy the genes from the range in parent1 to the offspring
-- 
2.43.0


From d233f725d48d1b2b1aa6ae8c7a3c170befc9dd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 2/8] fix: crossover of genomes with different lengths, and of
 empty genomes

CrossoverStrategy::crossover is documented to panic for different lengths, but
GPX2 returned a genome. Two empty genomes, which the operators themselves
accept, panicked while the cut points were drawn.
---
 src/operators/crossover.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/operators/crossover.rs b/src/operators/crossover.rs
index 7a3a057..dcd3dae 100644
--- a/src/operators/crossover.rs
+++ b/src/operators/crossover.rs
@@ -71,6 +71,12 @@ impl CrossoverStrategy {
         parent2: &[G],
         rng: &mut R,
     ) -> Vec<G> {
+        assert!(parent1.len() == parent2.len());
+
+        if parent1.is_empty() {
+            return Vec::new();
+        }
+
         match self {
             Self::GeneralizedPartition2 => {
                 generalized_partition_2_crossover(parent1, parent2, |_, partitions| {
-- 
2.43.0


From cf321f4f12d835fc0f0281c2ddc1ee38e5e455bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 3/8] fix: linear selection could leave the population

The scaled random number can reach the population size, by rounding or for a
bias above 2, and the index then underflowed.
---
 src/operators/selection.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index abdaa27..e591361 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,14 +464,13 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let index = population.len()
-            - ((population.len() as f64)
-                * (self.bias
-                    - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>())
-                        .sqrt()))
-                / 2.0
-                / (self.bias - 1.0)) as usize
-            - 1;
+        let rank = ((population.len() as f64)
+            * (self.bias
+                - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>()).sqrt()))
+            / 2.0
+            / (self.bias - 1.0)) as usize;
+        // The quotient can reach the population size
+        let index = population.len() - 1 - rank.min(population.len() - 1);
         (index, &population[index])
     }
 }
-- 
2.43.0


From 10b80a369bd52ce767f1ab0554e0800d249014db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 4/8] fix: equal individuals in a population

Only adjacent duplicates were removed, so that a duplicate survived when an
individual of the same fitness was sorted between the two.
---
 src/population.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/population.rs b/src/population.rs
index d96fb99..33d948a 100644
--- a/src/population.rs
+++ b/src/population.rs
@@ -129,7 +129,7 @@ impl<I: Individual> From<Population<I>> for Vec<I> {
 #[inline]
 fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> PopulatedStats {
     individuals.par_sort_unstable_by(compare_fitness);
-    individuals.dedup();
+    dedup_sorted(individuals);
     individuals
         .iter()
         .map(|i| i.fitness())
@@ -137,3 +137,23 @@ fn sort_dedup_and_collect_stats<I: Individual>(individuals: &mut Vec<I>) -> Popu
         .try_into()
         .unwrap()
 }
+
+/// Keeps the first of the equal individuals. Those have the same fitness, but there may be
+/// others of that fitness between them.
+#[inline]
+fn dedup_sorted<I: Individual>(individuals: &mut Vec<I>) {
+    let mut unique = 0;
+    for index in 0..individuals.len() {
+        let individual = &individuals[index];
+        let is_duplicate = individuals[..unique]
+            .iter()
+            .rev()
+            .take_while(|other| compare_fitness(*other, individual).is_eq())
+            .any(|other| other == individual);
+        if !is_duplicate {
+            individuals.swap(unique, index);
+            unique += 1;
+        }
+    }
+    individuals.truncate(unique);
+}
-- 
2.43.0


From 878741d5b9fa03828e8a286a6d27cc517c4818e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 5/8] fix: a single missing offspring was bred and dropped

---
 src/algorithms.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index bea0880..a25ecdd 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -219,8 +219,10 @@ pub trait EvolutionAlgorithm<M: EvolutionModel> {
             0 => {}
             1 => {
                 let mut rng = rng_pool.pull(M::rng);
-                self.model()
-                    .breed(population, breeding_parameters, &mut *rng);
+                offspring.push(
+                    self.model()
+                        .breed(population, breeding_parameters, &mut *rng),
+                );
             }
             size => {
                 offspring.par_extend(rayon::iter::repeatn(self.model(), size).map_init(
-- 
2.43.0


From a39d39f94930564b8cac366f7e325ea5a9b32091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 6/8] fix: rates of the adaptive algorithm without diversity

When the individuals of the initial and of the current population all have the
same fitness the diversity was 0 / 0, and both rates became NaN.
---
 src/algorithms/aga.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/aga.rs b/src/algorithms/aga.rs
index 17464f7..d88852a 100644
--- a/src/algorithms/aga.rs
+++ b/src/algorithms/aga.rs
@@ -203,7 +203,10 @@ impl<M: EvolutionModel> EvolutionAlgorithm<M> for AdaptiveGeneticAlgorithm<M> {
                 self.breeding.mutation_rate = self.mutation_rate_range.start;
             }
             n if self.adjustment_interval != 0 && n % self.adjustment_interval == 0 => {
-                let diversity = (population.stats().std() / self.reference_std).clamp(0.0, 1.0);
+                // There is no diversity when neither population has any (0 / 0)
+                let diversity = (population.stats().std() / self.reference_std)
+                    .max(0.0)
+                    .min(1.0);
 
                 self.breeding.crossover_rate = interpolate_f64(
                     self.crossover_rate_range.start,
-- 
2.43.0


From b3ae76d2eb889a02ed493282d201fd04036bd551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 7/8] fix: linear selection with a bias of 1

The slope is zero then and every individual should be as likely, but 0 / 0
made the fittest one the only choice. The rationalized form of the same root
has no division by bias - 1.
---
 src/operators/selection.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/operators/selection.rs b/src/operators/selection.rs
index e591361..f4bead3 100644
--- a/src/operators/selection.rs
+++ b/src/operators/selection.rs
@@ -464,11 +464,9 @@ where
 
     #[inline]
     fn select<'a>(&self, population: &'a Population<I>, rng: &mut R) -> (usize, &'a I) {
-        let rank = ((population.len() as f64)
-            * (self.bias
-                - ((self.bias * self.bias - 4.0 * (self.bias - 1.0) * rng.gen::<f64>()).sqrt()))
-            / 2.0
-            / (self.bias - 1.0)) as usize;
+        let target = rng.gen::<f64>();
+        let root = (self.bias * self.bias - 4.0 * (self.bias - 1.0) * target).sqrt();
+        let rank = ((population.len() as f64) * 2.0 * target / (self.bias + root)) as usize;
         // The quotient can reach the population size
         let index = population.len() - 1 - rank.min(population.len() - 1);
         (index, &population[index])
-- 
2.43.0


From 122fdf5511a94915a8c85b15a0ff0e1a7f31155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:27 +0000
Subject: [PATCH 8/8] fix: the best individual could be lost before the end of
 a run

run and evolve_individual promise the best individual found during the
execution, but returned the fittest of the last generation, which without
elitism can be worse than an earlier one.
---
 src/evolution.rs | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/evolution.rs b/src/evolution.rs
index 5fae56e..bf8650e 100644
--- a/src/evolution.rs
+++ b/src/evolution.rs
@@ -57,8 +57,7 @@ where
             parameters.initial_population_size(),
             args,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_fittest(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm with an initial population based on a single individual.
@@ -100,8 +99,7 @@ where
             parameters.initial_population_size(),
             individual,
         );
-        self.evolve_population(individuals, parameters, progress)
-            .take_fittest()
+        self.evolve_fittest(individuals, parameters, progress)
     }
 
     /// Runs the evolutionary algorithm on a given population.
@@ -181,6 +179,28 @@ where
 
         population
     }
+
+    /// Evolves a population and returns the fittest individual of all its generations. Without
+    /// elitism that is not necessarily in the last one.
+    fn evolve_fittest<F>(
+        &self,
+        initial_population: Vec<M::Individual>,
+        parameters: &A::Parameters,
+        mut progress: F,
+    ) -> M::Individual
+    where
+        F: FnMut(&Population<M::Individual>) -> bool,
+    {
+        let mut best: Option<M::Individual> = None;
+        let population = self.evolve_population(initial_population, parameters, |population| {
+            let fittest = population.fittest();
+            if !matches!(&best, Some(best) if best.fitness() >= fittest.fitness()) {
+                best = Some(fittest.clone());
+            }
+            progress(population)
+        });
+        best.unwrap_or_else(|| population.take_fittest())
+    }
 }
 
 impl<A, M> Default for Evolution<A, M>
-- 
2.43.0


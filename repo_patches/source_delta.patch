From 2c92f98d5cfe514955a49c2db9a90c44d43b60f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:13 +0000
Subject: [PATCH 01/26] fix: keep cached reference-set objectives paired with
 their points after the Stage 2 shuffle

---
 src/oqnlp.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fedebe2..a6c9621 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -699,7 +699,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         }
 
         // If we resumed from checkpoint, skip Stage 1 and jump to Stage 2
-        let (mut ref_set, mut unchanged_cycles, ref_objectives) = if resumed_from_checkpoint {
+        let (mut ref_set, mut unchanged_cycles, mut ref_objectives) = if resumed_from_checkpoint {
             #[cfg(feature = "checkpointing")]
             {
                 if self.verbose {
@@ -920,8 +920,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let mut rng: StdRng = StdRng::seed_from_u64(self.params.seed);
 
         // Shuffle reference set if starting fresh
+        // The cached objectives are reordered together with the points they belong to
         if !resumed_from_checkpoint {
-            ref_set.shuffle(&mut rng);
+            let mut order: Vec<usize> = (0..ref_set.len()).collect();
+            order.shuffle(&mut rng);
+            ref_set = order.iter().map(|&i| ref_set[i].clone()).collect();
+            ref_objectives =
+                ref_objectives.map(|objs| order.iter().map(|&i| objs[i]).collect::<Vec<f64>>());
         }
 
         let start_timer: Option<std::time::Instant> =
-- 
2.43.0


From 3b15dfcfd78ac72036847f2d5bb2c76a276b6519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:47 +0000
Subject: [PATCH 02/26] fix: a NaN or infinite local solution no longer blocks
 better ones

---
 src/filters.rs |  3 ++-
 src/oqnlp.rs   | 14 ++++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index d15fcd2..7381f5b 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -131,7 +131,8 @@ impl MeritFilter {
     }
 
     pub fn update_threshold(&mut self, threshold: f64) {
-        self.threshold = threshold;
+        // NaN compares false with everything and would block every later candidate
+        self.threshold = if threshold.is_nan() { f64::INFINITY } else { threshold };
     }
 
     /// Check if the given value is below the threshold
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index a6c9621..5701580 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1117,10 +1117,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         let obj1 = solution.objective;
         let obj2 = current_best.objective;
 
-        let obj_diff = (obj1 - obj2).abs();
-        let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+        let (improves, similar) = if obj1.is_finite() && obj2.is_finite() {
+            let tol = abs_tol.max(rel_tol * obj1.abs().max(obj2.abs()));
+            (obj1 < obj2 - tol, (obj1 - obj2).abs() <= tol)
+        } else {
+            // Tolerances are meaningless for non-finite objectives: order them plainly,
+            // with NaN worse than any number
+            (obj1 < obj2 || (obj2.is_nan() && !obj1.is_nan()), obj1 == obj2)
+        };
 
-        let added: bool = if obj1 < obj2 - tol {
+        let added: bool = if improves {
             // Found new best solution
             self.solution_set =
                 Some(SolutionSet { solutions: Array1::from(vec![solution.clone()]) });
@@ -1142,7 +1148,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             }
 
             false
-        } else if obj_diff <= tol && !self.is_duplicate_in_set(&solution, &solutions) {
+        } else if similar && !self.is_duplicate_in_set(&solution, &solutions) {
             // Similar objective value and not duplicate, add to set
             let mut new_solutions: Vec<LocalSolution> = solutions.to_vec();
             new_solutions.push(solution.clone());
-- 
2.43.0


From 2678f0a1d2500861d4eda1d14523973f2f45396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:48 +0000
Subject: [PATCH 03/26] fix: trial points can replace reference points whose
 objective is NaN

---
 src/scatter_search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index e3787af..2aa8e74 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -794,7 +794,8 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             }
 
             let obj = self.problem.objective(point).ok()?;
-            if obj < worst_obj { Some((point.clone(), obj)) } else { None }
+            // NaN sorts last, so any number improves on a NaN worst point
+            if obj.total_cmp(&worst_obj).is_lt() { Some((point.clone(), obj)) } else { None }
         };
 
         #[cfg(feature = "rayon")]
-- 
2.43.0


From 85ffe073ab1fde7109428d1f636cbacf2bfe2df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:06 +0000
Subject: [PATCH 04/26] fix: order NaN objectives last whatever their sign bit

---
 src/oqnlp.rs          |  6 +++---
 src/scatter_search.rs | 18 +++++++++---------
 src/types.rs          |  7 ++++++-
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 5701580..d903f8f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -130,7 +130,7 @@ use crate::local_solver::runner::LocalSolver;
 use crate::observers::Observer;
 use crate::problem::Problem;
 use crate::scatter_search::ScatterSearch;
-use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet};
+use crate::types::{FilterParams, LocalSolution, OQNLPParams, SolutionSet, cmp_objective};
 #[cfg(feature = "checkpointing")]
 use crate::{
     checkpoint::{CheckpointError, CheckpointManager},
@@ -753,11 +753,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         stage1.enter_substage("scatter_search_complete");
                         stage1.set_reference_set_size(ref_set.len());
                         // Find the best solution and its coordinates
-                        // Use total_cmp which provides total ordering (NaN > all values)
+                        // Total ordering with NaN after all values
                         if let Some((best_idx, &best_obj)) = ref_objectives
                             .iter()
                             .enumerate()
-                            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                            .min_by(|(_, a), (_, b)| cmp_objective(**a, **b))
                         {
                             stage1.set_best_solution(best_obj, &ref_set[best_idx]);
                         }
diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 2aa8e74..45c2e75 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -44,7 +44,7 @@
 
 use crate::observers::Observer;
 use crate::problem::Problem;
-use crate::types::OQNLPParams;
+use crate::types::{OQNLPParams, cmp_objective};
 use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
@@ -411,7 +411,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         // Sort reference set by objective value (best first) for k-selection
         let mut points_with_objectives: Vec<(Array1<f64>, f64)> =
             ref_set.into_iter().zip(objectives).collect();
-        points_with_objectives.sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        points_with_objectives.sort_unstable_by(|a, b| cmp_objective(a.1, b.1));
 
         let (sorted_points, sorted_objectives): (Vec<Array1<f64>>, Vec<f64>) =
             points_with_objectives.into_iter().unzip();
@@ -795,7 +795,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
             let obj = self.problem.objective(point).ok()?;
             // NaN sorts last, so any number improves on a NaN worst point
-            if obj.total_cmp(&worst_obj).is_lt() { Some((point.clone(), obj)) } else { None }
+            if cmp_objective(obj, worst_obj).is_lt() { Some((point.clone(), obj)) } else { None }
         };
 
         #[cfg(feature = "rayon")]
@@ -833,13 +833,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
         let k = ((pop_size as f64).sqrt() as usize).max(2).min(pop_size);
 
         // Partition so the k best elements are at the front (these will be the global best k)
-        all_points.select_nth_unstable_by(k - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(k - 1, |a, b| cmp_objective(a.1, b.1));
 
         // Now sort only the first k elements (these are guaranteed to be the k best globally)
-        all_points[..k].sort_unstable_by(|a, b| a.1.total_cmp(&b.1));
+        all_points[..k].sort_unstable_by(|a, b| cmp_objective(a.1, b.1));
 
         // Partition the remaining to get the pop_size best overall
-        all_points.select_nth_unstable_by(pop_size - 1, |a, b| a.1.total_cmp(&b.1));
+        all_points.select_nth_unstable_by(pop_size - 1, |a, b| cmp_objective(a.1, b.1));
 
         // Truncate to keep only pop_size points
         all_points.truncate(pop_size);
@@ -856,14 +856,14 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             self.reference_set_objectives
                 .par_iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|(_, a), (_, b)| cmp_objective(**a, **b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         } else {
             self.reference_set_objectives
                 .iter()
                 .enumerate()
-                .min_by(|(_, a), (_, b)| a.total_cmp(b))
+                .min_by(|(_, a), (_, b)| cmp_objective(**a, **b))
                 .map(|(idx, _)| idx)
                 .ok_or(ScatterSearchError::NoCandidates)?
         };
@@ -873,7 +873,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             .reference_set_objectives
             .iter()
             .enumerate()
-            .min_by(|(_, a), (_, b)| a.total_cmp(b))
+            .min_by(|(_, a), (_, b)| cmp_objective(**a, **b))
             .map(|(idx, _)| idx)
             .ok_or(ScatterSearchError::NoCandidates)?;
 
diff --git a/src/types.rs b/src/types.rs
index d8c2af4..eba681e 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -287,6 +287,11 @@ pub struct SolutionSet {
     pub solutions: Array1<LocalSolution>,
 }
 
+/// Orders objective values from best to worst, with NaN (of either sign) last.
+pub(crate) fn cmp_objective(a: f64, b: f64) -> std::cmp::Ordering {
+    a.is_nan().cmp(&b.is_nan()).then_with(|| a.total_cmp(&b))
+}
+
 impl SolutionSet {
     /// Returns the number of solutions stored in the set.
     pub fn len(&self) -> usize {
@@ -300,7 +305,7 @@ impl SolutionSet {
 
     /// Returns the best solution in the set based on the objective function value.
     pub fn best_solution(&self) -> Option<&LocalSolution> {
-        self.solutions.iter().min_by(|a, b| a.objective.total_cmp(&b.objective))
+        self.solutions.iter().min_by(|a, b| cmp_objective(a.objective, b.objective))
     }
 
     /// Returns an iterator over the solutions in the set.
-- 
2.43.0


From 1619646ab14c9ab46419089b4c75188b51bdf0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 05/26] fix: a checkpoint records the order and the next
 iteration of Stage 2, so a resumed run continues exactly

---
 src/oqnlp.rs | 90 ++++++++++++++++++++++------------------------------
 1 file changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index d903f8f..c154908 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -836,12 +836,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     .ok_or(OQNLPError::NoFeasibleSolution { candidates_evaluated: 0 });
             }
 
-            // Store reference set for checkpointing
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_reference_set = Some(ref_set.clone());
-            }
-
             // Observer: End Stage 1
             if let Some(ref mut observer) = self.observer {
                 if observer.should_observe_stage1() {
@@ -911,7 +905,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             StdRng::seed_from_u64(self.current_seed)
         } else {
             // Start fresh with base seed + current iteration
-            let seed = self.params.seed + self.current_iteration as u64;
+            let seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             self.current_seed = seed;
             StdRng::seed_from_u64(seed)
         };
@@ -927,6 +921,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set = order.iter().map(|&i| ref_set[i].clone()).collect();
             ref_objectives =
                 ref_objectives.map(|objs| order.iter().map(|&i| objs[i]).collect::<Vec<f64>>());
+
+            // Checkpoints keep the reference set in the order Stage 2 walks it
+            #[cfg(feature = "checkpointing")]
+            {
+                self.current_reference_set = Some(ref_set.clone());
+            }
         }
 
         let start_timer: Option<std::time::Instant> =
@@ -1469,7 +1469,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         // Create a temporary ScatterSearch instance to reuse its methods
         let temp_params = OQNLPParams {
             population_size: new_size,
-            seed: self.current_seed + ref_set.len() as u64,
+            seed: self.current_seed.wrapping_add(ref_set.len() as u64),
             ..self.params.clone()
         };
 
@@ -1598,9 +1598,12 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
     /// Save a checkpoint if checkpointing is enabled and conditions are met
     #[cfg(feature = "checkpointing")]
-    fn maybe_save_checkpoint(&self) -> Result<(), OQNLPError> {
+    fn maybe_save_checkpoint(&self, completed: usize) -> Result<(), OQNLPError> {
         if let Some(ref manager) = self.checkpoint_manager {
-            if self.current_iteration % manager.config().save_frequency == 0 {
+            // Save when the iterations just completed include a multiple of the frequency
+            let frequency = manager.config().save_frequency.max(1);
+            let before = self.current_iteration.saturating_sub(completed);
+            if self.current_iteration / frequency > before / frequency {
                 let checkpoint = self.create_checkpoint();
                 let saved_path = manager.save_checkpoint(&checkpoint, self.current_iteration)?;
 
@@ -1651,16 +1654,17 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 continue;
             }
 
+            // A checkpoint records the next iteration to process
             #[cfg(feature = "checkpointing")]
             {
-                self.current_iteration = local_iter;
+                self.current_iteration = local_iter + 1;
                 self.unchanged_cycles = *unchanged_cycles;
             }
 
             // Update the current seed for checkpointing
             #[cfg(feature = "checkpointing")]
             {
-                self.current_seed = self.params.seed + self.current_iteration as u64;
+                self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
             }
 
             let trial = trial.clone();
@@ -1767,6 +1771,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     self.adjust_threshold(self.merit_filter.threshold);
                     *unchanged_cycles = 0;
                 }
+
+                #[cfg(feature = "checkpointing")]
+                {
+                    self.unchanged_cycles = *unchanged_cycles;
+                }
             }
 
             // Invoke observer callback if set and frequency matches
@@ -1778,7 +1787,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
             // Save checkpoint if enabled and conditions are met
             #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
+            self.maybe_save_checkpoint(1)?;
         }
         Ok(())
     }
@@ -1846,15 +1855,16 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 passes_merit && passes_distance
             });
 
+        // The candidates of a batch are not processed in iteration order, so checkpoints are
+        // only taken between batches and record the first iteration of the next one
+        #[cfg(feature = "checkpointing")]
+        if let Some(&(last_iter, _)) = filtered_batch.last() {
+            self.current_iteration = last_iter + 1;
+            self.current_seed = self.params.seed.wrapping_add(self.current_iteration as u64);
+        }
+
         // Process quick candidates (no local search needed) sequentially for efficiency
         for (local_iter, _trial, _obj) in quick_candidates {
-            #[cfg(feature = "checkpointing")]
-            {
-                self.current_iteration = local_iter;
-                self.unchanged_cycles = *unchanged_cycles;
-                self.current_seed = self.params.seed + self.current_iteration as u64;
-            }
-
             *unchanged_cycles += 1;
             if *unchanged_cycles >= self.params.wait_cycle {
                 if self.verbose {
@@ -1886,9 +1896,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     observer.invoke_callback();
                 }
             }
+        }
 
-            #[cfg(feature = "checkpointing")]
-            self.maybe_save_checkpoint()?;
+        #[cfg(feature = "checkpointing")]
+        {
+            self.unchanged_cycles = *unchanged_cycles;
         }
 
         // Process local search candidates in parallel when there are enough to justify overhead
@@ -1928,13 +1940,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let added = self.process_local_solution(local_solution.clone())?;
 
@@ -1990,20 +1995,10 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             } else {
                 // Single local search - process directly without parallel overhead
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
 
                     // Only track evaluations if observer is active
@@ -2071,9 +2066,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
 
@@ -2081,13 +2073,6 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             {
                 // Sequential processing when Rayon is not available
                 for (local_iter, trial, obj) in local_candidates {
-                    #[cfg(feature = "checkpointing")]
-                    {
-                        self.current_iteration = local_iter;
-                        self.unchanged_cycles = *unchanged_cycles;
-                        self.current_seed = self.params.seed + self.current_iteration as u64;
-                    }
-
                     self.merit_filter.update_threshold(obj);
                     let local_trial = self
                         .local_solver
@@ -2113,12 +2098,13 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                         return Ok(());
                     }
-
-                    #[cfg(feature = "checkpointing")]
-                    self.maybe_save_checkpoint()?;
                 }
             }
         }
+
+        #[cfg(feature = "checkpointing")]
+        self.maybe_save_checkpoint(filtered_batch.len())?;
+
         Ok(())
     }
 }
-- 
2.43.0


From 1e4626ef3029bcac052f1b2e2fe3db36fd616bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 06/26] fix: a run resumed after reaching its target objective
 stops at once

---
 src/oqnlp.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index c154908..b22f459 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -965,6 +965,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             ref_set.iter().take(self.params.iterations).enumerate().skip(start_iter).collect();
 
         for batch in trials_to_process.chunks(effective_batch_size) {
+            // A run resumed after its target was reached has nothing left to do
+            if resumed_from_checkpoint && self.target_objective_reached() {
+                break;
+            }
+
             // Check timeout before processing each batch
             if let (Some(max_secs), Some(start)) = (self.max_time, start_timer) {
                 if start.elapsed().as_secs_f64() > max_secs {
-- 
2.43.0


From f1d4ee4e707cce211053e3d91e6c1223372817fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 07/26] fix: write checkpoints atomically

---
 src/checkpoint.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 5d7e878..6379045 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -60,7 +60,7 @@
 
 use crate::types::{CheckpointConfig, OQNLPCheckpoint};
 use std::fs;
-use std::io;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 use thiserror::Error;
 
@@ -245,7 +245,16 @@ impl CheckpointManager {
                 path: filepath.clone(),
                 source: e,
             })?;
-        fs::write(&filepath, encoded).map_err(|e| CheckpointError::IoError {
+        // Write to a temporary file first and rename it into place, so that a crash in the
+        // middle of a save never damages an existing checkpoint
+        let temp_path = filepath.with_extension("bin.tmp");
+        let write_temp = || -> io::Result<()> {
+            let mut file = fs::File::create(&temp_path)?;
+            file.write_all(&encoded)?;
+            file.sync_all()?;
+            fs::rename(&temp_path, &filepath)
+        };
+        write_temp().map_err(|e| CheckpointError::IoError {
             operation: "write".to_string(),
             path: filepath.clone(),
             source: e,
-- 
2.43.0


From 9fc5ad58f54ee3bd2e3a27135d5567fe3fb51668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 08/26] fix: a checkpoint of iteration 0 is found when all
 checkpoints are kept

---
 src/checkpoint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint.rs b/src/checkpoint.rs
index 6379045..18943c6 100644
--- a/src/checkpoint.rs
+++ b/src/checkpoint.rs
@@ -336,7 +336,7 @@ impl CheckpointManager {
                 if filename.starts_with(&pattern) && filename.ends_with(".bin") {
                     let iteration_str = &filename[pattern.len()..filename.len() - 4];
                     if let Ok(iteration) = iteration_str.parse::<usize>() {
-                        if iteration > latest_iteration {
+                        if latest_path.is_none() || iteration > latest_iteration {
                             latest_iteration = iteration;
                             latest_path = Some(path);
                         }
-- 
2.43.0


From 6f956478aad1e001101e6587d3cea37eb7952ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 09/26] fix: a restored checkpoint applies its local solver and
 distance filter parameters

---
 src/oqnlp.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index b22f459..2e5694e 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1560,6 +1560,18 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         self.abs_tol = checkpoint.abs_tol;
         self.rel_tol = checkpoint.rel_tol;
 
+        // The local solver and the distance filter follow the restored parameters
+        self.local_solver = LocalSolver::new(
+            self.problem.clone(),
+            self.params.local_solver_type.clone(),
+            self.params.local_solver_config.clone(),
+        );
+        self.distance_filter = DistanceFilter::new(FilterParams {
+            distance_factor: self.params.distance_factor,
+            wait_cycle: self.params.wait_cycle,
+            threshold_factor: self.params.threshold_factor,
+        })?;
+
         // Restore distance filter solutions
         self.distance_filter.set_solutions(checkpoint.distance_filter_solutions);
 
-- 
2.43.0


From 8cc15cdd198bcccb7cef4a5eb461e4b66e3827f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:17 +0000
Subject: [PATCH 10/26] fix: run continues from a checkpoint loaded with
 modified parameters

---
 src/oqnlp.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 2e5694e..aeeb3a1 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -408,6 +408,10 @@ pub struct OQNLP<P: Problem + Clone> {
     #[cfg(feature = "checkpointing")]
     current_seed: u64,
 
+    /// Whether a checkpoint was loaded explicitly, for the next run to continue from
+    #[cfg(feature = "checkpointing")]
+    resumed: bool,
+
     /// Observer for tracking algorithm state and metrics
     observer: Option<Observer>,
 
@@ -491,6 +495,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             start_time: None,
             #[cfg(feature = "checkpointing")]
             current_seed: params.seed,
+            #[cfg(feature = "checkpointing")]
+            resumed: false,
             observer: None,
             custom_points: None,
             abs_tol: 1e-8,
@@ -688,7 +694,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
 
         // Try to resume from checkpoint if enabled
         #[cfg(feature = "checkpointing")]
-        let resumed_from_checkpoint = self.try_resume_from_checkpoint()?;
+        let resumed_from_checkpoint =
+            std::mem::take(&mut self.resumed) || self.try_resume_from_checkpoint()?;
         #[cfg(not(feature = "checkpointing"))]
         let resumed_from_checkpoint = false;
 
@@ -1442,6 +1449,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 checkpoint.params = new_params.clone();
 
                 self.restore_from_checkpoint(checkpoint)?;
+                self.resumed = true;
 
                 if self.verbose {
                     println!(
@@ -1510,6 +1518,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             checkpoint.params = new_params.clone();
 
             self.restore_from_checkpoint(checkpoint)?;
+            self.resumed = true;
 
             if self.verbose {
                 println!(
-- 
2.43.0


From 017e2682b6ccbe905d5511d72a3eeefe64045594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:19 +0000
Subject: [PATCH 11/26] fix: a callback frequency of 0 no longer panics

---
 src/observers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/observers/mod.rs b/src/observers/mod.rs
index f56b83f..bd8c139 100644
--- a/src/observers/mod.rs
+++ b/src/observers/mod.rs
@@ -1096,7 +1096,7 @@ impl Observer {
     /// True if a callback is configured and the iteration is a multiple of
     /// the callback frequency.
     pub(crate) fn should_invoke_callback(&self, iteration: usize) -> bool {
-        self.callback.is_some() && (iteration % self.callback_frequency == 0)
+        self.callback.is_some() && (iteration % self.callback_frequency.max(1) == 0)
     }
 }
 
-- 
2.43.0


From 5f554b3f7ab9868e4d568755ceb62751227884aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:19 +0000
Subject: [PATCH 12/26] fix: a batch size of 0 no longer panics

---
 src/oqnlp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index aeeb3a1..7a591fb 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1236,7 +1236,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             );
         }
 
-        self.batch_iterations = Some(batch_size);
+        self.batch_iterations = Some(batch_size.max(1));
         self
     }
 
-- 
2.43.0


From a37e7ca1b74c57ca63cfcc6b21ca8e2cba01a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 13/26] fix: NewtonCG with the HagerZhang line search applies
 its curvature threshold and tolerance

---
 src/local_solver/runner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 88a08b3..20e3a4a 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -921,7 +921,12 @@ impl<P: Problem> LocalSolver<P> {
                             reason: e.to_string(),
                         })?;
 
-                    let solver = NewtonCG::new(linesearch);
+                    let solver = NewtonCG::new(linesearch)
+                        .with_curvature_threshold(*curvature_threshold)
+                        .with_tolerance(*tolerance)
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
+                            reason: e.to_string(),
+                        })?;
 
                     let res = Executor::new(cost, solver)
                         .configure(|state| state.param(initial_point).max_iters(*max_iter))
-- 
2.43.0


From 8657cfe7ed87bdb7e8b8902ea263507a762d13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 14/26] fix: a point with a NaN coordinate is not within the
 variable bounds

---
 src/oqnlp.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 7a591fb..ba89e78 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -668,7 +668,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             for (j, &value) in point.iter().enumerate() {
                 let lower = bounds[[j, 0]];
                 let upper = bounds[[j, 1]];
-                if value < lower || value > upper {
+                if !(value >= lower && value <= upper) {
                     return Err(OQNLPError::CustomPointOutOfBounds { index: i });
                 }
             }
@@ -1079,7 +1079,8 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             let lower_bound = bounds[[i, 0]];
             let upper_bound = bounds[[i, 1]];
 
-            if value < lower_bound || value > upper_bound {
+            // A NaN coordinate is not within any bounds
+            if !(value >= lower_bound && value <= upper_bound) {
                 return false;
             }
         }
-- 
2.43.0


From 1adec5faab63da518cb436b5f2e7f5decc96311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 15/26] fix: reject NaN threshold and distance factors

---
 src/filters.rs | 2 +-
 src/oqnlp.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index 7381f5b..ea812bd 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -209,7 +209,7 @@ impl DistanceFilter {
     ///
     /// Returns an error if the distance factor is negative
     pub fn new(params: FilterParams) -> Result<Self, FiltersErrors> {
-        if params.distance_factor < 0.0 {
+        if params.distance_factor.is_nan() || params.distance_factor < 0.0 {
             return Err(FiltersErrors::NegativeDistanceFactor { value: params.distance_factor });
         }
 
diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index ba89e78..fec347f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -448,7 +448,7 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
             return Err(OQNLPError::InvalidIterations(params.iterations, params.population_size));
         }
 
-        if params.threshold_factor <= 0.0 {
+        if params.threshold_factor.is_nan() || params.threshold_factor <= 0.0 {
             return Err(OQNLPError::InvalidThresholdFactor(params.threshold_factor));
         }
 
-- 
2.43.0


From ac924fae589d07ee6812193ffea400a19011f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 16/26] fix: report NaN and infinite variable bounds as invalid
 instead of panicking

---
 src/scatter_search.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 45c2e75..47b797d 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -163,7 +163,10 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
 
         // Validate bounds
         for i in 0..bounds.lower.len() {
-            if bounds.lower[i] >= bounds.upper[i] {
+            // Sampling needs a finite range; NaN bounds compare false with everything
+            if !(bounds.lower[i] < bounds.upper[i])
+                || !(bounds.upper[i] - bounds.lower[i]).is_finite()
+            {
                 return Err(ScatterSearchError::InvalidBounds {
                     dimension: i,
                     lower: bounds.lower[i],
-- 
2.43.0


From be58e783d8496833bdd7063531cdbf06d728ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 17/26] fix: a point whose constraint value is NaN is not
 feasible

---
 src/scatter_search.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index 47b797d..b275a93 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -920,7 +920,8 @@ fn is_feasible(point: &Array1<f64>, constraints: &[fn(&[f64], &mut ()) -> f64])
     // Early exit on first violation for performance
     for constraint_fn in constraints {
         let value = constraint_fn(x_slice, &mut ());
-        if value < 0.0 {
+        // A NaN constraint value is not satisfied
+        if !(value >= 0.0) {
             return false;
         }
     }
-- 
2.43.0


From a00694b04e73f05de2e6d4a38c33ad85aa0fca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 18/26] fix: a diverged local solution with NaN coordinates no
 longer rejects every later candidate

---
 src/filters.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/filters.rs b/src/filters.rs
index ea812bd..19bf477 100644
--- a/src/filters.rs
+++ b/src/filters.rs
@@ -226,9 +226,11 @@ impl DistanceFilter {
 
     /// Check if the given point is far enough from all solutions in DistanceFilter
     pub fn check(&self, point: &Array1<f64>) -> bool {
+        // A local solution with NaN coordinates is not near any point
         self.solutions.iter().all(|s| {
-            euclidean_distance_squared(point, &s.point)
-                > self.params.distance_factor * self.params.distance_factor
+            let dist_squared = euclidean_distance_squared(point, &s.point);
+            dist_squared.is_nan()
+                || dist_squared > self.params.distance_factor * self.params.distance_factor
         })
     }
 
-- 
2.43.0


From b3b6fa72f821d366b5eb22f3aa6024e914fea9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 19/26] fix: the total time of a completed stage no longer
 keeps growing

---
 src/observers/stage1.rs | 7 ++-----
 src/observers/stage2.rs | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/observers/stage1.rs b/src/observers/stage1.rs
index 8799967..ac8203d 100644
--- a/src/observers/stage1.rs
+++ b/src/observers/stage1.rs
@@ -121,6 +121,7 @@ impl Stage1State {
     /// Start Stage 1 timing
     pub fn start(&mut self) {
         self.stage_start = Some(Instant::now());
+        self.total_time = None;
     }
 
     /// End Stage 1 and calculate total time
@@ -262,11 +263,7 @@ impl Stage1State {
     /// - `Some(f64)`: Elapsed time in seconds
     /// - `None`: If Stage 1 timing was not started
     pub fn total_time(&self) -> Option<f64> {
-        if let Some(start) = self.stage_start {
-            Some(start.elapsed().as_secs_f64())
-        } else {
-            self.total_time
-        }
+        self.total_time.or_else(|| self.stage_start.map(|start| start.elapsed().as_secs_f64()))
     }
 
     /// Get total number of function evaluations
diff --git a/src/observers/stage2.rs b/src/observers/stage2.rs
index 9e6cfc0..3c15ec1 100644
--- a/src/observers/stage2.rs
+++ b/src/observers/stage2.rs
@@ -122,6 +122,7 @@ impl Stage2State {
     /// Start Stage 2 timing
     pub fn start(&mut self) {
         self.stage_start = Some(Instant::now());
+        self.total_time = None;
     }
 
     /// End Stage 2 and calculate total time
@@ -348,11 +349,7 @@ impl Stage2State {
     /// - `Some(f64)`: Elapsed time in seconds
     /// - `None`: If Stage 2 timing was not started
     pub fn total_time(&self) -> Option<f64> {
-        if let Some(start) = self.stage_start {
-            Some(start.elapsed().as_secs_f64())
-        } else {
-            self.total_time
-        }
+        self.total_time.or_else(|| self.stage_start.map(|start| start.elapsed().as_secs_f64()))
     }
 
     /// Get the best solution coordinates found so far
-- 
2.43.0


From aa1e7a579880ed77d2a33233848dc113d8c1d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:30 +0000
Subject: [PATCH 20/26] fix: a local search that finds a new best solution
 counts as improved

---
 src/oqnlp.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index fec347f..1654207 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -1088,6 +1088,14 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
         true
     }
 
+    /// Best objective of the solution set, as bits so that NaN equals itself
+    fn best_objective_bits(&self) -> Option<u64> {
+        self.solution_set
+            .as_ref()
+            .and_then(|set| set.best_solution())
+            .map(|best| best.objective.to_bits())
+    }
+
     /// Process a local solution, updating the best solution and filters
     fn process_local_solution(&mut self, solution: LocalSolution) -> Result<bool, OQNLPError> {
         let abs_tol = self.abs_tol;
@@ -1745,13 +1753,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                     (sol, 0)
                 };
 
+                let previous_best = self.best_objective_bits();
                 let added: bool = self.process_local_solution(local_trial.clone())?;
+                let improved = added || self.best_objective_bits() != previous_best;
 
                 // Observer: Track local solver call and results
                 if let Some(ref mut observer) = self.observer {
                     if observer.should_observe_stage2() {
                         if let Some(stage2) = observer.stage2_mut() {
-                            stage2.add_local_solver_call(added);
+                            stage2.add_local_solver_call(improved);
                             stage2.add_function_evaluations(eval_count as usize);
                             if let Some(ref sol_set) = self.solution_set {
                                 if let Some(best) = sol_set.best_solution() {
@@ -1968,13 +1978,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                 // Process local results sequentially to maintain state consistency
                 for (local_iter, _trial, obj, local_solution, eval_count) in local_results {
                     self.merit_filter.update_threshold(obj);
+                    let previous_best = self.best_objective_bits();
                     let added = self.process_local_solution(local_solution.clone())?;
+                    let improved = added || self.best_objective_bits() != previous_best;
 
                     // Observer: Track local solver call and results (parallel case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
@@ -2041,13 +2053,15 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         (sol, 0)
                     };
 
+                    let previous_best = self.best_objective_bits();
                     let added = self.process_local_solution(local_trial.clone())?;
+                    let improved = added || self.best_objective_bits() != previous_best;
 
                     // Observer: Track local solver call and results (single local search case)
                     if let Some(ref mut observer) = self.observer {
                         if observer.should_observe_stage2() {
                             if let Some(stage2) = observer.stage2_mut() {
-                                stage2.add_local_solver_call(added);
+                                stage2.add_local_solver_call(improved);
                                 stage2.add_function_evaluations(eval_count as usize);
                                 if let Some(ref sol_set) = self.solution_set {
                                     if let Some(best) = sol_set.best_solution() {
-- 
2.43.0


From 67bf426eb79afcef4fc234dbb2ae35a4dce1826a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:02 +0000
Subject: [PATCH 21/26] fix: Stage 1 function evaluations include the trial
 points

---
 src/scatter_search.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index b275a93..db54c3d 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -49,6 +49,7 @@ use ndarray::Array1;
 use rand::rngs::StdRng;
 use rand::{Rng, SeedableRng};
 use std::sync::Mutex;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use thiserror::Error;
 
 #[cfg(feature = "rayon")]
@@ -140,6 +141,8 @@ pub struct ScatterSearch<'a, P: Problem> {
     params: OQNLPParams,
     reference_set: Vec<Array1<f64>>,
     reference_set_objectives: Vec<f64>,
+    /// Objective evaluations of trial points, for the observer
+    trial_evaluations: AtomicUsize,
     bounds: VariableBounds,
     rng: Mutex<StdRng>,
     #[cfg(feature = "progress_bar")]
@@ -181,6 +184,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             params: params.clone(),
             reference_set: Vec::new(),
             reference_set_objectives: Vec::new(),
+            trial_evaluations: AtomicUsize::new(0),
             bounds,
             rng: Mutex::new(StdRng::seed_from_u64(seed)),
             #[cfg(feature = "progress_bar")]
@@ -300,6 +304,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 if let Some(stage1) = obs.stage1_mut() {
                     stage1.enter_substage("intensification_complete");
                     stage1.add_trial_points(trial_points.len());
+                    stage1.add_function_evaluations(self.trial_evaluations.load(Ordering::Relaxed));
                     stage1.set_reference_set_size(self.reference_set.len());
                 }
             }
@@ -796,6 +801,7 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
                 return None;
             }
 
+            self.trial_evaluations.fetch_add(1, Ordering::Relaxed);
             let obj = self.problem.objective(point).ok()?;
             // NaN sorts last, so any number improves on a NaN worst point
             if cmp_objective(obj, worst_obj).is_lt() { Some((point.clone(), obj)) } else { None }
-- 
2.43.0


From a5fc2271632eba2ea502a03b84f5b6bb0265be4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:02 +0000
Subject: [PATCH 22/26] fix: a single local search of a batch honours the
 callback frequency

---
 src/oqnlp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oqnlp.rs b/src/oqnlp.rs
index 1654207..f7e485f 100644
--- a/src/oqnlp.rs
+++ b/src/oqnlp.rs
@@ -2084,9 +2084,11 @@ impl<P: Problem + Clone + Send + Sync> OQNLP<P> {
                         }
                     }
 
-                    // Invoke observer callback for stage 2 progress
+                    // Invoke observer callback if set and frequency matches
                     if let Some(ref mut observer) = self.observer {
-                        observer.invoke_callback();
+                        if observer.should_invoke_callback(local_iter) {
+                            observer.invoke_callback();
+                        }
                     }
 
                     if self.verbose && added {
-- 
2.43.0


From 8618c65260c4f7b74cc27885890e7d2ab1c3ca85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 23/26] fix: a COBYLA xtol_abs of the wrong dimension is
 reported instead of panicking

---
 src/local_solver/runner.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 20e3a4a..c712baa 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -1014,6 +1014,16 @@ impl<P: Problem> LocalSolver<P> {
                 });
             }
 
+            if !xtol_abs.is_empty() && xtol_abs.len() != x0.len() {
+                return Err(LocalSolverError::InvalidCOBYLAConfig {
+                    reason: format!(
+                        "xtol_abs dimension mismatch: expected {} values, got {}",
+                        x0.len(),
+                        xtol_abs.len()
+                    ),
+                });
+            }
+
             let bounds: Vec<(f64, f64)> =
                 (0..x0.len()).map(|i| (problem_bounds[[i, 0]], problem_bounds[[i, 1]])).collect();
 
-- 
2.43.0


From ab56192bdf6a96878177d7082b70963f1e960d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 24/26] fix: rejected line-search settings of Newton-CG are
 reported as Newton-CG's

---
 src/local_solver/runner.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index c712baa..43b4799 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -843,15 +843,15 @@ impl<P: Problem> LocalSolver<P> {
                 LineSearchMethod::MoreThuente { c1, c2, width_tolerance, bounds } => {
                     let linesearch = MoreThuenteLineSearch::new()
                         .with_c(*c1, *c2)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_width_tolerance(*width_tolerance)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
@@ -897,27 +897,27 @@ impl<P: Problem> LocalSolver<P> {
                 } => {
                     let linesearch = HagerZhangLineSearch::new()
                         .with_delta_sigma(*delta, *sigma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_epsilon(*epsilon)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_theta(*theta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_gamma(*gamma)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_eta(*eta)
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?
                         .with_bounds(bounds[0], bounds[1])
-                        .map_err(|e: Error| LocalSolverError::InvalidSteepestDescentConfig {
+                        .map_err(|e: Error| LocalSolverError::InvalidNewtonCG {
                             reason: e.to_string(),
                         })?;
 
-- 
2.43.0


From cd5a0d2b6043a41c9c513aa7711fca87ed308048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:16 +0000
Subject: [PATCH 25/26] fix: the midpoint of very large variable bounds no
 longer overflows

---
 src/scatter_search.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scatter_search.rs b/src/scatter_search.rs
index db54c3d..51f8343 100644
--- a/src/scatter_search.rs
+++ b/src/scatter_search.rs
@@ -336,13 +336,13 @@ impl<'a, P: Problem + Sync + Send> ScatterSearch<'a, P> {
             // No constraints - add all seed points directly
             ref_set.push(self.bounds.lower.to_owned());
             ref_set.push(self.bounds.upper.to_owned());
-            ref_set.push((&self.bounds.lower + &self.bounds.upper) / 2.0);
+            ref_set.push(&self.bounds.lower / 2.0 + &self.bounds.upper / 2.0);
         } else {
             // With constraints - only add seed points that satisfy them
             let seed_points = vec![
                 self.bounds.lower.to_owned(),
                 self.bounds.upper.to_owned(),
-                (&self.bounds.lower + &self.bounds.upper) / 2.0,
+                &self.bounds.lower / 2.0 + &self.bounds.upper / 2.0,
             ];
 
             for point in seed_points {
-- 
2.43.0


From a5b142f1f05da82d7b5e7220bf341d9130f76c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:52 +0000
Subject: [PATCH 26/26] fix: an objective failing on Nelder-Mead's initial
 simplex is reported instead of panicking

---
 src/local_solver/runner.rs | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/local_solver/runner.rs b/src/local_solver/runner.rs
index 43b4799..1d27aa7 100644
--- a/src/local_solver/runner.rs
+++ b/src/local_solver/runner.rs
@@ -388,13 +388,16 @@ impl<P: Problem> LocalSolver<P> {
         track_evaluations: bool,
     ) -> Result<(LocalSolution, u64), LocalSolverError> {
         use std::sync::{
-            Arc,
-            atomic::{AtomicU64, Ordering},
+            Arc, OnceLock,
+            atomic::{AtomicU64, AtomicUsize, Ordering},
         };
 
         struct ProblemCost<'a, P: Problem> {
             problem: &'a P,
             eval_count: Option<Arc<AtomicU64>>,
+            // Vertices of the initial simplex still to be evaluated
+            initial_left: AtomicUsize,
+            failure: Arc<OnceLock<String>>,
         }
 
         impl<P: Problem> CostFunction for ProblemCost<'_, P> {
@@ -405,12 +408,31 @@ impl<P: Problem> LocalSolver<P> {
                 if let Some(counter) = &self.eval_count {
                     counter.fetch_add(1, Ordering::Relaxed);
                 }
-                self.problem.objective(param).map_err(|e| Error::msg(e.to_string()))
+                let value = match self.failure.get() {
+                    Some(reason) => Err(reason.clone()),
+                    None => self.problem.objective(param).map_err(|e| e.to_string()),
+                };
+                // argmin panics if evaluating the initial simplex fails: keep the failure
+                // and report it with the next evaluation, at the latest after the run
+                if self.initial_left.load(Ordering::Relaxed) > 0 {
+                    self.initial_left.fetch_sub(1, Ordering::Relaxed);
+                    return Ok(value.unwrap_or_else(|reason| {
+                        self.failure.get_or_init(|| reason);
+                        f64::INFINITY
+                    }));
+                }
+                value.map_err(Error::msg)
             }
         }
 
         let eval_count = if track_evaluations { Some(Arc::new(AtomicU64::new(0))) } else { None };
-        let cost = ProblemCost { problem: &self.problem, eval_count: eval_count.clone() };
+        let failure = Arc::new(OnceLock::new());
+        let cost = ProblemCost {
+            problem: &self.problem,
+            eval_count: eval_count.clone(),
+            initial_left: AtomicUsize::new(initial_point.len() + 1),
+            failure: failure.clone(),
+        };
 
         if let LocalSolverConfig::NelderMead {
             simplex_delta,
@@ -459,6 +481,12 @@ impl<P: Problem> LocalSolver<P> {
                     solver_type: "unknown".to_string(),
                     reason: e.to_string(),
                 })?;
+            if let Some(reason) = failure.get() {
+                return Err(LocalSolverError::RunFailed {
+                    solver_type: "unknown".to_string(),
+                    reason: reason.clone(),
+                });
+            }
 
             let solution = LocalSolution {
                 point: res
-- 
2.43.0


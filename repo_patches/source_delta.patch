From ca559a6183c2528bade1f75492af51d1d80be705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 01/20] fix: draw the next state only among the states with a
 positive rate

get_random_state used the rank among the non-zero rates as if it was the rank
among all the other states: a zero rate shifted the result to a state that
cannot be reached. A draw above the rounded cumulative sum gave a state out of
the domain.
---
 src/params.rs | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 71395af..9481e99 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -231,24 +231,19 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
                 let lambda = cim[[u, state, state]] * -1.0;
                 let urand: f64 = rng.gen_range(0.0..=1.0);
 
-                let next_state = cim.slice(s![u, state, ..]).map(|x| x / lambda).iter().fold(
-                    (0, 0.0),
-                    |mut acc, ele| {
-                        if &acc.1 + ele < urand && ele > &0.0 {
-                            acc.0 += 1;
+                // Only the states reachable with a positive rate can be drawn. If, because of the
+                // rounding, `urand` exceeds the cumulative probability, the last one is selected.
+                let mut next_state = state;
+                let mut cumulative = 0.0;
+                for (idx, rate) in cim.slice(s![u, state, ..]).indexed_iter() {
+                    if idx != state && *rate > 0.0 {
+                        next_state = idx;
+                        cumulative += rate / lambda;
+                        if cumulative >= urand {
+                            break;
                         }
-                        if ele > &0.0 {
-                            acc.1 += ele;
-                        }
-                        acc
-                    },
-                );
-
-                let next_state = if next_state.0 < state {
-                    next_state.0
-                } else {
-                    next_state.0 + 1
-                };
+                    }
+                }
 
                 let next_state = StateType::Discrete(next_state);
                 trace!(
-- 
2.43.0


From 2776347194d160e568dfe4bb1027c42e4af9474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 02/20] fix: reject CIMs with negative rates or non-finite
 values

validate_params (and so set_cim) accepted matrices which are not intensity
matrices: negative rates outside the diagonal, NaN and infinite values.
---
 src/params.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/params.rs b/src/params.rs
index 9481e99..9843459 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -295,6 +295,14 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             return Err(ParamsError::InvalidCIM(message));
         }
 
+        // Check if all the values of the cim are finite
+        if cim.iter().any(|x| !x.is_finite()) {
+            warn!("The cim for node {} must be finite", self.get_label());
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The values of each cim must be finite",
+            )));
+        }
+
         // Check if the diagonal of each cim is non-positive
         if cim
             .axis_iter(Axis(0))
@@ -309,6 +317,20 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
+        // Check if the rates outside the diagonal of each cim are non-negative
+        if cim
+            .indexed_iter()
+            .any(|((_, x, y), rate)| x != y && *rate < 0.0)
+        {
+            warn!(
+                "The rates outside the diagonal of each cim for node {} must be non-negative",
+                self.get_label()
+            );
+            return Err(ParamsError::InvalidCIM(String::from(
+                "The rates outside the diagonal of each cim must be non-negative",
+            )));
+        }
+
         // Check if each row sum up to 0
         if cim
             .sum_axis(Axis(2))
-- 
2.43.0


From 69c3a964ddf3f2467a7f27f229bbeabfde3c5a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 03/20] fix: scale the tolerance on the row sums of a CIM with
 the rates

With an absolute tolerance the rounding error alone made validate_params reject
generated parameters with rates above 1e8 and amalgamation panic on networks
whose CIMs were all valid.
---
 src/params.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/params.rs b/src/params.rs
index 9843459..10e193f 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -331,12 +331,12 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
             )));
         }
 
-        // Check if each row sum up to 0
-        if cim
-            .sum_axis(Axis(2))
-            .iter()
-            .any(|x| f64::abs(x.clone()) > f64::EPSILON.sqrt())
-        {
+        // Check if each row sum up to 0. The rounding error of the sum is proportional to the
+        // magnitude of the rates in the row.
+        if cim.lanes(Axis(2)).into_iter().any(|row| {
+            let magnitude = row.iter().fold(1.0, |acc: f64, x| acc.max(x.abs()));
+            f64::abs(row.sum()) > f64::EPSILON.sqrt() * magnitude
+        }) {
             warn!(
                 "The sum of each row of the cim for node {} must be 0",
                 self.get_label()
-- 
2.43.0


From 680101e6d6693cb0158032d4778bf9931ba45aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 04/20] fix: never draw an infinite residence time

The uniform draw could be exactly 0, whose logarithm is infinite.
---
 src/params.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/params.rs b/src/params.rs
index 10e193f..2dda4b4 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -199,7 +199,8 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
         match &self.cim {
             Option::Some(cim) => {
                 let lambda = cim[[u, state, state]] * -1.0;
-                let x: f64 = rng.gen_range(0.0..=1.0);
+                // x = 0 would give an infinite residence time.
+                let x: f64 = rng.gen_range(f64::MIN_POSITIVE..=1.0);
                 let ret = -x.ln() / lambda;
                 trace!(
                     "Generate random residence time. Node: {} - Time: {}",
-- 
2.43.0


From 2df4f1f33dc9fb0d5b34d3af8ce8403382988b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 05/20] fix: integrate the instantaneous reward over the state
 actually occupied

Between two transitions the Monte Carlo evaluation paid the instantaneous
reward of the state entered at the end of the interval instead of the one of
the state occupied during it.
---
 src/reward/reward_evaluation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 5861e75..614d4d0 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -210,6 +210,10 @@ impl RewardEvaluation for MonteCarloReward {
                     };
                     ret += discount * r.instantaneous_reward;
                 } else {
+                    // Up to `current.t` the process stays in `previous.state`.
+                    let instantaneous_reward = reward_function
+                        .call(&previous.state, None)
+                        .instantaneous_reward;
                     let r = reward_function.call(&current.state, Some(&previous.state));
                     let discount = match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => current.t - previous.t,
@@ -219,7 +223,7 @@ impl RewardEvaluation for MonteCarloReward {
                                 / discount_factor
                         }
                     };
-                    ret += discount * r.instantaneous_reward;
+                    ret += discount * instantaneous_reward;
                     ret += match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => 1.0,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-- 
2.43.0


From 4b7e399c1bc4b19d6ea6abf998cedbf17d9cea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 06/20] fix: do not panic in the F test when a state is never
 left

The Fisher-Snedecor distribution is not defined with zero degrees of freedom,
so CTPC panicked on any dataset in which the child node never leaves one of its
states under one of the configurations of the parents.
---
 src/structure_learning/hypothesis_test.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 311ec47..00ce70a 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -91,6 +91,10 @@ impl F {
         let q1 = cim_1.diag();
         let q2 = cim_2.diag();
         for idx in 0..r1.shape()[0] {
+            // Without transitions there is no evidence against the independence.
+            if r1[idx] == 0.0 || r2[idx] == 0.0 {
+                continue;
+            }
             let s = q2[idx] / q1[idx];
             let F = FisherSnedecor::new(r1[idx], r2[idx]).unwrap();
             let s = F.cdf(s);
-- 
2.43.0


From 59bdd2364b630bdd88de030e38e5aa944e2a8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 07/20] fix: ignore the transitions never observed in the
 chi-squared test

A transition (or a whole row) without observations made the statistic NaN and
the test always answered "dependent", even comparing a matrix with itself.
---
 src/structure_learning/hypothesis_test.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 00ce70a..ad02418 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -204,6 +204,8 @@ impl ChiSquare {
         };
         let L = 1.0 / &K;
         let mut X_2 = (&K * &M2 - &L * &M1).mapv(|a| a.powi(2)) / (&M2 + &M1);
+        // The terms without observations (0/0) do not carry evidence against the independence.
+        X_2.mapv_inplace(|a| if a.is_nan() { 0.0 } else { a });
         X_2.diag_mut().fill(0.0);
         let X_2 = X_2.sum_axis(Axis(1));
         let n = ChiSquared::new((X_2.dim() - 1) as f64).unwrap();
-- 
2.43.0


From a2e3d7d19f22a9e9de0de306ec8cc8204001f09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 08/20] fix: reset the parameters of the nodes which lose their
 parents

add_node and initialize_adj_matrix (and so the structure learning algorithms)
remove all the edges but kept the CIMs indexed by the removed parent sets.
---
 src/process/ctbn.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index c05a540..882c470 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -160,6 +160,19 @@ impl CtbnNetwork {
 
         return array_state;
     }
+
+    /// Remove all the edges. The parameters of the nodes which lose their parents are reset as they
+    /// depend on the parent set.
+    fn clear_edges(&mut self) {
+        if let Some(adj_matrix) = self.adj_matrix.take() {
+            for (node, parents) in self.nodes.iter_mut().zip(adj_matrix.columns()) {
+                if parents.iter().any(|x| x > &0) {
+                    node.reset_params();
+                }
+            }
+        }
+    }
+
     /// Get the Adjacency Matrix.
     pub fn get_adj_matrix(&self) -> Option<&Array2<u16>> {
         self.adj_matrix.as_ref()
@@ -168,6 +181,7 @@ impl CtbnNetwork {
 
 impl process::NetworkProcess for CtbnNetwork {
     fn initialize_adj_matrix(&mut self) {
+        self.clear_edges();
         self.adj_matrix = Some(Array2::<u16>::zeros(
             (self.nodes.len(), self.nodes.len()).f(),
         ));
@@ -175,7 +189,7 @@ impl process::NetworkProcess for CtbnNetwork {
 
     fn add_node(&mut self, mut n: Params) -> Result<usize, process::NetworkError> {
         n.reset_params();
-        self.adj_matrix = Option::None;
+        self.clear_edges();
         self.nodes.push(n);
         Ok(self.nodes.len() - 1)
     }
-- 
2.43.0


From a56ce1accde24c13c036eb574d1e0bb63eced7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 09/20] fix: never generate parameters that do not pass the
 validation

A uniform draw equal to 0 gave a CIM with NaN values or with a zero on the
diagonal.
---
 src/tools.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 5085c43..0549d01 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -333,13 +333,25 @@ impl RandomParametersGenerator for UniformParametersGenerator {
                             node_domain_cardinality,
                             node_domain_cardinality,
                         ),
-                        |_| self.rng.gen(),
+                        // A rate equal to 0 could make a row impossible to normalize.
+                        |_| loop {
+                            let rate: f64 = self.rng.gen();
+                            if rate > 0.0 {
+                                break rate;
+                            }
+                        },
                     );
                     cim.axis_iter_mut(Axis(0)).for_each(|mut x| {
                         x.diag_mut().fill(0.0);
                         x.div_assign(&x.sum_axis(Axis(1)).insert_axis(Axis(1)));
                         let diag = Array1::<f64>::from_shape_fn(node_domain_cardinality, |_| {
-                            self.rng.gen_range(self.interval.clone())
+                            // The diagonal of a valid CIM can not be 0.
+                            loop {
+                                let rate = self.rng.gen_range(self.interval.clone());
+                                if rate > 0.0 {
+                                    break rate;
+                                }
+                            }
                         });
                         x.mul_assign(&diag.clone().insert_axis(Axis(1)));
                         // Recomputing the diagonal in order to reduce the issues caused by the
-- 
2.43.0


From f07f0866d779a8dee6105a3dd87f66d8e8cf6175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:21 +0000
Subject: [PATCH 10/20] fix: do not return from the cache the parameters of
 another node

The entries were identified only by the parent set, so a cache asked for the
same parent set of a second node answered with the parameters of the first one.
---
 .../constraint_based_algorithm.rs                  | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/structure_learning/constraint_based_algorithm.rs b/src/structure_learning/constraint_based_algorithm.rs
index 84683bc..a55142f 100644
--- a/src/structure_learning/constraint_based_algorithm.rs
+++ b/src/structure_learning/constraint_based_algorithm.rs
@@ -16,8 +16,8 @@ use crate::tools::Dataset;
 
 pub struct Cache<'a, P: ParameterLearning> {
     parameter_learning: &'a P,
-    cache_persistent_small: HashMap<Option<BTreeSet<usize>>, Params>,
-    cache_persistent_big: HashMap<Option<BTreeSet<usize>>, Params>,
+    cache_persistent_small: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
+    cache_persistent_big: HashMap<(usize, Option<BTreeSet<usize>>), Params>,
     parent_set_size_small: usize,
 }
 
@@ -48,8 +48,10 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
             self.parent_set_size_small += 1;
         }
 
+        // The same parent set identifies different parameters for different nodes.
+        let key = (node, parent_set.clone());
         if parent_set_len > self.parent_set_size_small {
-            match self.cache_persistent_big.get(&parent_set) {
+            match self.cache_persistent_big.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
@@ -57,12 +59,12 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
                     let params =
                         self.parameter_learning
                             .fit(net, dataset, node, parent_set.clone());
-                    self.cache_persistent_big.insert(parent_set, params.clone());
+                    self.cache_persistent_big.insert(key, params.clone());
                     params
                 }
             }
         } else {
-            match self.cache_persistent_small.get(&parent_set) {
+            match self.cache_persistent_small.get(&key) {
                 // TODO: Better not clone `params`, useless clock cycles, RAM use and I/O
                 // not cloning requires a minor and reasoned refactoring across the library
                 Some(params) => params.clone(),
@@ -71,7 +73,7 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
                         self.parameter_learning
                             .fit(net, dataset, node, parent_set.clone());
                     self.cache_persistent_small
-                        .insert(parent_set, params.clone());
+                        .insert(key, params.clone());
                     params
                 }
             }
-- 
2.43.0


From a7339ef7d179a84c84a86d81880f170b895525d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:11 +0000
Subject: [PATCH 11/20] fix: sample the node of a CtmpProcess, which has no
 parents, from its only CIM

---
 src/sampling.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/sampling.rs b/src/sampling.rs
index 66abc34..9ada58a 100644
--- a/src/sampling.rs
+++ b/src/sampling.rs
@@ -160,6 +160,17 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
     type Item = Sample;
 
     fn next(&mut self) -> Option<Self::Item> {
+        let net = self.net;
+        // A node without parents has only one CIM, whatever the state of the network (this is the
+        // case of the only node of a `CtmpProcess`).
+        let param_index = |node: usize, state: &NetworkProcessState| {
+            if net.get_parent_set(node).is_empty() {
+                0
+            } else {
+                net.get_param_index_network(node, state)
+            }
+        };
+
         // Set the variable to be returned (time and state)
         let ret_time = self.current_time.clone();
         let ret_state = self.current_state.clone();
@@ -178,7 +189,7 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
                             self.net
                                 .get_node(idx)
                                 .state_to_index(&self.current_state[idx]),
-                            self.net.get_param_index_network(idx, &self.current_state),
+                            param_index(idx, &self.current_state),
                             &mut self.rng,
                         )
                         .unwrap()
@@ -207,8 +218,7 @@ impl<'a, T: NetworkProcess> Iterator for ForwardSampler<'a, T> {
                 self.net
                     .get_node(next_node_transition)
                     .state_to_index(&self.current_state[next_node_transition]),
-                self.net
-                    .get_param_index_network(next_node_transition, &self.current_state),
+                param_index(next_node_transition, &self.current_state),
                 &mut self.rng,
             )
             .unwrap();
-- 
2.43.0


From b8a8937ed2a8f23d127d304623a0c3fdba364eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:48 +0000
Subject: [PATCH 12/20] fix: keep the answer of a request which is larger than
 the previous ones by two

The cache advanced by one size per request, so that a request larger by two or
more was looked up in the wrong half (and recomputed) when repeated.
---
 src/structure_learning/constraint_based_algorithm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/structure_learning/constraint_based_algorithm.rs b/src/structure_learning/constraint_based_algorithm.rs
index a55142f..dba3038 100644
--- a/src/structure_learning/constraint_based_algorithm.rs
+++ b/src/structure_learning/constraint_based_algorithm.rs
@@ -38,7 +38,7 @@ impl<'a, P: ParameterLearning> Cache<'a, P> {
         parent_set: Option<BTreeSet<usize>>,
     ) -> Params {
         let parent_set_len = parent_set.as_ref().unwrap().len();
-        if parent_set_len > self.parent_set_size_small + 1 {
+        while parent_set_len > self.parent_set_size_small + 1 {
             //self.cache_persistent_small = self.cache_persistent_big;
             mem::swap(
                 &mut self.cache_persistent_small,
-- 
2.43.0


From fda4d35476d4ad59f4eb23d3365b6556d724a2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 13/20] Revert "fix: ignore the transitions never observed in
 the chi-squared test"

This reverts commit 59bdd2364b630bdd88de030e38e5aa944e2a8df6.
---
 src/structure_learning/hypothesis_test.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index ad02418..00ce70a 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -204,8 +204,6 @@ impl ChiSquare {
         };
         let L = 1.0 / &K;
         let mut X_2 = (&K * &M2 - &L * &M1).mapv(|a| a.powi(2)) / (&M2 + &M1);
-        // The terms without observations (0/0) do not carry evidence against the independence.
-        X_2.mapv_inplace(|a| if a.is_nan() { 0.0 } else { a });
         X_2.diag_mut().fill(0.0);
         let X_2 = X_2.sum_axis(Axis(1));
         let n = ChiSquared::new((X_2.dim() - 1) as f64).unwrap();
-- 
2.43.0


From 081e7b3703c4ff38e4b1c02a905239aa069c8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 14/20] Revert "fix: do not panic in the F test when a state is
 never left"

This reverts commit 4b7e399c1bc4b19d6ea6abf998cedbf17d9cea84.
---
 src/structure_learning/hypothesis_test.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/structure_learning/hypothesis_test.rs b/src/structure_learning/hypothesis_test.rs
index 00ce70a..311ec47 100644
--- a/src/structure_learning/hypothesis_test.rs
+++ b/src/structure_learning/hypothesis_test.rs
@@ -91,10 +91,6 @@ impl F {
         let q1 = cim_1.diag();
         let q2 = cim_2.diag();
         for idx in 0..r1.shape()[0] {
-            // Without transitions there is no evidence against the independence.
-            if r1[idx] == 0.0 || r2[idx] == 0.0 {
-                continue;
-            }
             let s = q2[idx] / q1[idx];
             let F = FisherSnedecor::new(r1[idx], r2[idx]).unwrap();
             let s = F.cdf(s);
-- 
2.43.0


From 7fc5f0c31d41b6e5dbe18773826c3ef58120cb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 15/20] fix: variance of the early stopping test of
 MonteCarloReward lost by cancellation

---
 src/reward/reward_evaluation.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index 614d4d0..c0adbe2 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -184,7 +184,7 @@ impl RewardEvaluation for MonteCarloReward {
 
         // Initialize the variable required to perform early stopping hypotesis test
         let mut expected_value = 0.0;
-        let mut squared_expected_value = 0.0;
+        let mut squared_deviations = 0.0;
         let normal = statrs::distribution::Normal::new(0.0, 1.0).unwrap();
 
         // Generate and evaluate tranjectories util max_iteration is reached or early stopping rule
@@ -236,14 +236,15 @@ impl RewardEvaluation for MonteCarloReward {
 
             // Evaluate the early stopping hypothesis test .
             let float_i = i as f64;
-            expected_value =
-                expected_value * float_i as f64 / (float_i + 1.0) + ret / (float_i + 1.0);
-            squared_expected_value = squared_expected_value * float_i as f64 / (float_i + 1.0)
-                + ret.powi(2) / (float_i + 1.0);
+            // Mean and sum of the squared deviations from it are updated with the method of Welford:
+            // the difference between the mean of the squares and the square of the mean loses the
+            // variance if it is small compared to the mean.
+            let deviation = ret - expected_value;
+            expected_value += deviation / (float_i + 1.0);
+            squared_deviations += deviation * (ret - expected_value);
 
             if i > 2 {
-                let var =
-                    (float_i + 1.0) / float_i * (squared_expected_value - expected_value.powi(2));
+                let var: f64 = squared_deviations / float_i;
                 if self.alpha_stop
                     - 2.0 * normal.cdf(-(float_i + 1.0).sqrt() * self.max_err_stop / var.sqrt())
                     > 0.0
-- 
2.43.0


From f0671a80f3d4caa297ce32f1367cbdf5136d400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 16/20] fix: amalgamation panicking when the rounding errors of
 the rows of several nodes add up

---
 src/process/ctbn.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/process/ctbn.rs b/src/process/ctbn.rs
index 882c470..3fe2ff0 100644
--- a/src/process/ctbn.rs
+++ b/src/process/ctbn.rs
@@ -126,6 +126,16 @@ impl CtbnNetwork {
             }
         }
 
+        // Each row of the CIMs sums to 0 up to the rounding. These errors must not add up, otherwise
+        // the amalgamated CIM could be rejected.
+        for idx_state in 0..state_space {
+            let diag = amalgamated_cim[[0, idx_state, idx_state]]
+                - amalgamated_cim.slice(s![0, idx_state, ..]).sum();
+            if diag < 0.0 {
+                amalgamated_cim[[0, idx_state, idx_state]] = diag;
+            }
+        }
+
         let mut amalgamated_param = DiscreteStatesContinousTimeParams::new(
             "ctmp".to_string(),
             BTreeSet::from_iter((0..state_space).map(|x| x.to_string())),
-- 
2.43.0


From 33ecc34588e7cc188c7f95d04f019ef52882fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 17/20] fix: small discount factors losing the rewards of
 MonteCarloReward by cancellation

---
 src/reward/reward_evaluation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reward/reward_evaluation.rs b/src/reward/reward_evaluation.rs
index c0adbe2..f6e619b 100644
--- a/src/reward/reward_evaluation.rs
+++ b/src/reward/reward_evaluation.rs
@@ -203,8 +203,10 @@ impl RewardEvaluation for MonteCarloReward {
                     let discount = match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => self.end_time - previous.t,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-                            (std::f64::consts::E.powf(-discount_factor * previous.t)
-                                - std::f64::consts::E.powf(-discount_factor * self.end_time))
+                            // The difference between the values of the discount at the
+                            // beginning and at the end would be lost for small factors.
+                            std::f64::consts::E.powf(-discount_factor * previous.t)
+                                * -(-discount_factor * (self.end_time - previous.t)).exp_m1()
                                 / discount_factor
                         }
                     };
@@ -218,8 +220,10 @@ impl RewardEvaluation for MonteCarloReward {
                     let discount = match self.reward_criteria {
                         RewardCriteria::FiniteHorizon => current.t - previous.t,
                         RewardCriteria::InfiniteHorizon { discount_factor } => {
-                            (std::f64::consts::E.powf(-discount_factor * previous.t)
-                                - std::f64::consts::E.powf(-discount_factor * current.t))
+                            // The difference between the values of the discount at the
+                            // beginning and at the end would be lost for small factors.
+                            std::f64::consts::E.powf(-discount_factor * previous.t)
+                                * -(-discount_factor * (current.t - previous.t)).exp_m1()
                                 / discount_factor
                         }
                     };
-- 
2.43.0


From 29b82ddb8055e6b3b5da3375fa5378173ddb4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 18/20] fix: row sums of a CIM are compared with the size of
 its rates also below 1

---
 src/params.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/params.rs b/src/params.rs
index 2dda4b4..229fa08 100644
--- a/src/params.rs
+++ b/src/params.rs
@@ -335,7 +335,7 @@ impl ParamsTrait for DiscreteStatesContinousTimeParams {
         // Check if each row sum up to 0. The rounding error of the sum is proportional to the
         // magnitude of the rates in the row.
         if cim.lanes(Axis(2)).into_iter().any(|row| {
-            let magnitude = row.iter().fold(1.0, |acc: f64, x| acc.max(x.abs()));
+            let magnitude = row.iter().fold(0.0, |acc: f64, x| acc.max(x.abs()));
             f64::abs(row.sum()) > f64::EPSILON.sqrt() * magnitude
         }) {
             warn!(
-- 
2.43.0


From 9b631ef5cab9e5610aca8370d1102ccfd62f616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 19/20] fix: refuse a density which is not a number

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 0549d01..e457358 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -192,7 +192,7 @@ pub struct UniformGraphGenerator {
 
 impl RandomGraphGenerator for UniformGraphGenerator {
     fn new(density: f64, seed: Option<u64>) -> UniformGraphGenerator {
-        if density < 0.0 || density > 1.0 {
+        if !(density >= 0.0 && density <= 1.0) {
             panic!(
                 "Density value must be between 1.0 and 0.0, got {}.",
                 density
-- 
2.43.0


From 0655e23ca46be0f7bd724a94495e9a6e730a0e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:38 +0000
Subject: [PATCH 20/20] fix: trajectories without rows made the sufficient
 statistics and the BIC panic

---
 src/parameter_learning.rs                | 4 ++++
 src/structure_learning/score_function.rs | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/parameter_learning.rs b/src/parameter_learning.rs
index 9cdad40..acc11d2 100644
--- a/src/parameter_learning.rs
+++ b/src/parameter_learning.rs
@@ -78,6 +78,10 @@ pub fn sufficient_statistics<T: process::NetworkProcess>(
 
     //Compute the sufficient statistics
     for trj in dataset.get_trajectories().iter() {
+        //A trajectory without rows has nothing to count
+        if trj.get_time().is_empty() {
+            continue;
+        }
         for idx in 0..(trj.get_time().len() - 1) {
             let t1 = trj.get_time()[idx];
             let t2 = trj.get_time()[idx + 1];
diff --git a/src/structure_learning/score_function.rs b/src/structure_learning/score_function.rs
index cc00d37..8bc59ff 100644
--- a/src/structure_learning/score_function.rs
+++ b/src/structure_learning/score_function.rs
@@ -171,6 +171,7 @@ impl ScoreFunction for BIC {
         let sample_size: usize = dataset
             .get_trajectories()
             .iter()
+            .filter(|x| !x.get_time().is_empty())
             .map(|x| x.get_time().len() - 1)
             .sum();
         //Compute BIC
-- 
2.43.0


From 487561a3fa71d3b23ce57644cdaf73e5fb67c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 01/33] fix: gradients of the cost functions are those of the
 averaged costs

---
 src/learning/toolkit/cost_fn.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/learning/toolkit/cost_fn.rs b/src/learning/toolkit/cost_fn.rs
index b59328f..c91fbc2 100644
--- a/src/learning/toolkit/cost_fn.rs
+++ b/src/learning/toolkit/cost_fn.rs
@@ -37,7 +37,9 @@ impl CostFunc<Matrix<f64>> for MeanSqError {
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        outputs - targets
+        let n = outputs.rows();
+
+        (outputs - targets) / (n as f64)
     }
 }
 
@@ -52,7 +54,9 @@ impl CostFunc<Vector<f64>> for MeanSqError {
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        outputs - targets
+        let n = outputs.size();
+
+        (outputs - targets) / (n as f64)
     }
 }
 
@@ -74,7 +78,9 @@ impl CostFunc<Matrix<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Matrix<f64>, targets: &Matrix<f64>) -> Matrix<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        let n = outputs.rows();
+
+        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)))) / (n as f64)
     }
 }
 
@@ -92,7 +98,9 @@ impl CostFunc<Vector<f64>> for CrossEntropyError {
     }
 
     fn grad_cost(outputs: &Vector<f64>, targets: &Vector<f64>) -> Vector<f64> {
-        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64))))
+        let n = outputs.size();
+
+        (outputs - targets).elediv(&(outputs.elemul(&(-outputs + 1f64)))) / (n as f64)
     }
 }
 
-- 
2.43.0


From d2538714109d1f87d24412ce215eaeb81935b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 02/33] fix: a first cost of zero is no reason for gradient
 descent to stop early

---
 src/learning/optim/grad_desc.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index 1e11487..c90345b 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -15,6 +15,8 @@ use rulinalg::utils;
 
 use learning::toolkit::rand_utils;
 
+use std::f64;
+
 const LEARNING_EPS: f64 = 1e-20;
 
 /// Batch Gradient Descent algorithm
@@ -76,7 +78,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for GradientDesc {
         // Create the initial optimal parameters
         let mut optimizing_val = Vector::new(start.to_vec());
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // Compute the cost and gradient for the current parameters
@@ -171,7 +173,7 @@ impl<M> OptimAlgorithm<M> for StochasticGD
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -270,7 +272,7 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
         // Set up the indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost at the start of each iteration
-        let mut start_iter_cost = 0f64;
+        let mut start_iter_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at the end of each stochastic gd pass
@@ -384,7 +386,7 @@ impl<M> OptimAlgorithm<M> for RMSProp
         // Set up indices for permutation
         let mut permutation = (0..inputs.rows()).collect::<Vec<_>>();
         // The cost from the previous iteration
-        let mut prev_cost = 0f64;
+        let mut prev_cost = f64::INFINITY;
 
         for _ in 0..self.iters {
             // The cost at end of each pass
-- 
2.43.0


From 9a5851f7323428e192244111668f101778efd4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 03/33] fix: AdaGrad with tau = 0 no longer turns parameters
 without gradient into NaN

---
 src/learning/optim/grad_desc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/optim/grad_desc.rs b/src/learning/optim/grad_desc.rs
index c90345b..9f111cf 100644
--- a/src/learning/optim/grad_desc.rs
+++ b/src/learning/optim/grad_desc.rs
@@ -289,7 +289,9 @@ impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Matrix<f64>>> OptimAlgorithm
 
                 // Compute the change in gradient
                 utils::in_place_vec_bin_op(&mut vec_data, ada_s.data(), |x, &y| {
-                    *x = self.alpha * (*x / (self.tau + (y).sqrt()))
+                    let scale = self.tau + (y).sqrt();
+                    // With no gradient seen so far there is nothing to scale (nor to update)
+                    *x = if scale > 0f64 { self.alpha * (*x / scale) } else { 0f64 }
                 });
                 // Update the parameters
                 optimizing_val = &optimizing_val - Vector::new(vec_data);
-- 
2.43.0


From 0a97dad44e621962f3749a23bea6a87384cc34b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:21 +0000
Subject: [PATCH 04/33] fix: generalised linear models reach the maximum
 likelihood estimate

The working response lagged one iteration behind the means, the first one was
not on the scale of the linear predictor, and a singular design panicked
instead of returning an error.
---
 src/learning/glm.rs | 66 ++++++++++++---------------------------------
 1 file changed, 17 insertions(+), 49 deletions(-)

diff --git a/src/learning/glm.rs b/src/learning/glm.rs
index aa69a7e..7c16113 100644
--- a/src/learning/glm.rs
+++ b/src/learning/glm.rs
@@ -41,6 +41,9 @@ use linalg::{Matrix, BaseMatrix};
 use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 
+/// The maximum number of reweighted least squares iterations
+const MAX_ITERS: usize = 25;
+
 /// The Generalized Linear Model
 ///
 /// The model is generic over a Criterion
@@ -100,7 +103,9 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
 
         // Construct initial estimate for mu
         let mut mu = Vector::new(self.criterion.initialize_mu(targets.data()));
-        let mut z = mu.clone();
+        // The working response: the linear predictor plus the linearized residual at mu
+        let mut z = self.criterion.apply_link_func(mu.clone()) +
+                    Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data()));
         let mut beta: Vector<f64> = Vector::new(vec![0f64; inputs.cols() + 1]);
 
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
@@ -108,19 +113,13 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
         let x_t = full_inputs.transpose();
 
         // Iterate to convergence
-        for _ in 0..8 {
+        for _ in 0..MAX_ITERS {
             let w_diag = self.criterion.compute_working_weight(mu.data());
-            let y_bar_data = self.criterion.compute_y_bar(targets.data(), mu.data());
-
             let w = Matrix::from_diag(&w_diag);
-            let y_bar = Vector::new(y_bar_data);
 
             let x_t_w = &x_t * w;
 
-            let new_beta = (&x_t_w * &full_inputs)
-                .inverse()
-                .expect("Could not compute input data inverse.") *
-                           x_t_w * z;
+            let new_beta = (&x_t_w * &full_inputs).inverse()? * x_t_w * z;
             let diff = (beta - &new_beta).apply(&|x| x.abs()).sum();
             beta = new_beta;
 
@@ -128,10 +127,10 @@ impl<C: Criterion> SupModel<Matrix<f64>, Vector<f64>> for GenLinearModel<C> {
                 break;
             }
 
-            // Update z and mu
+            // Update mu, and z at the new mu
             let fitted = &full_inputs * &beta;
-            z = y_bar + &fitted;
-            mu = self.criterion.apply_link_inv(fitted);
+            mu = self.criterion.apply_link_inv(fitted.clone());
+            z = fitted + Vector::new(self.criterion.compute_y_bar(targets.data(), mu.data()));
         }
 
         self.parameters = Some(beta);
@@ -313,19 +312,8 @@ impl Criterion for Bernoulli {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Half way between the targets and 1/2, so that the link is finite
+        y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
@@ -382,19 +370,8 @@ impl Criterion for Binomial {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else if *y_val > 1f64 - 1e-10 {
-                1f64 - 1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Half way between the targets and 1/2, so that the link is finite
+        y.iter().map(|y_val| (y_val + 0.5) / 2f64).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
@@ -456,17 +433,8 @@ impl Criterion for Poisson {
     }
 
     fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
-        let mut mu_data = Vec::with_capacity(y.len());
-
-        for y_val in y {
-            mu_data.push(if *y_val < 1e-10 {
-                1e-10
-            } else {
-                *y_val
-            });
-        }
-
-        mu_data
+        // Slightly more than the targets, so that the link is finite
+        y.iter().map(|y_val| y_val + 0.1).collect()
     }
 
     fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
-- 
2.43.0


From e40cef75a09f0778d0e880e158be4f9b1b4958af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 05/33] fix: naive Bayes gives classes without training data
 probability zero, not NaN

---
 src/learning/naive_bayes.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index a36a712..cc9e6ad 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -45,6 +45,7 @@ use learning::{LearningResult, SupModel};
 use learning::error::{Error, ErrorKind};
 use rulinalg::utils;
 
+use std::f64::NEG_INFINITY;
 use std::f64::consts::PI;
 
 /// The Naive Bayes model.
@@ -139,7 +140,16 @@ impl<T: Distribution> NaiveBayes<T> {
 
         if let (&Some(ref distr), &Some(ref prior)) = (&self.distr, &self.class_prior) {
             // Get the joint log likelihood from the distribution
-            distr.joint_log_lik(inputs, prior)
+            let mut log_probs = distr.joint_log_lik(inputs, prior)?;
+
+            // A class without training data has no parameters, and probability zero
+            for (class, _) in prior.iter().enumerate().filter(|&(_, p)| *p == 0f64) {
+                for i in 0..log_probs.rows() {
+                    log_probs[[i, class]] = NEG_INFINITY;
+                }
+            }
+
+            Ok(log_probs)
         } else {
             Err(Error::new_untrained())
         }
-- 
2.43.0


From 91c45b0212bb9be71d8da037436cf8acbec5a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 06/33] fix: a failed training leaves a naive Bayes model as it
 was

Inputs and targets of different lengths are an error as well.
---
 src/learning/naive_bayes.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/learning/naive_bayes.rs b/src/learning/naive_bayes.rs
index cc9e6ad..0e9913e 100644
--- a/src/learning/naive_bayes.rs
+++ b/src/learning/naive_bayes.rs
@@ -108,7 +108,11 @@ impl<T: Distribution> NaiveBayes<T> {
 impl<T: Distribution> SupModel<Matrix<f64>, Matrix<f64>> for NaiveBayes<T> {
     /// Train the model using inputs and targets.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
-        self.distr = Some(T::from_model_params(targets.cols(), inputs.cols()));
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets have different numbers of rows."));
+        }
+
         self.update_params(inputs, targets)
     }
 
@@ -159,7 +163,7 @@ impl<T: Distribution> NaiveBayes<T> {
         let class_count = targets.cols();
         let total_data = inputs.rows();
 
-        self.class_counts = vec![0; class_count];
+        let mut class_counts = vec![0; class_count];
         let mut class_data = vec![Vec::new(); class_count];
 
         for (idx, row) in targets.row_iter().enumerate() {
@@ -168,27 +172,30 @@ impl<T: Distribution> NaiveBayes<T> {
 
             // Note the class of the input
             class_data[class].push(idx);
-            self.class_counts[class] += 1;
+            class_counts[class] += 1;
         }
 
-        if let Some(ref mut distr) = self.distr {
-            for (idx, c) in class_data.into_iter().enumerate() {
-                // If this class' vector has not been populated, we can safely
-                // skip this iteration, since the user is clearly not interested
-                // in associating features with this class
-                if c.is_empty() {
-                    continue;
-                }
-                // Update the parameters within this class
-                distr.update_params(&inputs.select_rows(&c), idx)?;
+        let mut distr = T::from_model_params(class_count, inputs.cols());
+
+        for (idx, c) in class_data.into_iter().enumerate() {
+            // If this class' vector has not been populated, we can safely
+            // skip this iteration, since the user is clearly not interested
+            // in associating features with this class
+            if c.is_empty() {
+                continue;
             }
+            // Update the parameters within this class
+            distr.update_params(&inputs.select_rows(&c), idx)?;
         }
 
         let mut class_prior = Vec::with_capacity(class_count);
 
         // Compute the prior as the proportion in each class
-        class_prior.extend(self.class_counts.iter().map(|c| *c as f64 / total_data as f64));
+        class_prior.extend(class_counts.iter().map(|c| *c as f64 / total_data as f64));
 
+        // Only touch the model once nothing can fail any more
+        self.distr = Some(distr);
+        self.class_counts = class_counts;
         self.class_prior = Some(class_prior);
         self.cluster_count = Some(class_count);
         Ok(())
-- 
2.43.0


From df2bb125f0e579a94b395efe03938fc4bad0a472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 07/33] fix: Pegasos training of the SVM uses the margins of
 the current plane

The kernel sum ignored the coefficients and labels, and the first step divided
by zero.
---
 src/learning/svm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 0ff3f07..46da6d8 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -151,12 +151,15 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
         let ones = Matrix::<f64>::ones(inputs.rows(), 1);
         let full_inputs = ones.hcat(inputs);
 
-        for t in 0..self.optim_iters {
+        for t in 1..self.optim_iters + 1 {
             let i = rng.gen_range(0, n);
             let row_i = full_inputs.select_rows(&[i]);
+            // The margin of row i under the current expansion of the plane
             let sum = full_inputs.row_iter()
-                .fold(0f64, |sum, row| sum + self.ker.kernel(row_i.data(), row.raw_slice())) *
-                      targets[i] / (self.lambda * (t as f64));
+                .enumerate()
+                .fold(0f64, |sum, (j, row)| {
+                    sum + alpha[j] * targets[j] * self.ker.kernel(row_i.data(), row.raw_slice())
+                }) * targets[i] / (self.lambda * (t as f64));
 
             if sum < 1f64 {
                 alpha[i] += 1f64;
-- 
2.43.0


From 562564806f9f57974473163aa4aaab5d131369a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:51 +0000
Subject: [PATCH 08/33] fix: k-nearest search no longer drops neighbours found
 before k are collected

---
 src/learning/knn/mod.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index fe6d4c0..5ca6fb7 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -168,16 +168,10 @@ impl KNearest {
     }
 
     /// Add new index and distances to the container, keeping first k elements which
-    /// distances are smaller. Returns the updated farthest distance.
+    /// distances are smaller. Returns the updated k-th distance.
     fn add(&mut self, index: usize, distance: f64) -> f64 {
         // self.pairs can't be empty
         let len = self.pairs.len();
-        // index of the last element after the query
-        let last_index: usize = if len < self.k {
-            len
-        } else {
-            len - 1
-        };
 
         unsafe {
             if self.pairs.get_unchecked(len - 1).1 < distance {
@@ -185,7 +179,6 @@ impl KNearest {
                     // append to the last
                     self.pairs.push((index, distance));
                 }
-                self.pairs.get_unchecked(last_index).1
             } else {
                 // last element is already compared
                 if len >= self.k {
@@ -195,13 +188,13 @@ impl KNearest {
                 for i in 2..(len + 1) {
                     if self.pairs.get_unchecked(len - i).1 < distance {
                         self.pairs.insert(len - i + 1, (index, distance));
-                        return self.pairs.get_unchecked(last_index).1;
+                        return self.dist();
                     }
                 }
                 self.pairs.insert(0, (index, distance));
-                self.pairs.get_unchecked(last_index).1
             }
         }
+        self.dist()
     }
 
     /// Return the k-th distance with searching point
-- 
2.43.0


From b1e6c82faedefb743ba4d0eeca77c6223d39fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 09/33] fix: building a k-d or ball tree ends when rows are
 identical

---
 src/learning/knn/binary_tree.rs | 34 ++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index c9f3618..bc8cf0f 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -266,7 +266,8 @@ impl<B: BinarySplit> BinaryTree<B> {
         }
     }
 
-    /// Select next split dimension and value. Returns tuple with 6 elements
+    /// Select next split dimension and value. Returns None if the remaining rows
+    /// can't be separated, otherwise tuple with 6 elements
     /// - split dim
     /// - split value
     /// - remains for left node
@@ -275,7 +276,7 @@ impl<B: BinarySplit> BinaryTree<B> {
     /// - updated min for right node
     fn select_split(&self, data: &Matrix<f64>, mut remains: Vec<usize>,
                     mut dmin: Vector<f64>, mut dmax: Vector<f64>)
-        -> (usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>){
+        -> Option<(usize, f64, Vec<usize>, Vec<usize>, Vector<f64>, Vector<f64>)> {
 
         // avoid recursive call
         loop {
@@ -306,11 +307,19 @@ impl<B: BinarySplit> BinaryTree<B> {
             l_remains.shrink_to_fit();
 
             if l_remains.is_empty() {
-                // all rows are in r_remains. re-split r_remains
+                // all rows are in r_remains. re-split r_remains, as long as
+                // the hyper-rectangle shrinks
+                if !(split > dmin[dim]) {
+                    return None;
+                }
                 remains = r_remains;
                 dmin[dim] = split;
             } else if r_remains.is_empty() {
-                // all rows are in l_remains. re-split l_remains
+                // all rows are in l_remains. re-split l_remains, as long as
+                // the hyper-rectangle shrinks
+                if !(split < dmax[dim]) {
+                    return None;
+                }
                 remains = l_remains;
                 dmax[dim] = split;
             } else {
@@ -323,7 +332,7 @@ impl<B: BinarySplit> BinaryTree<B> {
                 let mut r_min = dmin.clone();
                 r_min[dim] = split;
 
-                return (dim, split, l_remains, r_remains, l_max, r_min);
+                return Some((dim, split, l_remains, r_remains, l_max, r_min));
             }
         };
     }
@@ -337,12 +346,15 @@ impl<B: BinarySplit> BinaryTree<B> {
         } else {
 
             // ToDo: avoid this clone
-            let (dim, split, l_remains, r_remains, l_max, r_min) =
-                self.select_split(data, remains.clone(), dmin.clone(), dmax.clone());
-
-            let l_node = self.split(data, l_remains, dmin.clone(), l_max);
-            let g_node = self.split(data, r_remains, r_min, dmax.clone());
-            B::build(data, remains, dim, split, dmin, dmax, l_node, g_node)
+            match self.select_split(data, remains.clone(), dmin.clone(), dmax.clone()) {
+                Some((dim, split, l_remains, r_remains, l_max, r_min)) => {
+                    let l_node = self.split(data, l_remains, dmin.clone(), l_max);
+                    let g_node = self.split(data, r_remains, r_min, dmax.clone());
+                    B::build(data, remains, dim, split, dmin, dmax, l_node, g_node)
+                },
+                // identical rows, they have to share a leaf
+                None => Node::Leaf(Leaf::new(remains))
+            }
         }
     }
 
-- 
2.43.0


From e19c0e8370d9b30ef0d5efaa99600013e16c673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:12 +0000
Subject: [PATCH 10/33] fix: k-nearest search reports points of the wrong
 length and k = 0 as errors

---
 src/learning/knn/binary_tree.rs |  3 ++-
 src/learning/knn/brute_force.rs |  6 +++++-
 src/learning/knn/mod.rs         | 13 +++++++++++++
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index bc8cf0f..e13453e 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -5,7 +5,7 @@ use std::collections::VecDeque;
 use linalg::{Matrix, BaseMatrix, Vector};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_query, get_distances, dist};
 
 /// Binary tree
 #[derive(Debug)]
@@ -409,6 +409,7 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_query(data, point, k)?;
             let (mut query, mut queue) = self.search_leaf(point, k)?;
             while !queue.is_empty() {
                 let current = queue.pop_front().unwrap();
diff --git a/src/learning/knn/brute_force.rs b/src/learning/knn/brute_force.rs
index d200c09..072f7d2 100644
--- a/src/learning/knn/brute_force.rs
+++ b/src/learning/knn/brute_force.rs
@@ -1,8 +1,10 @@
 //! Bruteforce search implementations
+use std::cmp;
+
 use linalg::{Matrix, BaseMatrix};
 use learning::error::Error;
 
-use super::{KNearest, KNearestSearch, get_distances, dist};
+use super::{KNearest, KNearestSearch, check_query, get_distances, dist};
 
 /// Perform brute-force search
 #[derive(Debug)]
@@ -52,6 +54,8 @@ impl KNearestSearch for BruteForce {
     /// Serch k-nearest items close to the point
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
         if let Some(ref data) = self.data {
+            check_query(data, point, k)?;
+            let k = cmp::min(k, data.rows());
             let indices: Vec<usize> = (0..k).collect();
             let distances = get_distances(data, point, &indices);
 
diff --git a/src/learning/knn/mod.rs b/src/learning/knn/mod.rs
index 5ca6fb7..c7c4305 100644
--- a/src/learning/knn/mod.rs
+++ b/src/learning/knn/mod.rs
@@ -235,6 +235,19 @@ pub trait KNearestSearch: Default{
     fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error>;
 }
 
+/// Check that the point has as many elements as the data has columns,
+/// and that at least one neighbor is asked for
+fn check_query(data: &Matrix<f64>, point: &[f64], k: usize) -> LearningResult<()> {
+    if point.len() != data.cols() {
+        Err(Error::new(ErrorKind::InvalidData,
+                       "The point must have as many elements as the data has columns."))
+    } else if k == 0 {
+        Err(Error::new(ErrorKind::InvalidParameters, "k must be larger than zero."))
+    } else {
+        Ok(())
+    }
+}
+
 /// Count target label frequencies
 /// TODO: Used in decisition tree, move impl to somewhere
 fn freq(labels: &[usize]) -> (Vector<usize>, Vector<usize>) {
-- 
2.43.0


From 2c4723d04c5921997413fd32f1912639498def23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 11/33] fix: DBSCAN assigns border points to the cluster that
 reaches them

---
 src/learning/dbscan.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index e7bbdee..6f7998c 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -180,6 +180,14 @@ impl DBSCAN {
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
         for data_point_idx in &neighbour_pts {
+            // Every neighbour belongs to the cluster, unless another cluster has it already.
+            self.clusters.as_mut().map(|x| {
+                let class = &mut x.mut_data()[*data_point_idx];
+                if class.is_none() {
+                    *class = Some(cluster);
+                }
+            });
+
             let visited = self._visited[*data_point_idx];
             if !visited {
                 self._visited[*data_point_idx] = true;
-- 
2.43.0


From 352f704a75983df49d52fdf23139a1484a7b4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 12/33] fix: DBSCAN does not predict from the data of an
 earlier training

---
 src/learning/dbscan.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 6f7998c..191d96c 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -96,9 +96,11 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
             }
         }
 
-        if self.predictive {
-            self._cluster_data = Some(inputs.clone());
-        }
+        self._cluster_data = if self.predictive {
+            Some(inputs.clone())
+        } else {
+            None
+        };
 
         Ok(())
     }
-- 
2.43.0


From 4bc02050994f42007cdafc81aa29d3dbef4b23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:48 +0000
Subject: [PATCH 13/33] fix: k-means keeps the centroid of a cluster that loses
 all its points

---
 src/learning/k_means.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 398aae6..9de97dc 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -218,9 +218,16 @@ impl<InitAlg: Initializer> KMeansClassifier<InitAlg> {
             row_indexes.get_mut(c as usize).map(|v| v.push(i));
         }
 
-        for vec_i in row_indexes {
-            let mat_i = inputs.select_rows(&vec_i);
-            new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+        for (i, vec_i) in row_indexes.into_iter().enumerate() {
+            if vec_i.is_empty() {
+                // There is no mean of an empty cluster, its centroid stays where it is.
+                if let Some(ref centroids) = self.centroids {
+                    new_centroids.extend_from_slice(centroids.select_rows(&[i]).data());
+                }
+            } else {
+                let mat_i = inputs.select_rows(&vec_i);
+                new_centroids.extend(mat_i.mean(Axes::Row).into_vec());
+            }
         }
 
         self.centroids = Some(Matrix::new(self.k, inputs.cols(), new_centroids));
-- 
2.43.0


From 1c2d98967cbd677dde34eab58f09b65012384859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 14/33] fix: k-means++ reports more clusters than unique points
 as an error

---
 src/learning/k_means.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index 9de97dc..e95cc7f 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -356,6 +356,12 @@ impl Initializer for KPlusPlus {
                                            initialization."));
                 }
 
+                // All points are centroids already
+                if !dist.data().iter().any(|&x| x > 0.0) {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                                          "There are more clusters than unique data points."));
+                }
+
                 let next_cen = sample_discretely(&dist);
                 init_centroids.extend_from_slice(inputs.row_unchecked(next_cen).raw_slice());
             }
-- 
2.43.0


From e4135115be7a8c05a4c9a5f4245e240a855b70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 15/33] fix: the regularisation of mixture covariances does not
 depend on the size of the component

---
 src/learning/gmm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 4c7e713..b508fec 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -327,11 +327,13 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
+            cov_mat /= sum_weights[k];
+
             if let CovOption::Regularized(eps) = self.cov_option {
                 cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
             }
 
-            new_covs.push(cov_mat / sum_weights[k]);
+            new_covs.push(cov_mat);
 
         }
 
-- 
2.43.0


From fae8138fa557fdf11165b7a320c4c25070cfa32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 16/33] fix: singular mixture covariances are an error, not a
 panic

---
 src/learning/gmm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index b508fec..b014f55 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -261,7 +261,7 @@ impl GaussianMixtureModel {
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
-                let lup = PartialPivLu::decompose(cov.clone()).expect("Covariance could not be lup decomposed");
+                let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
                 let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
-- 
2.43.0


From 5f3bae54462b54f3a1d5fd44aa8e4177e720d286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 17/33] fix: more mixture components than rows of data are an
 error, not a panic

---
 src/learning/gmm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index b014f55..7e9d37e 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -79,6 +79,11 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for GaussianMixtureModel {
         // Initialization:
         let k = self.comp_count;
 
+        if inputs.rows() < k {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "There are more components than rows of data."));
+        }
+
         self.model_covars = {
             let cov_mat = self.initialize_covariances(inputs, reg_value)?;
             Some(vec![cov_mat; k])
-- 
2.43.0


From 6986cc47e0adfcf536d3ec6a86f0066e9f4fff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 18/33] fix: mixture membership of points far from all
 components is a distribution, not NaN

---
 src/learning/gmm.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 7e9d37e..1dc9495 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -31,7 +31,6 @@
 //! println!("{:?}", post_probs.data());
 //! ```
 use linalg::{Matrix, MatrixSlice, Vector, BaseMatrix, BaseMatrixMut, Axes};
-use rulinalg::utils;
 use rulinalg::matrix::decomposition::{PartialPivLu};
 
 use learning::{LearningResult, UnSupModel};
@@ -281,25 +280,28 @@ impl GaussianMixtureModel {
         // Now we compute the membership weights
         if let Some(ref means) = self.model_means {
             for i in 0..n {
-                let mut pdfs = Vec::with_capacity(self.comp_count);
+                // Logarithms of the weighted densities, the densities themselves may underflow
+                let mut log_pdfs = Vec::with_capacity(self.comp_count);
                 let x_i = MatrixSlice::from_matrix(inputs, [i, 0], 1, inputs.cols());
 
                 for j in 0..self.comp_count {
                     let mu_j = MatrixSlice::from_matrix(means, [j, 0], 1, means.cols());
                     let diff = x_i - mu_j;
 
-                    let pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0]
-                        .exp() / cov_sqrt_dets[j];
-                    pdfs.push(pdf);
+                    let log_pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0] -
+                                  cov_sqrt_dets[j].ln();
+                    log_pdfs.push(self.mix_weights[j].ln() + log_pdf);
                 }
 
-                let weighted_pdf_sum = utils::dot(&pdfs, self.mix_weights.data());
+                let max = log_pdfs.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+                let scaled: Vec<f64> = log_pdfs.iter().map(|x| (x - max).exp()).collect();
+                let scaled_sum: f64 = scaled.iter().fold(0f64, |s, x| s + x);
 
-                for (idx, pdf) in pdfs.iter().enumerate() {
-                    member_weights_data.push(self.mix_weights[idx] * pdf / (weighted_pdf_sum));
+                for x in &scaled {
+                    member_weights_data.push(x / scaled_sum);
                 }
 
-                log_lik += weighted_pdf_sum.ln();
+                log_lik += max + scaled_sum.ln();
             }
         }
 
-- 
2.43.0


From 7c8ed9c89971b0e9bd9f16c6156af7b78736feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:55 +0000
Subject: [PATCH 19/33] fix: mixture weights that are all zero are refused

---
 src/learning/gmm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 1dc9495..e36d72b 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -173,6 +173,11 @@ impl GaussianMixtureModel {
             Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must have only non-negative entries."))
         } else {
             let sum = mixture_weights.sum();
+
+            if !(sum > 0f64) {
+                return Err(Error::new(ErrorKind::InvalidParameters, "Mixture weights must not all be zero."));
+            }
+
             let normalized_weights = mixture_weights / sum;
 
             Ok(GaussianMixtureModel {
-- 
2.43.0


From 3e64913095f404ec528bbf590fb873adffa2a2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 20/33] fix: a mixture component of zero weight does not turn
 the model into NaN

---
 src/learning/gmm.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index e36d72b..18be6d1 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -323,8 +323,15 @@ impl GaussianMixtureModel {
 
         let mut new_means = membership_weights.transpose() * inputs;
 
-        for (mut mean, w) in new_means.row_iter_mut().zip(sum_weights.data().iter()) {
-            *mean /= *w;
+        // A component without any weight stays as it is
+        for (i, (mut mean, w)) in new_means.row_iter_mut().zip(sum_weights.data().iter()).enumerate() {
+            if *w > 0f64 {
+                *mean /= *w;
+            } else if let Some(ref means) = self.model_means {
+                for (new, old) in mean.iter_mut().zip(means.row(i).iter()) {
+                    *new = *old;
+                }
+            }
         }
 
         let mut new_covs = Vec::with_capacity(self.comp_count);
@@ -339,10 +346,14 @@ impl GaussianMixtureModel {
                 cov_mat += self.compute_cov(diff, membership_weights[[i, k]]);
             }
 
-            cov_mat /= sum_weights[k];
+            if sum_weights[k] > 0f64 {
+                cov_mat /= sum_weights[k];
 
-            if let CovOption::Regularized(eps) = self.cov_option {
-                cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
+                if let CovOption::Regularized(eps) = self.cov_option {
+                    cov_mat += Matrix::<f64>::identity(cov_mat.cols()) * eps;
+                }
+            } else if let Some(ref covars) = self.model_covars {
+                cov_mat = covars[k].clone();
             }
 
             new_covs.push(cov_mat);
-- 
2.43.0


From dce76c3fc1df50b6322527007fbb2992f17d019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 21/33] fix: PCA trained again on tall data forgets that the
 earlier data was wide

---
 src/learning/pca.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 743b9b7..8767c5d 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -182,9 +182,9 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
             inputs.clone()
         };
         let (_, _, mut v) = data.svd().unwrap();
-        if inputs.cols() > inputs.rows() {
+        self.inv = inputs.cols() > inputs.rows();
+        if self.inv {
             v = v.transpose();
-            self.inv = true;
         }
 
         self.components = match self.n {
-- 
2.43.0


From 862a7984f3846f5b290090bbb40ae2f09e8b1967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 22/33] fix: PCA with a number of components selects components
 of wide data

---
 src/learning/pca.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/learning/pca.rs b/src/learning/pca.rs
index 8767c5d..bef02ee 100644
--- a/src/learning/pca.rs
+++ b/src/learning/pca.rs
@@ -170,6 +170,10 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
                     return Err(Error::new(ErrorKind::InvalidData,
                                "Input data must have equal or larger number of columns than n"));
                 }
+                if n > inputs.rows() {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                               "Input data must have equal or larger number of rows than n"));
+                }
             }
         }
 
@@ -190,7 +194,12 @@ impl UnSupModel<Matrix<f64>, Matrix<f64>> for PCA {
         self.components = match self.n {
             Some(c) => {
                 let slicer: Vec<usize> = (0..c).collect();
-                Some(v.select_cols(&slicer))
+                // the components are the rows of inversed data
+                if self.inv {
+                    Some(v.select_rows(&slicer))
+                } else {
+                    Some(v.select_cols(&slicer))
+                }
             },
             None => Some(v)
         };
-- 
2.43.0


From acaed85e6e63530c5cf61dbec799028e5928ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:19 +0000
Subject: [PATCH 23/33] fix: standardising a constant column is an error
 instead of NaN

---
 src/data/transforms/standardize.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/data/transforms/standardize.rs b/src/data/transforms/standardize.rs
index ee974b7..cf687f8 100644
--- a/src/data/transforms/standardize.rs
+++ b/src/data/transforms/standardize.rs
@@ -93,6 +93,12 @@ impl<T: Float + FromPrimitive> TransformFitter<Matrix<T>, Standardizer<T>> for S
                 return Err(Error::new(ErrorKind::InvalidData, "Some data point is non-finite."));
             }
 
+            // A constant feature can't be scaled
+            if variance.data().iter().any(|x| *x == T::zero()) {
+                return Err(Error::new(ErrorKind::InvalidData,
+                                      "Constant feature columns not supported."));
+            }
+
             Ok(Standardizer {
                 means: mean,
                 variances: variance,
-- 
2.43.0


From bc1c671deda076705d8ae71850a792b9e599fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 24/33] fix: DBSCAN refuses to predict points with another
 number of columns

---
 src/learning/dbscan.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 191d96c..945f89a 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -109,6 +109,12 @@ impl UnSupModel<Matrix<f64>, Vector<Option<usize>>> for DBSCAN {
         if self.predictive {
             if let (&Some(ref cluster_data), &Some(ref clusters)) = (&self._cluster_data,
                                                                      &self.clusters) {
+                if inputs.cols() != cluster_data.cols() {
+                    return Err(Error::new(ErrorKind::InvalidData,
+                                          "Input data must have the same number of columns as \
+                                           the training data."));
+                }
+
                 let mut classes = Vec::with_capacity(inputs.rows());
 
                 for input_point in inputs.row_iter() {
-- 
2.43.0


From 22f4aa75b7f8250b1d6273021f33a3285392d5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:22 +0000
Subject: [PATCH 25/33] fix: the SVM refuses training data with more targets
 than inputs

---
 src/learning/svm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/learning/svm.rs b/src/learning/svm.rs
index 46da6d8..78d2a87 100644
--- a/src/learning/svm.rs
+++ b/src/learning/svm.rs
@@ -144,6 +144,11 @@ impl<K: Kernel> SupModel<Matrix<f64>, Vector<f64>> for SVM<K> {
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Vector<f64>) -> LearningResult<()> {
         let n = inputs.rows();
 
+        if n != targets.size() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets have different numbers of rows."));
+        }
+
         let mut rng = rand::thread_rng();
 
         let mut alpha = vec![0f64; n];
-- 
2.43.0


From 5b42beabd62f6c5905448a667fc4c2ddddf5817a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:06 +0000
Subject: [PATCH 26/33] fix: neural networks refuse training data with
 different numbers of inputs and targets

---
 src/learning/nnet/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 5a7fe8d..9ca9c51 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -45,7 +45,7 @@
 
 pub mod net_layer;
 
-use linalg::{Matrix, MatrixSlice};
+use linalg::{BaseMatrix, Matrix, MatrixSlice};
 use rulinalg::utils;
 
 use learning::{LearningResult, SupModel};
@@ -87,6 +87,11 @@ impl<T, A> SupModel<Matrix<f64>, Matrix<f64>> for NeuralNet<T, A>
 
     /// Train the model using gradient optimization and back propagation.
     fn train(&mut self, inputs: &Matrix<f64>, targets: &Matrix<f64>) -> LearningResult<()> {
+        if inputs.rows() != targets.rows() {
+            return Err(Error::new(ErrorKind::InvalidData,
+                                  "Inputs and targets have different numbers of rows."));
+        }
+
         let optimal_w = self.alg.optimize(&self.base, &self.base.weights, inputs, targets);
         self.base.weights = optimal_w;
         Ok(())
-- 
2.43.0


From 2989a827aec52fe0bd8f659afcf05cf826231f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 27/33] fix: conjugate gradients no longer accept a point whose
 cost is not a number

---
 src/learning/optim/fmincg.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/learning/optim/fmincg.rs b/src/learning/optim/fmincg.rs
index 5afb72b..83159c3 100644
--- a/src/learning/optim/fmincg.rs
+++ b/src/learning/optim/fmincg.rs
@@ -139,7 +139,8 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
             loop {
                 let mut z2: f64;
 
-                while ((f2 > (f1 + z1 * self.rho * d1)) || (d2 > -self.sig * d1)) && (m > 0i32) {
+                // A cost or slope that is not a number fails these conditions, too
+                while (!(f2 <= (f1 + z1 * self.rho * d1)) || !(d2 <= -self.sig * d1)) && (m > 0i32) {
 
                     limit = z1;
 
@@ -180,7 +181,7 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
                     z3 -= z2;
                 }
 
-                if f2 > f1 + z1 * self.rho * d1 || d2 > -self.sig * d1 {
+                if !(f2 <= f1 + z1 * self.rho * d1) || !(d2 <= -self.sig * d1) {
                     break;
                 } else if d2 > self.sig * d1 {
                     success = true;
-- 
2.43.0


From ededdb1f894140d23a9c5d156ecefc55c897446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 28/33] fix: DBSCAN expands a cluster from a work list, not by
 recursion

Recursion was as deep as the cluster is large: ten thousand points in one
cluster overflowed the stack of a thread, which aborts the process.
---
 src/learning/dbscan.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/learning/dbscan.rs b/src/learning/dbscan.rs
index 945f89a..d681a21 100644
--- a/src/learning/dbscan.rs
+++ b/src/learning/dbscan.rs
@@ -187,26 +187,40 @@ impl DBSCAN {
 
         self.clusters.as_mut().map(|x| x.mut_data()[point_idx] = Some(cluster));
 
-        for data_point_idx in &neighbour_pts {
+        // Points whose neighbourhoods still have to be looked at. A work list, as
+        // recursion is as deep as the cluster is large.
+        let mut pending = self.claim_neighbours(&neighbour_pts, cluster);
+
+        while let Some(data_point_idx) = pending.pop() {
+            let data_point_row = unsafe { inputs.row_unchecked(data_point_idx) };
+            let sub_neighbours = self.region_query(data_point_row, inputs);
+
+            if sub_neighbours.len() >= self.min_points {
+                pending.extend(self.claim_neighbours(&sub_neighbours, cluster));
+            }
+        }
+    }
+
+    /// Adds the neighbours to the cluster. Returns those which had not been visited before.
+    fn claim_neighbours(&mut self, neighbour_pts: &[usize], cluster: usize) -> Vec<usize> {
+        let mut unvisited = Vec::new();
+
+        for &data_point_idx in neighbour_pts {
             // Every neighbour belongs to the cluster, unless another cluster has it already.
             self.clusters.as_mut().map(|x| {
-                let class = &mut x.mut_data()[*data_point_idx];
+                let class = &mut x.mut_data()[data_point_idx];
                 if class.is_none() {
                     *class = Some(cluster);
                 }
             });
 
-            let visited = self._visited[*data_point_idx];
-            if !visited {
-                self._visited[*data_point_idx] = true;
-                let data_point_row = unsafe { inputs.row_unchecked(*data_point_idx) };
-                let sub_neighbours = self.region_query(data_point_row, inputs);
-
-                if sub_neighbours.len() >= self.min_points {
-                    self.expand_cluster(inputs, *data_point_idx, sub_neighbours, cluster);
-                }
+            if !self._visited[data_point_idx] {
+                self._visited[data_point_idx] = true;
+                unvisited.push(data_point_idx);
             }
         }
+
+        unvisited
     }
 
 
-- 
2.43.0


From ed882e97472f4200a8b2553979e084bef62ca9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:10 +0000
Subject: [PATCH 29/33] fix: bound the depth of kd-trees and ball trees

Trees are built and dropped by recursion. Rows whose distances span many
magnitudes are split off one by one, and a tree of thousands of levels
overflowed the stack. Rows still together at level 512 share a leaf.
---
 src/learning/knn/binary_tree.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/learning/knn/binary_tree.rs b/src/learning/knn/binary_tree.rs
index e13453e..df4f306 100644
--- a/src/learning/knn/binary_tree.rs
+++ b/src/learning/knn/binary_tree.rs
@@ -7,6 +7,9 @@ use learning::error::Error;
 
 use super::{KNearest, KNearestSearch, check_query, get_distances, dist};
 
+/// Rows that are still together at this depth share a leaf.
+const MAX_DEPTH: usize = 512;
+
 /// Binary tree
 #[derive(Debug)]
 pub struct BinaryTree<B: BinarySplit> {
@@ -339,17 +342,18 @@ impl<B: BinarySplit> BinaryTree<B> {
 
     /// find next binary split
     fn split(&self, data: &Matrix<f64>, remains: Vec<usize>,
-             dmin: Vector<f64>, dmax: Vector<f64>) -> Node<B> {
+             dmin: Vector<f64>, dmax: Vector<f64>, depth: usize) -> Node<B> {
 
-        if remains.len() < self.leafsize {
+        // Trees are built and dropped by recursion, so their depth is bounded
+        if remains.len() < self.leafsize || depth == MAX_DEPTH {
             Node::Leaf(Leaf::new(remains))
         } else {
 
             // ToDo: avoid this clone
             match self.select_split(data, remains.clone(), dmin.clone(), dmax.clone()) {
                 Some((dim, split, l_remains, r_remains, l_max, r_min)) => {
-                    let l_node = self.split(data, l_remains, dmin.clone(), l_max);
-                    let g_node = self.split(data, r_remains, r_min, dmax.clone());
+                    let l_node = self.split(data, l_remains, dmin.clone(), l_max, depth + 1);
+                    let g_node = self.split(data, r_remains, r_min, dmax.clone(), depth + 1);
                     B::build(data, remains, dim, split, dmin, dmax, l_node, g_node)
                 },
                 // identical rows, they have to share a leaf
@@ -402,7 +406,7 @@ impl<B: BinarySplit> KNearestSearch for BinaryTree<B> {
         let remains: Vec<usize> = (0..data.rows()).collect();
         let dmin = min(&data);
         let dmax = max(&data);
-        self.root = Some(self.split(&data, remains, dmin, dmax));
+        self.root = Some(self.split(&data, remains, dmin, dmax, 0));
         self.data = Some(data);
     }
 
-- 
2.43.0


From 04fe15677f91fa420852a7d031eb0c85f65fabd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 30/33] fix: the views of a network's weights are checked
 against their number

---
 src/learning/nnet/mod.rs | 63 +++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 36 deletions(-)

diff --git a/src/learning/nnet/mod.rs b/src/learning/nnet/mod.rs
index 9ca9c51..eb585e8 100644
--- a/src/learning/nnet/mod.rs
+++ b/src/learning/nnet/mod.rs
@@ -309,7 +309,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
     }
 
     /// Gets matrix of weights for the specified layer for the weights.
-    fn get_layer_weights(&self, weights: &[f64], idx: usize) -> MatrixSlice<f64> {
+    fn get_layer_weights<'a>(&self, weights: &'a [f64], idx: usize) -> MatrixSlice<'a, f64> {
         debug_assert!(idx < self.layers.len());
 
         // Check that the weights are the right size.
@@ -319,13 +319,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
 
         let start: usize = self.layers.iter().take(idx).map(|l| l.num_params()).sum();
 
-        let shape = self.layers[idx].param_shape();
-        unsafe {
-            MatrixSlice::from_raw_parts(weights.as_ptr().offset(start as isize),
-                                        shape.0,
-                                        shape.1,
-                                        shape.1)
-        }
+        params_slice(weights, start, self.layers[idx].param_shape())
     }
 
     /// Compute the gradient using the back propagation algorithm.
@@ -334,10 +328,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
                     inputs: &Matrix<f64>,
                     targets: &Matrix<f64>)
                     -> (f64, Vec<f64>) {
-        let mut gradients = Vec::with_capacity(weights.len());
-        unsafe {
-            gradients.set_len(weights.len());
-        }
+        let mut gradients = vec![0.0; weights.len()];
         // activations[i] is the output of layer[i]
         let mut activations = Vec::with_capacity(self.layers.len());
         // params[i] is the weights for layer[i]
@@ -347,14 +338,7 @@ impl<T: Criterion> BaseNeuralNet<T> {
         
         let mut index = 0;
         for (i, layer) in self.layers.iter().enumerate() {
-            let shape = layer.param_shape();
-
-            let slice = unsafe {
-                MatrixSlice::from_raw_parts(weights.as_ptr().offset(index as isize),
-                                            shape.0,
-                                            shape.1,
-                                            shape.1)
-            };
+            let slice = params_slice(weights, index, layer.param_shape());
 
             let output = if i == 0 {
                 layer.forward(inputs, slice).unwrap()
@@ -403,26 +387,13 @@ impl<T: Criterion> BaseNeuralNet<T> {
             return Ok(inputs.clone());
         }
 
-        let mut outputs = unsafe {
-            let shape = self.layers[0].param_shape();
-            let slice = MatrixSlice::from_raw_parts(self.weights.as_ptr(),
-                                                    shape.0,
-                                                    shape.1,
-                                                    shape.1);
-            self.layers[0].forward(inputs, slice)?
-        };
+        let slice = params_slice(&self.weights, 0, self.layers[0].param_shape());
+        let mut outputs = self.layers[0].forward(inputs, slice)?;
 
         let mut index = self.layers[0].num_params();
         for layer in self.layers.iter().skip(1) {
-            let shape = layer.param_shape();
+            let slice = params_slice(&self.weights, index, layer.param_shape());
 
-            let slice = unsafe {
-                MatrixSlice::from_raw_parts(self.weights.as_ptr().offset(index as isize),
-                                            shape.0,
-                                            shape.1,
-                                            shape.1)
-            };
-            
             outputs = match layer.forward(&outputs, slice) {
                 Ok(act) => act,
                 Err(_) => {return Err(Error::new(ErrorKind::InvalidParameters,
@@ -435,6 +406,26 @@ impl<T: Criterion> BaseNeuralNet<T> {
     }
 }
 
+/// View of the parameters of a layer, which begin at `start` among the weights.
+///
+/// The shape comes from the layer and the weights from the optimization algorithm,
+/// so they are not trusted to fit each other.
+///
+/// # Panics
+///
+/// - The weights are too few for the shape
+fn params_slice(weights: &[f64], start: usize, shape: (usize, usize)) -> MatrixSlice<f64> {
+    let end = shape.0.checked_mul(shape.1).and_then(|len| start.checked_add(len));
+    assert!(end.map_or(false, |end| end <= weights.len()),
+            "The weights do not fit the layers of the network.");
+    unsafe {
+        MatrixSlice::from_raw_parts(weights.as_ptr().offset(start as isize),
+                                    shape.0,
+                                    shape.1,
+                                    shape.1)
+    }
+}
+
 /// Compute the gradient of the Neural Network using the
 /// back propagation algorithm.
 impl<T: Criterion> Optimizable for BaseNeuralNet<T> {
-- 
2.43.0


From 0917c4aa70dcf6c655ac827f9a55f3147e39550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:58 +0000
Subject: [PATCH 31/33] fix: evaluation bounds of conjugate gradients that do
 not fit in 32 bits

---
 src/learning/optim/fmincg.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/learning/optim/fmincg.rs b/src/learning/optim/fmincg.rs
index 83159c3..17f06d5 100644
--- a/src/learning/optim/fmincg.rs
+++ b/src/learning/optim/fmincg.rs
@@ -33,6 +33,7 @@ use linalg::Vector;
 
 use std::cmp;
 use std::f64;
+use std::i32;
 
 
 /// Conjugate Gradient Descent algorithm
@@ -96,7 +97,9 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
         // The reduction in the function. Can also be specified as part of length
         let red = 1f64;
 
-        let length = self.iters as i32;
+        // Counts that do not fit are beyond reach: they are no bounds.
+        let length = cmp::min(self.iters, i32::MAX as usize) as i32;
+        let max = cmp::min(self.max, i32::MAX as usize) as i32;
 
         let mut s = -df1.clone();
         let mut d1 = -s.dot(&s);
@@ -128,9 +131,9 @@ impl<M: Optimizable> OptimAlgorithm<M> for ConjugateGD {
             let (mut f3, mut d3, mut z3) = (f1, d1, -z1);
 
             let mut m = if length > 0 {
-                self.max as i32
+                max
             } else {
-                cmp::min(self.max as i32, -length - (i as i32))
+                cmp::min(max, -length - (i as i32))
             };
 
             let mut success = false;
-- 
2.43.0


From a5a87f8d817c30fad3a92b5daede5cfa8ba5c68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 32/33] fix: k-means on data in small units, where an absolute
 bound on the change of the cost ended training after one iteration

---
 src/learning/k_means.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/learning/k_means.rs b/src/learning/k_means.rs
index e95cc7f..05832c1 100644
--- a/src/learning/k_means.rs
+++ b/src/learning/k_means.rs
@@ -99,7 +99,7 @@ impl<InitAlg: Initializer> UnSupModel<Matrix<f64>, Vector<usize>> for KMeansClas
             self.update_centroids(inputs, idx);
 
             let cost_i = distances.sum();
-            if abs(cost - cost_i) < eps {
+            if abs(cost - cost_i) <= eps * cost_i {
                 break;
             }
 
-- 
2.43.0


From a6e76be2a94f314345a251613d8671a4735e9740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 33/33] fix: mixture memberships where the determinant of a
 covariance overflows or underflows

---
 src/learning/gmm.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/learning/gmm.rs b/src/learning/gmm.rs
index 18be6d1..2e58ac9 100644
--- a/src/learning/gmm.rs
+++ b/src/learning/gmm.rs
@@ -265,17 +265,28 @@ impl GaussianMixtureModel {
         let mut member_weights_data = Vec::with_capacity(n * self.comp_count);
 
         // We compute the determinants and inverses now
-        let mut cov_sqrt_dets = Vec::with_capacity(self.comp_count);
+        let mut half_log_dets = Vec::with_capacity(self.comp_count);
         let mut cov_invs = Vec::with_capacity(self.comp_count);
 
         if let Some(ref covars) = self.model_covars {
             for cov in covars {
                 let lup = PartialPivLu::decompose(cov.clone()).map_err(Error::from)?;
-                let covar_det = lup.det();
                 // TODO: We can probably remove this inverse for a more stable solve elsewhere.
                 let covar_inv = lup.inverse().map_err(Error::from)?;
 
-                cov_sqrt_dets.push(covar_det.sqrt());
+                // The determinant of many variances may leave the range of f64, that of the
+                // correlations and the logarithms do not
+                let stdevs: Vec<f64> = (0..cov.cols()).map(|j| cov[[j, j]].sqrt()).collect();
+                let mut corr = cov.clone();
+                for (mut row, sd_j) in corr.row_iter_mut().zip(stdevs.iter()) {
+                    for (elem, sd_k) in row.iter_mut().zip(stdevs.iter()) {
+                        *elem /= sd_j * sd_k;
+                    }
+                }
+                let corr_det = PartialPivLu::decompose(corr).map_err(Error::from)?.det();
+                let log_stdevs: f64 = stdevs.iter().map(|sd| sd.ln()).sum();
+
+                half_log_dets.push(0.5 * corr_det.ln() + log_stdevs);
                 cov_invs.push(covar_inv);
             }
         }
@@ -294,7 +305,7 @@ impl GaussianMixtureModel {
                     let diff = x_i - mu_j;
 
                     let log_pdf = (&diff * &cov_invs[j] * diff.transpose() * -0.5).into_vec()[0] -
-                                  cov_sqrt_dets[j].ln();
+                                  half_log_dets[j];
                     log_pdfs.push(self.mix_weights[j].ln() + log_pdf);
                 }
 
-- 
2.43.0


From 2f9cc4fc96f9114d686f0c75e3c6ce09d74ee009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 1/6] fix: report the number of performed column generation
 iterations

performed_iter_ is documented as the total number of iterations but stayed 0.
---
 col_gen_estimator/_col_gen_classifier.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/col_gen_estimator/_col_gen_classifier.py b/col_gen_estimator/_col_gen_classifier.py
index 07b27fe..ebb18fd 100644
--- a/col_gen_estimator/_col_gen_classifier.py
+++ b/col_gen_estimator/_col_gen_classifier.py
@@ -380,6 +380,7 @@ class ColGenClassifier(ClassifierMixin, BaseEstimator):
             if self.max_iterations > 0 and self.iter_ >= self.max_iterations:
                 break
             self.iter_ += 1
+            self.performed_iter_ = self.iter_
             print("Iteration number: ", self.iter_)
             print("Time elapsed: ", time() - t_start)
             master_time_start = time()
-- 
2.43.0


From 4bc77b4cefffc33a564326314bd37316256948a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 2/6] fix: compute ancestors of deep leaves with integer
 division

The float quotient is rounded for node numbers above 2**53, which puts wrong
nodes on the path of a leaf of a deep tree.
---
 col_gen_estimator/_dtree_classifier.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 849dc8a..47ceb3e 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -252,7 +252,7 @@ class Path:
         self.node_ids = []
         count = 2**(depth) - 1 + leaf_id
         while (count > 0):
-            father = math.floor((count-1) / 2)
+            father = (count-1) // 2
             self.node_ids.append(father)
             count = father
 
@@ -321,7 +321,7 @@ class Leaf:
         self.right_nodes = []
         count = 2**(depth) - 1 + id
         while (count > 0):
-            father = math.floor((count-1) / 2)
+            father = (count-1) // 2
             if count % 2 == 0:
                 self.right_nodes.append(father)
             else:
-- 
2.43.0


From af1bd56549a5fb8510df0d09fc91bc5a6d51b40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 3/6] fix: give heuristic paths that no row follows a valid
 target

The target stayed -1, so predicting a row that reaches such a leaf failed while
decoding the label.
---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 47ceb3e..14e8114 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1971,7 +1971,7 @@ class DTreeSubProblemHeuristic(BaseSubproblem):
             n_rows = X.shape[0]
 
             possible_targets = {}
-            best_target = -1
+            best_target = self.targets_[0]
             best_target_count = 0
             row_satisfies_path_array = [False]*n_rows
 
-- 
2.43.0


From 579d81f3b6aa44bb08c0a4f6971d3c0edf2acd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 4/6] fix: make the tree pricing MIP select exactly one target

Constraint (8) of the documented model is an equality. With the relaxed bounds
a path without correctly classified rows could be returned without a target.
---
 col_gen_estimator/_dtree_classifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 14e8114..fa69368 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1298,7 +1298,7 @@ class DTreeSubProblem(BaseSubproblem):
         # only one class selected
         # Binary variables indicating that the class is selected.
         self.w_vars_ = [None]*len(self.targets_)
-        single_target_cons = self.solver_.Constraint(0, 1, 'single_target')
+        single_target_cons = self.solver_.Constraint(1, 1, 'single_target')
         for i in range(len(self.targets_)):
             target = self.targets_[i]
             w_var = self.solver_.BoolVar('w_' + str(target))
-- 
2.43.0


From ed8331fe55bcbb1f13bbcee9bcb93a0703255f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:54 +0000
Subject: [PATCH 5/6] fix: store all the constructor arguments of
 DTreeClassifier

get_params() raised AttributeError.
---
 col_gen_estimator/_dtree_classifier.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index fa69368..9a82bfd 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -2438,6 +2438,8 @@ class DTreeClassifier(ColGenClassifier):
         self.master_beta_constraints_as_cuts = master_beta_constraints_as_cuts
         self.master_generate_cuts = master_generate_cuts
         self.data_rows = data_rows
+        self.use_old_sp = use_old_sp
+        self.master_solver_type = master_solver_type
         split_ids = []
         for split in splits:
             split_ids.append(split.id)
-- 
2.43.0


From bbb1466b53d3b35a4dfa3eee1c54cfe1aba11879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 6/6] fix: force the correct-classification variables in the CP
 tree pricing

Intermediate solutions are used as columns; with the variables only bounded
from above such a column could carry too low a cost.
---
 col_gen_estimator/_dtree_classifier.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/col_gen_estimator/_dtree_classifier.py b/col_gen_estimator/_dtree_classifier.py
index 9a82bfd..91ed34b 100644
--- a/col_gen_estimator/_dtree_classifier.py
+++ b/col_gen_estimator/_dtree_classifier.py
@@ -1757,6 +1757,12 @@ class DTreeSubProblemSat(BaseSubproblem):
             correct_class = self.y_[i]
             self.model_.Add(self.z_vars_[i] <= self.w_vars_[correct_class])
 
+            # z >= y + w - 1. The intermediate solutions are used as columns,
+            # so this can not be left to the objective.
+            self.model_.Add(
+                self.y_vars_[i] + self.w_vars_[correct_class]
+                - self.z_vars_[i] <= 1)
+
         self.generated_ = True
 
     def update_objective(self, leaf_dual, row_duals, ns_duals, cut_duals):
-- 
2.43.0

